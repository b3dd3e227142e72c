"""What runs for each property."""

SCHED = "stateless model checking of the implementation: exhaustive enumeration of schedules up to a deviation bound under a controlled scheduler"
ENUM = "bounded exhaustive enumeration of inputs and operation sequences against a reference model, on the implementation"
RAND = "stateless model checking of the implementation: exhaustive enumeration of random outcomes and schedules up to a bound under a controlled environment"


def sched(quick=30, thorough=500, name="sched", mode="sched", **kw):
    return dict(name=name, mode=mode, harness="hsched", budget=dict(quick=quick, thorough=thorough), **kw)


def seq(quick=25, thorough=400, name="seq", **kw):
    return dict(name=name, mode="seq", harness="hseq", budget=dict(quick=quick, thorough=thorough), **kw)


PLAN = {
    "G01": dict(technique=SCHED, parts=[sched()]),
    "G02": dict(technique=SCHED, parts=[sched()]),
    "G03": dict(technique=SCHED, parts=[sched()]),
    "G04": dict(technique=SCHED, parts=[sched()]),
    "L02": dict(technique=SCHED, parts=[sched()]),
    "S01": dict(technique=RAND, parts=[sched()]),
    "T01": dict(technique=SCHED, parts=[sched()]),
    "C01": dict(technique=SCHED, parts=[sched(name="race", mode="race", quick=50)]),
    "C02": dict(technique=SCHED, parts=[sched(name="fine", mode="fine")]),
    "X01": dict(technique=SCHED, parts=[sched(tools=True, quick=40)]),
    "X02": dict(technique="model checking of the implementation: exhaustive enumeration of crash points, failing file operations and schedules up to a bound", parts=[sched()]),
    "K02": dict(technique=RAND, parts=[sched()]),
    "K03": dict(technique=SCHED, parts=[sched()]),
    "G05": dict(technique=ENUM, parts=[seq()]),
    "G06": dict(technique=ENUM, parts=[seq()]),
    "H01": dict(technique=ENUM, parts=[seq()]),
    "H02": dict(technique=ENUM, parts=[seq()]),
    "H03": dict(technique=ENUM, parts=[seq()]),
    "K01": dict(technique=ENUM, parts=[seq()]),
    "L01": dict(technique=ENUM, parts=[seq()]),
    "L03": dict(technique=ENUM, parts=[seq()]),
    "L04": dict(technique=ENUM, parts=[seq()]),
    "L05": dict(technique=ENUM, parts=[seq()]),
    "L06": dict(technique=ENUM, parts=[seq()]),
    "D01": dict(technique=ENUM, parts=[seq()]),
    "D02": dict(technique=ENUM, parts=[seq()]),
    "D03": dict(technique=ENUM, parts=[seq()]),
    "F01": dict(technique=ENUM, parts=[seq()]),
    "F02": dict(technique=ENUM, parts=[seq()]),
    "F03": dict(technique=ENUM, parts=[seq()]),
    "F04": dict(technique=ENUM, parts=[seq()]),
    "F05": dict(technique=ENUM, parts=[seq()]),
    "G07": dict(technique=ENUM, parts=[seq()]),
    "G08": dict(technique=ENUM, parts=[seq(), sched(quick=15, thorough=200)]),
    "L07": dict(technique=ENUM, parts=[seq()]),
    "F06": dict(technique=ENUM, parts=[seq()]),
    "M01": dict(technique=ENUM, parts=[seq()]),
}

BASE = [
    "scheduling points are the synchronisation operations (channels, locks, atomics, timers, goroutine start); unsynchronised accesses are covered by C01",
    "floating point results are compared with tolerances; inputs are well away from the documented cutoffs",
]


def assumptions(pid):
    return BASE


NOTE = ("Every execution within the stated bounds is run on the real code (no abstraction); nothing is shown beyond the bounds. "
        "Trusted: the controlled scheduler and instrumenter in mc/, the reference computations in mc/hcommon, the Go toolchain and gonum.")
