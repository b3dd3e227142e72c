#!/usr/bin/env python3
"""Runs the tests and then the checks against mutants.

run.py tests MUTANTS OUT         keeps the mutants that build and pass the tests
run.py checks MUTANTS OUT        runs the checks for the file of each mutant until one reports a violation
Works on copies of /repo under /tmp/mw-*, which are removed at the end.
"""
import json, os, queue, shutil, subprocess, sys, threading, time

VERIF = os.environ.get("MUT_VERIF", "/verif")
REPO = os.environ.get("MUT_REPO", "/repo")
ORDER = {
    "optimize.go": "G07 G02 G01 G03 G04 C01 G06 X01", "node.go": "G05 G06 H02 G03 G01 G02", "model.go": "M01 F05 G01",
    "highscore.go": "H01 H02 C02 C01 G03", "searchProgress.go": "C02 C01 G03", "simmulatedAnnealing.go": "S01", "saScore.go": "H03 S01",
    "lassoCrdDesc.go": "L01 L02 K02", "lasso_lars.go": "L03 L04 L06 L05", "lasso_cd.go": "L07 L03 L01 L05", "normalized_dataset.go": "L04 L03",
    "nestedLasso.go": "L05", "lassoPlot.go": "L06 D03 L05", "lassoCorrections.go": "L07 L01 L02", "cohens_kappa.go": "K01 K02 K03 C01",
    "covarianceMatrix.go": "L01 T01 L02 C01 X01", "thresholdCov.go": "T01 C01 X01", "csvIO.go": "D01 D02 D03 L05 X01", "fit.go": "F01 F06 G03", "criteria.go": "F04 G05 G01",
    "orthogonalMatchingPursuit.go": "F02", "lazyPowerMat.go": "F03", "util.go": "F05 G03 L06 F03 S01 K02 G01", "subview.go": "F05 F02 F01", "sliceVec.go": "F05 L01",
}
env = dict(os.environ)
out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout.decode()
env.update(dict(l.split("=", 1) for l in out.split("\0") if "=" in l))


def apply(d, m):
    fn = os.path.join(d, m["File"])
    b = open(os.path.join(REPO, m["File"]), "rb").read()
    open(fn, "wb").write(b[:m["Start"]] + m["Text"].encode() + b[m["End"]:])


def undo(d, m):
    shutil.copyfile(os.path.join(REPO, m["File"]), os.path.join(d, m["File"]))


def tests(d, m):
    if subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True).returncode:
        return None
    try:
        r = subprocess.run(["go", "test", "-count=1", "-timeout", "60s", "./featselect/..."], cwd=d, env=dict(env, GOMAXPROCS="2"), capture_output=True, timeout=120)
    except subprocess.TimeoutExpired:
        return None
    return m if r.returncode == 0 else None


def checks(d, m):
    m = dict(m)
    ids = ORDER.get(os.path.basename(m["File"]), "X01").split()
    m["tried"] = {}
    for i in ids:
        t = time.time()
        try:
            r = subprocess.run([VERIF + "/check", i], env=dict(env, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev", VERIF_TIER="quick"), capture_output=True, text=True, timeout=800)
            v = [l for l in r.stdout.splitlines() if l.strip()]
            m["tried"][i] = [r.returncode, round(time.time() - t)] + ([v[1][:300]] if r.returncode == 1 and len(v) > 1 else v[-1:] if r.returncode else [])
        except subprocess.TimeoutExpired:
            m["tried"][i] = [124, 800]
            continue
        if r.returncode == 1:
            m["killed"] = i
            break
    return m


def main():
    what, src, dst = sys.argv[1:4]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    q = queue.Queue()
    for l in open(src):
        q.put(json.loads(l))
    f = tests if what == "tests" else checks
    lock = threading.Lock()
    outf = open(dst, "a")

    def work(i):
        d = "/tmp/mw-%s-%d" % (what, i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            apply(d, m)
            r = f(d, m)
            undo(d, m)
            if r is not None:
                with lock:
                    outf.write(json.dumps(r) + "\n")
                    outf.flush()
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
