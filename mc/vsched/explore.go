//go:build go1.22

package verifsched

import (
	"time"
)

// Scenario makes one fresh instance of the system under test: the body to run
// and the check of the finished execution ("" if the property holds).
type Scenario func() (body func(), check func(*Exec) string)

// Report of an exploration
type Report struct {
	Executions int
	Steps      int
	States     map[uint64]struct{}
	BoundDone  int // all executions with at most this many deviations were explored; -1 if not even those without
	Capped     bool
	Violation  string
	Choices    []int
	Final      *Exec
	MaxChoices int
	MaxSteps   int
	Diverged   int
	ByCost     []int
	Outcomes   map[string]int
}

// Options of an exploration
type Options struct {
	Cfg      Config
	Bound    int
	Shard    int
	NShards  int
	Deadline time.Time
	MaxExecs int
	Begin    func(prefix []int)
	// Outcome classifies an execution for the report
	Outcome func() string
}

// expander generates the children of one execution that deviate at one later
// choice of the given cost. The choices are visited in an order that covers the
// execution evenly, whenever the exploration is stopped
type expander struct {
	picks   []byte
	ns      []byte
	costs   []byte
	from    int
	at, alt int
	stride  int
	cost    byte
	shared  bool
	count   int
}

func newExpander(n, from int, shared bool) expander {
	m := n - from
	stride := max(1, m*618/1000)
	for gcd(stride, m) != 1 {
		stride++
	}
	return expander{picks: make([]byte, n), ns: make([]byte, n), costs: make([]byte, n), from: from, alt: 1, stride: stride, shared: shared}
}

func gcd(a, b int) int {
	for b > 0 {
		a, b = b, a%b
	}
	return a
}

func (x *expander) next(shard, nshards int) ([]int, bool) {
	m := len(x.picks) - x.from
	for x.at < m {
		// the last choice comes first
		i, alt := x.from+(m-1+x.at*x.stride)%m, x.alt
		if x.costs[i] != x.cost || alt >= int(x.ns[i]) {
			x.at++
			x.alt = 1
			continue
		}
		x.alt++
		x.count++
		if x.shared && x.count%nshards != shard {
			continue
		}
		p := make([]int, i+1)
		for k := 0; k < i; k++ {
			p[k] = int(x.picks[k])
		}
		p[i] = alt
		return p, true
	}
	return nil, false
}

func picks(c []Choice) []int {
	// trailing defaults are not needed
	n := len(c)
	for n > 0 && c[n-1].Pick == 0 {
		n--
	}
	r := make([]int, n)
	for i := range r {
		r[i] = c[i].Pick
	}
	return r
}

// Explore runs all executions with at most opt.Bound deviations from the
// default policy, those with fewer deviations first.
func Explore(opt Options, mk Scenario) *Report {
	r := &Report{States: map[uint64]struct{}{}, BoundDone: -1, Outcomes: map[string]int{}}
	if opt.NShards == 0 {
		opt.NShards = 1
	}
	levels := make([][]*expander, opt.Bound+2)
	r.ByCost = make([]int, opt.Bound+1)
	// run executes one prefix and registers the generators of its children
	run := func(prefix []int, cost int, root bool) bool {
		if opt.Begin != nil {
			opt.Begin(prefix)
		}
		body, check := mk()
		re := RaceErrors()
		e := Run(opt.Cfg, prefix, body)
		r.Executions++
		r.ByCost[cost]++
		r.Steps += e.Steps
		if len(e.Choices) > r.MaxChoices {
			r.MaxChoices = len(e.Choices)
		}
		if e.Steps > r.MaxSteps {
			r.MaxSteps = e.Steps
		}
		if len(r.States) < 4000000 {
			for _, h := range e.Hashes {
				r.States[h] = struct{}{}
			}
		}
		if e.Outcome == "diverged" || len(e.Choices) < len(prefix) {
			r.Diverged++
			return true
		}
		msg := check(e)
		if msg == "" && RaceErrors() > re {
			msg = "data race"
		}
		if opt.Outcome != nil {
			r.Outcomes[opt.Outcome()]++
		}
		if msg != "" {
			r.Violation = msg
			r.Choices = picks(e.Choices)
			r.Final = e
			return false
		}
		if r.Final == nil {
			r.Final = e
		}
		n := len(e.Choices)
		if n == len(prefix) {
			return true
		}
		x := newExpander(n, len(prefix), root)
		has := [2]bool{}
		for i, c := range e.Choices {
			x.picks[i], x.ns[i], x.costs[i] = byte(c.Pick), byte(min(c.N, 255)), byte(c.Cost)
			if i >= len(prefix) && c.N > 1 && c.Cost < 2 {
				has[c.Cost] = true
			}
		}
		if has[1] && cost+1 <= opt.Bound {
			y := x
			y.cost = 1
			levels[cost+1] = append(levels[cost+1], &y)
		}
		if has[0] {
			y := x
			y.cost = 0
			levels[cost] = append(levels[cost], &y)
		}
		return true
	}
	if !run(nil, 0, true) {
		return r
	}
	for cost := 0; cost <= opt.Bound; cost++ {
		for len(levels[cost]) > 0 {
			if !opt.Deadline.IsZero() && time.Now().After(opt.Deadline) || opt.MaxExecs > 0 && r.Executions >= opt.MaxExecs {
				r.Capped = true
				return r
			}
			l := levels[cost]
			x := l[len(l)-1]
			p, ok := x.next(opt.Shard, opt.NShards)
			if !ok {
				levels[cost] = l[:len(l)-1]
				continue
			}
			if !run(p, cost, false) {
				return r
			}
		}
		r.BoundDone = cost
	}
	return r
}
