//go:build go1.22

// Package verifcommon has what the harnesses share: bookkeeping of what was
// explored, reference implementations, and catalogues of small inputs.
package verifcommon

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Violation is one failing case
type Violation struct {
	Case    string   `json:"case"`
	Msg     string   `json:"msg"`
	Input   string   `json:"input,omitempty"`
	Choices []int    `json:"choices,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Key     string   `json:"key,omitempty"`
}

// Result of one harness process
type Result struct {
	Property    string            `json:"property"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Execs       int64             `json:"execs"`
	Capped      bool              `json:"capped"`
	CappedWhat  []string          `json:"capped_what,omitempty"`
	Samples     []string          `json:"samples"`
	Violations  []Violation       `json:"violations"`
	Groups      map[string]*Group `json:"groups"`
	Finished    bool              `json:"finished"`
	Current     string            `json:"current,omitempty"`
}

// Group counts one family of cases
type Group struct {
	Cases  int64            `json:"cases"`
	Execs  int64            `json:"execs"`
	States int64            `json:"states"`
	Steps  int64            `json:"steps"`
	Bound  string           `json:"bound,omitempty"`
	Done   map[string]int64 `json:"done,omitempty"`
	Seen   map[string]int64 `json:"outcomes,omitempty"`
}

// Ctx is the context of one harness process
type Ctx struct {
	Prop       string
	Tier       string
	Seed       uint64
	Shard      int
	NShards    int
	Deadline   time.Time
	Replay     *Violation
	Res        Result
	out        string
	idx        int64
	group      *Group
	gname      string
	cur        string
	curChoices []int
	input      func() string
	started    atomic.Int64
	Out        *os.File
	maxViol    int
	groupIdx   int
}

type stopCase struct{}

// NewCtx parses the command line
func NewCtx() *Ctx {
	c := &Ctx{maxViol: 3}
	seed := int64(1)
	budget := 30.0
	replay := ""
	flag.StringVar(&c.Prop, "prop", "", "property")
	flag.StringVar(&c.Tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.IntVar(&c.Shard, "shard", 0, "shard")
	flag.IntVar(&c.NShards, "nshards", 1, "number of shards")
	flag.Float64Var(&budget, "budget", 30, "seconds")
	flag.StringVar(&c.out, "out", "", "result file")
	flag.StringVar(&replay, "replay", "", "replay file")
	flag.Parse()
	c.Seed = uint64(seed)
	c.Deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	c.Res.Property = c.Prop
	c.Res.Groups = map[string]*Group{}
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.Replay = &v
		c.Shard, c.NShards = 0, 1
	}
	// the code under test prints a lot
	c.Out = os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	go c.watch()
	return c
}

// Thorough tells if this is the thorough tier
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

const hangQuick, hangThorough = 100, 300

// watch ends the process if a single case makes no progress for minutes
func (c *Ctx) watch() {
	hangSeconds := int64(c.Pick(hangQuick, hangThorough))
	for {
		time.Sleep(2 * time.Second)
		t := c.started.Load()
		if t != 0 && time.Now().Unix()-t > hangSeconds {
			c.Res.Violations = append(c.Res.Violations, Violation{Case: c.cur, Msg: fmt.Sprintf("no result after %d s (cases take milliseconds): the code does not terminate", hangSeconds), Input: c.curInput()})
			c.write(false)
			os.Exit(3)
		}
	}
}

func (c *Ctx) curInput() string {
	if c.input == nil {
		return ""
	}
	return c.input()
}

// Alive resets the hang watchdog
func (c *Ctx) Alive() { c.started.Store(time.Now().Unix()) }

// TimeUp tells if the budget is used up; cases that are left out then are reported
func (c *Ctx) TimeUp() bool {
	return time.Now().After(c.Deadline)
}

// Group starts a family of cases
func (c *Ctx) Group(name string) {
	c.gname = name
	c.group = c.Res.Groups[name]
	if c.group == nil {
		c.group = &Group{Seen: map[string]int64{}, Done: map[string]int64{}}
		c.Res.Groups[name] = c.group
	}
}

// GroupName is the name of the current family
func (c *Ctx) GroupName() string { return c.gname }

// Cur is the current group
func (c *Ctx) Cur() *Group { return c.group }

// Input sets the description of the input of the current case
func (c *Ctx) Input(f func() string) { c.input = f }

// Bound notes the bound of the current family
func (c *Ctx) Bound(format string, a ...any) { c.group.Bound = fmt.Sprintf(format, a...) }

// Seen counts an observed outcome
func (c *Ctx) Seen(o string) {
	if len(c.group.Seen) < 40 || c.group.Seen[o] > 0 {
		c.group.Seen[o]++
	}
}

// Case runs one case if it belongs to this process
func (c *Ctx) Case(name string, f func()) {
	c.run(name, f, false)
}

// CaseAll runs one case in every process (the case shards its own work)
func (c *Ctx) CaseAll(name string, f func()) {
	c.run(name, f, true)
}

func (c *Ctx) run(name string, f func(), all bool) {
	full := c.gname + "/" + name
	if c.Replay != nil {
		if c.Replay.Case != full {
			return
		}
	} else {
		if !all {
			c.idx++
			if int(c.idx%int64(c.NShards)) != c.Shard {
				return
			}
		}
		if c.TimeUp() {
			if !c.Res.Capped {
				c.Res.CappedWhat = append(c.Res.CappedWhat, "cases from "+full)
			}
			c.Res.Capped = true
			return
		}
		if len(c.Res.Violations) >= c.maxViol {
			return
		}
	}
	c.cur = full
	c.input = nil
	c.Alive()
	defer func() {
		c.started.Store(0)
		if p := recover(); p != nil {
			if _, ok := p.(stopCase); ok {
				return
			}
			c.add(Violation{Case: full, Msg: fmt.Sprintf("panic: %v", p), Input: c.curInput(), Trace: trim(string(debug.Stack()))})
		}
	}()
	c.group.Cases++
	f()
}

func trim(st string) []string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "featselect") || strings.Contains(l, "goselect/cmd") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 20 {
			break
		}
	}
	return out
}

func (c *Ctx) add(v Violation) {
	for _, o := range c.Res.Violations {
		if o.Case == v.Case && o.Msg == v.Msg {
			return
		}
	}
	c.Res.Violations = append(c.Res.Violations, v)
}

// Add records a violation without ending the case
func (c *Ctx) Add(v Violation) {
	if v.Case == "" {
		v.Case = c.cur
	}
	c.add(v)
}

// Fail records a violation and ends the case
func (c *Ctx) Fail(format string, a ...any) {
	c.add(Violation{Case: c.cur, Msg: fmt.Sprintf(format, a...), Input: c.curInput()})
	panic(stopCase{})
}

// Check fails the case unless ok
func (c *Ctx) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Fail(format, a...)
	}
}

// State counts distinct states (inputs, or states of the explored system)
func (c *Ctx) State(n int) {
	c.Res.States += int64(n)
	c.group.States += int64(n)
}

// Step counts transitions (operations performed on the code under test)
func (c *Ctx) Step(n int) {
	c.Res.Transitions += int64(n)
	c.group.Steps += int64(n)
}

// Exec counts executions of the code under test
func (c *Ctx) Exec(n int) {
	c.Res.Execs += int64(n)
	c.group.Execs += int64(n)
}

// Sample keeps some cases for the evidence
func (c *Ctx) Sample(format string, a ...any) {
	if len(c.Res.Samples) < 6 {
		c.Res.Samples = append(c.Res.Samples, c.cur+": "+fmt.Sprintf(format, a...))
	}
}

// Capped notes that something was not explored completely
func (c *Ctx) Capped(what string) {
	c.Res.Capped = true
	if len(c.Res.CappedWhat) < 20 {
		c.Res.CappedWhat = append(c.Res.CappedWhat, what)
	}
}

// CurName is the name of the running case
func (c *Ctx) CurName() string { return c.cur }

func (c *Ctx) write(fin bool) {
	c.Res.Finished = fin
	c.Res.Current = c.cur
	b, err := json.MarshalIndent(&c.Res, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(2)
	}
	if c.out == "" {
		fmt.Fprintln(c.Out, string(b))
		return
	}
	if err := os.WriteFile(c.out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(2)
	}
}

// Finish writes the result
func (c *Ctx) Finish() {
	c.write(true)
	if len(c.Res.Violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// InputText describes the current input
func (c *Ctx) InputText() string { return c.curInput() }

// SetChoices notes the choices of the execution that is about to run
func (c *Ctx) SetChoices(p []int) { c.curChoices = p }

// Mine tells if the next case belongs to this process
func (c *Ctx) Mine() bool {
	if c.Replay != nil {
		return true
	}
	return int((c.idx+1)%int64(c.NShards)) == c.Shard && !c.TimeUp()
}

// Skip passes over a case of another process
func (c *Ctx) Skip() {
	c.idx++
	if c.TimeUp() && int(c.idx%int64(c.NShards)) == c.Shard {
		c.run("", func() {}, true)
	}
}

var captureFile *os.File

// Capture collects what is written to the standard output until the function it
// returns is called
func Capture() func() string {
	if captureFile == nil {
		f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "stdout")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		captureFile = f
	}
	captureFile.Truncate(0)
	captureFile.Seek(0, 0)
	old := os.Stdout
	os.Stdout = captureFile
	return func() string {
		os.Stdout = old
		captureFile.Seek(0, 0)
		b, _ := io.ReadAll(captureFile)
		return string(b)
	}
}
