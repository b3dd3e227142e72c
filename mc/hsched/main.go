//go:build go1.22

// Harnesses that run the (instrumented) code under the controlled scheduler
package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
)

var props = map[string]func(*vc.Ctx){}

func main() {
	c := vc.NewCtx()
	f := props[c.Prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", c.Prop)
		os.Exit(2)
	}
	f(c)
	c.Finish()
}

// policies of the scheduler that are used as starting points
var policyNames = []string{"fifo", "newest", "lowest", "highest", "roundrobin"}

// one runs a single execution (no deviations) and checks it
func one(c *vc.Ctx, cfg vs.Config, mk vs.Scenario) {
	prefix := []int(nil)
	if c.Replay != nil {
		prefix = c.Replay.Choices
	}
	body, check := mk()
	e := vs.Run(cfg, prefix, body)
	c.Exec(1)
	c.Step(e.Steps)
	c.State(len(e.Hashes))
	if msg := check(e); msg != "" {
		c.Add(vc.Violation{Msg: msg, Input: c.InputText(), Choices: prefix, Trace: traceOf(cfg, prefix, mk)})
	}
}

func traceOf(cfg vs.Config, prefix []int, mk vs.Scenario) []string {
	cfg.Trace = true
	body, _ := mk()
	e := vs.Run(cfg, prefix, body)
	t := e.Trace
	if len(t) > 400 {
		t = append(append(append([]string{}, t[:150]...), fmt.Sprintf("... %d more ...", len(t)-400)), t[len(t)-250:]...)
	}
	return t
}

// explore runs all executions with up to bound deviations; the processes share them
func explore(c *vc.Ctx, name string, input func() string, cfg vs.Config, bound int, seconds float64, mk vs.Scenario) {
	c.CaseAll(name, func() {
		cfg.SchedPoints = true
		c.Input(input)
		if c.Replay != nil {
			one(c, cfg, mk)
			return
		}
		dl := c.Deadline
		if d := time.Now().Add(time.Duration(seconds * float64(time.Second))); d.Before(dl) {
			dl = d
		}
		r := vs.Explore(vs.Options{Cfg: cfg, Bound: bound, Shard: c.Shard, NShards: c.NShards, Deadline: dl,
			Begin: func(p []int) { c.Alive(); c.SetChoices(p) }}, mk)
		c.SetChoices(nil)
		c.Exec(r.Executions)
		c.Step(r.Steps)
		c.State(len(r.States))
		g := c.Cur()
		for k, n := range r.ByCost {
			g.Done[fmt.Sprintf("executions with %d deviations", k)] += int64(n)
		}
		if r.BoundDone < bound && r.Violation == "" {
			g.Done[fmt.Sprintf("shards of scenarios capped within %d deviations", r.BoundDone+1)]++
			c.Capped(fmt.Sprintf("%s: complete up to %d deviations, %d partly", c.CurName(), r.BoundDone, r.BoundDone+1))
		} else {
			g.Done[fmt.Sprintf("shards of scenarios complete up to %d deviations", r.BoundDone)]++
		}
		if r.Diverged > 0 {
			g.Done["executions that could not be replayed"] += int64(r.Diverged)
			c.Capped(fmt.Sprintf("%s: %d executions took another course than the one they were meant to repeat", c.CurName(), r.Diverged))
		}
		if r.Violation != "" {
			c.Add(vc.Violation{Msg: r.Violation, Input: c.InputText(), Choices: r.Choices, Trace: traceOf(cfg, r.Choices, mk)})
		} else if c.Shard == 0 {
			c.Sample("%d executions, longest %d steps and %d choice points, %d goroutines; input %s", r.Executions, r.MaxSteps, r.MaxChoices, r.Final.NumG, c.InputText())
		}
	})
}

// finished checks that an execution ended as it should
func finished(e *vs.Exec) string {
	switch e.Outcome {
	case "ok":
	case "deadlock":
		return "deadlock: " + e.Detail
	case "horizon":
		return "no end in sight: " + e.Detail
	default:
		return e.Outcome + ": " + e.Detail + " " + strings.Join(e.Panics, "; ")
	}
	if len(e.Panics) > 0 {
		return "panic in a goroutine: " + strings.Join(e.Panics, "; ")
	}
	return ""
}

func noLeak(e *vs.Exec) string {
	if len(e.Leaked) > 0 {
		return fmt.Sprintf("%d goroutines are left behind: %s", len(e.Leaked), strings.Join(e.Leaked, ", "))
	}
	return ""
}
