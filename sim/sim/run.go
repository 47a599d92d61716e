//go:build go1.25

package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"testing/synctest"
	"time"
)

// Op is one step of a run. Everything random inside it comes from R, so a step
// means the same thing whatever was removed around it.
type Op struct {
	K string `json:"k"`
	R uint64 `json:"r"`
	N int    `json:"n,omitempty"`
}

// Case is a complete, replayable run.
type Case struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	Ops      []Op     `json:"ops"`
	Rule     string   `json:"rule,omitempty"`
	Detail   string   `json:"detail,omitempty"`
	Trace    []string `json:"trace,omitempty"`
}

// Result is what one run reports.
type Result struct {
	Status string         `json:"status"` // ok, violation, other, broken
	Prop   string         `json:"property,omitempty"`
	Rule   string         `json:"rule,omitempty"`
	Detail string         `json:"detail,omitempty"`
	Step   int            `json:"step"`
	Seed   uint64         `json:"seed"`
	Scen   string         `json:"scenario"`
	SimSec float64        `json:"sim_s"`
	Picks  uint64         `json:"picks"`
	Choice uint64         `json:"choices"`
	Sched  string         `json:"sched"`
	Log    string         `json:"log"`
	Counts map[string]int `json:"counts"`
	States []string       `json:"states,omitempty"`
	Checks map[string]int `json:"checks"`
	Trace  []string       `json:"trace,omitempty"`
	Ops    []Op           `json:"ops,omitempty"`
}

// Scenario describes how runs of one kind are made.
type Scenario struct {
	Name  string
	Gen   func(r *Rng) []Op                        // the steps
	Cfg   func(r *Rng, p *Params)                  // the deployment
	Props []string                                 // which properties it can decide
	Setup func(run *Run)                           // after boot
	Ops   map[string]func(run *Run, r *Rng, n int) // extra steps
	End   func(run *Run)                           // last checks
	After func(run *Run)                           // after each step
	Bare  bool                                     // no clusters are booted by the framework
}

var Scenarios = map[string]*Scenario{}

func register(s *Scenario) { Scenarios[s.Name] = s }

// Run is one run in progress.
type Run struct {
	W         *World
	C         *Case
	Sc        *Scenario
	R         *Rng
	Step      int
	Checks    map[string]int
	states    map[string]bool
	seenEv    int
	KeepTrace bool
	X         map[string]any
	other     *[3]string // first violation of a property not under check
	others    int
	over      bool
}

func (r *Run) finish(status, prop, rule, detail string) {
	if r.over { // somebody else has the last word
		select {}
	}
	r.over = true
	w := r.W
	res := Result{Status: status, Prop: prop, Rule: rule, Detail: detail, Step: r.Step, Seed: r.C.Seed, Scen: r.C.Scenario, Checks: r.Checks}
	if w != nil {
		res.Counts = w.Counts
		res.SimSec = w.Now().Seconds()
		w.Counts["rpc"] += w.RPCs
		w.Counts["p2p"] += w.P2PMsgs
		res.Log = fmt.Sprintf("%016x", w.hash)
		if r.KeepTrace {
			res.Trace = w.Trace
		}
	}
	if w != nil {
		w.Counts["lock-yields"] += int(runtime.SimYields())
	}
	var h uint64
	res.Picks, res.Choice, h = runtime.SimStats()
	res.Sched = fmt.Sprintf("%016x", h)
	for s := range r.states {
		res.States = append(res.States, s)
	}
	sort.Strings(res.States)
	b, _ := json.Marshal(res)
	os.Stdout.Write(append(b, '\n'))
	os.Exit(0)
}

// Fail ends the run: a rule does not hold. props lists the properties the rule
// decides; the run reports the one under check.
func (r *Run) Fail(props, rule, f string, a ...any) {
	d := unpoint(fmt.Sprintf(f, a...))
	r.W.tracef("VIOLATION %s [%s] %s", props, rule, d)
	if props == "*" {
		r.finish("violation", r.C.Prop, rule, d)
	}
	for _, p := range strings.Split(props, ",") {
		if p == r.C.Prop || r.C.Prop == "" {
			r.finish("violation", p, rule, d)
		}
	}
	// not a rule of the property under check: note it and go on
	if r.other == nil {
		r.other = &[3]string{props, rule, d}
	}
	if r.others++; r.others > 30 {
		r.giveUp()
	}
}

// giveUp ends a run that another property's violation has spoilt.
func (r *Run) giveUp() { r.finish("other", r.other[0], r.other[1], r.other[2]) }

// Want reports whether a rule that decides these properties is under check.
func (r *Run) Want(props string) bool {
	if r.C.Prop == "" {
		return true
	}
	for _, p := range strings.Split(props, ",") {
		if p == r.C.Prop {
			return true
		}
	}
	return false
}

// Did counts an evaluation of a rule.
func (r *Run) Did(rule string) { r.Checks[rule]++ }

// State records a fingerprint of where the run has been.
func (r *Run) State(s string) { r.states[s] = true }

func (r *Run) Log(f string, a ...any) { r.W.tracef(f, a...) }

// Bare reports whether the scenario boots its own nodes.
func (r *Run) Bare() bool { return r.Sc.Bare }

// UpClusters lists the clusters that are fully up.
func (r *Run) UpClusters() (cs []*Cluster) {
	for _, c := range r.W.Clusters {
		if c.Up() {
			cs = append(cs, c)
		}
	}
	return
}

func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

// RunCase executes a case inside the bubble. It does not return.
func RunCase(c *Case, verbose, keep bool) {
	if d, err := time.ParseDuration(os.Getenv("SIM_DUMP")); err == nil && verbose { // what everybody waits for at that time
		time.AfterFunc(d, func() {
			b := make([]byte, 1<<22)
			os.Stderr.Write(b[:runtime.Stack(b, true)])
		})
	}
	sc := Scenarios[c.Scenario]
	if sc == nil {
		fmt.Fprintf(os.Stderr, "no scenario %q\n", c.Scenario)
		os.Exit(3)
	}
	run := &Run{C: c, Sc: sc, Checks: map[string]int{}, states: map[string]bool{}, X: map[string]any{}, KeepTrace: keep}
	p := DefaultParams()
	sc.Cfg(NewRng(Mix(c.Seed, 1)), &p)
	w := NewWorld(p, c.Seed, verbose, keep)
	run.W, w.Run = w, run
	run.R = NewRng(Mix(c.Seed, 2))
	if !sc.Bare {
		for _, cl := range w.Clusters {
			if err := cl.Boot(); err != nil {
				run.finish("broken", "", "boot", err.Error())
			}
		}
		w.Settle(time.Minute)
	}
	if sc.Setup != nil {
		sc.Setup(run)
	}
	for i, op := range c.Ops {
		run.Step = i
		run.exec(op)
	}
	run.Step = len(c.Ops)
	runtime.SimSched(Mix(c.Seed, 4242), 64)
	runtime.SimSetYield(2)
	if sc.End != nil {
		sc.End(run)
	}
	if run.other != nil {
		run.giveUp()
	}
	run.finish("ok", "", "", "")
}

func (run *Run) exec(op Op) {
	w := run.W
	r := NewRng(op.R)
	w.Net.r = NewRng(Mix(op.R, 5))
	runtime.SimSched(Mix(op.R, 6), []uint32{0, 16, 64, 160}[r.N(4)])
	runtime.SimSetYield([]uint32{0, 0, 3, 20}[r.N(4)])
	f := run.Sc.Ops[op.K]
	if f == nil {
		f = commonOps[op.K]
	}
	if f == nil {
		fmt.Fprintf(os.Stderr, "no such step %q\n", op.K)
		os.Exit(3)
	}
	w.tracef("-- step %d: %s", run.Step, op.K)
	w.count("op-" + op.K)
	f(run, r, op.N)
	runtime.SimSetYield(0)
	synctest.Wait()
	run.events()
	run.heads()
	if f := run.Sc.After; f != nil {
		f(run)
	}
}

// events judges what nodes did to themselves.
func (run *Run) events() {
	w := run.W
	for ; run.seenEv < len(w.Events); run.seenEv++ {
		e := w.Events[run.seenEv]
		w.count("node-" + e.Kind)
		if e.Fault || w.Tolerate {
			continue
		}
		run.Fail("*", "node-"+e.Kind, "%s: %s: %s [%s]", e.Node, e.Kind, e.What, firstFrames(e.Stack, 6))
	}
}

func firstFrames(s string, n int) string {
	var out []string
	for _, l := range strings.Split(s, " | ") {
		if strings.Contains(l, "/repo/") && strings.Contains(l, ".go:") {
			l = strings.TrimPrefix(l, "/repo/")
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) >= n {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Gen makes the case of a seed.
func Gen(prop, scen string, seed uint64) *Case {
	sc := Scenarios[scen]
	if sc == nil {
		fmt.Fprintf(os.Stderr, "no scenario %q\n", scen)
		os.Exit(3)
	}
	return &Case{Prop: prop, Scenario: scen, Seed: seed, Ops: sc.Gen(NewRng(Mix(seed, 3)))}
}

// weighted makes n steps from a table of weights, varied per run (swarm).
func weighted(r *Rng, n int, table map[string]int) (ops []Op) {
	var ks []string
	for k := range table {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	tot := 0
	wt := map[string]int{}
	for _, k := range ks {
		x := table[k] * 4
		switch r.N(4) { // every run leans another way
		case 0:
			x /= 4
		case 1:
			x *= 3
		}
		wt[k] = x
		tot += x
	}
	for len(ops) < n {
		x := r.N(tot)
		for _, k := range ks {
			if x -= wt[k]; x < 0 {
				ops = append(ops, Op{K: k, R: r.U64() >> 16})
				break
			}
		}
	}
	return
}
