package parallel

import (
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// Case is a program and the circumstances of its parallel run.
type Case struct {
	P    *prog.Prog
	N    int
	HTTP bool  `json:",omitempty"`
	Late []int `json:",omitempty"`
}

func genCase(t *rapid.T, p prog.Profile) Case {
	c := Case{P: prog.Gen(t, p), N: vf.Range(t, "procs", 2, 4), HTTP: vf.Pct(t, "http", 20)}
	for i := 0; i < c.N; i++ {
		late := 0
		if vf.Pct(t, "islate", 25) {
			late = vf.Range(t, "late", 1, 12)
		}
		c.Late = append(c.Late, late)
	}
	return c
}

func par(t *testing.T, id, sub, rule string, quick, thorough int, p prog.Profile, classify func(c Case, pr *prog.ParResult, exps []*prog.Expected) (bool, []string)) {
	vf.Run(t, vf.Prop[Case]{ID: id, Sub: sub, Rule: rule, Quick: quick, Thorough: thorough, CaseLimit: 60 * time.Second,
		Gen: func(t *rapid.T) Case { return genCase(t, p) },
		Check: func(c Case) vf.Outcome {
			pr, exps, err := prog.CheckParallel(c.P, prog.ParOptions{Procs: c.N, HTTP: c.HTTP, Late: c.Late}, prog.AllAspects)
			out := vf.Outcome{Err: err}
			if exps != nil {
				for _, e := range exps {
					if e.Known != "" {
						out.Known = e.Known
					}
				}
				out.NonTrivial, out.Classes = classify(c, pr, exps)
			}
			if c.HTTP {
				out.Classes = append(out.Classes, "http")
			}
			return out
		}})
}

func spread(pr *prog.ParResult) int {
	n := 0
	for _, r := range pr.Procs {
		if len(prog.Order(r.Trace)) > 0 {
			n++
		}
	}
	return n
}

// P01: every spec runs on exactly one process, with the outcome it has in a serial run.
func TestP01_share(t *testing.T) {
	p := prog.Profile{MaxTop: 8, MaxKids: 4, MaxDepth: 3, MaxSpecs: 16, Ordered: 25, CoF: 25, AllNodes: 35, Once: 20, Setup: 30, Report: 8, Suite: 10, Pending: 6, Focus: 2, Serial: 8, Flake: 8, MPR: 4, Bad: 15, Skips: 1, Panics: 1,
		Cleanup: 20, BadCleanup: 8, Narrate: 10, MaskIts: true, Sleep: 25, Flags: 10, ByProc: 20}
	par(t, "P01", "share", "specs ran on at least two processes", 6000, 200000, p, func(c Case, pr *prog.ParResult, exps []*prog.Expected) (bool, []string) {
		n := spread(pr)
		return n >= 2, []string{"on-" + string(rune('0'+n)) + "-processes"}
	})
}

// P02: suite-level nodes across processes.
func TestP02_suitenodes(t *testing.T) {
	p := prog.Profile{MaxTop: 4, MaxKids: 3, MaxDepth: 2, MaxSpecs: 6, Setup: 10, Suite: 80, Sync: 75, Pending: 8, Serial: 8, Bad: 35, Skips: 2, Panics: 1, BadReport: 10, Cleanup: 35, BadCleanup: 15, Narrate: 8, Sleep: 35, MaskIts: true, ByProc: 40, Flags: 10}
	par(t, "P02", "suitenodes", "a SynchronizedBeforeSuite or SynchronizedAfterSuite ran", 6000, 200000, p, func(c Case, pr *prog.ParResult, exps []*prog.Expected) (bool, []string) {
		cl := map[string]bool{}
		for _, e := range exps {
			for _, r := range e.Reports {
				if strings.HasPrefix(r.Type, "Synchronized") {
					cl[r.Type+"-"+r.State] = true
				}
			}
		}
		out := []string{}
		for k := range cl {
			out = append(out, k)
		}
		return len(cl) > 0, out
	})
}

// P02: suite-level nodes that run into their timeout, on one process or on all of them.
//
// Real time: a mismatch must repeat to count, so that a stall of the machine is not taken for a violation.
func TestP02_timeouts(t *testing.T) {
	p := prog.Profile{MaxTop: 3, MaxKids: 2, MaxDepth: 2, MaxSpecs: 4, Setup: 10, Suite: 90, Sync: 75, Pending: 8, Serial: 8, Bad: 15, Skips: 1, Panics: 1, Cleanup: 25, BadCleanup: 10, Narrate: 8, MaskIts: true, ByProc: 30}
	vf.Run(t, vf.Prop[Case]{ID: "P02", Sub: "timeouts", Rule: "a suite-level node timed out", Quick: 1500, Thorough: 40000, CaseLimit: 60 * time.Second,
		Gen: func(t *rapid.T) Case {
			c := genCase(t, p)
			for _, n := range c.P.Suite {
				switch n.Kind {
				case "BS", "AS", "SBS", "SAS":
				default:
					continue
				}
				if !vf.Pct(t, "times", 60) {
					continue
				}
				n.Dec.Ctx, n.Dec.NodeTimeoutMS, n.Dec.GraceMS = true, 60, 20000
				acts := &n.Acts
				if (n.Kind == "SBS" || n.Kind == "SAS") && vf.Pct(t, "second", 40) {
					acts = &n.Acts2
				}
				w := prog.Act{Op: "wait"}
				if vf.Pct(t, "someprocs", 40) {
					w.Procs = uint8(1 + vf.U(t, "procs", 1<<uint(c.N)-1))
				}
				k := vf.U(t, "before", len(*acts)+1)
				*acts = append((*acts)[:k:k], append([]prog.Act{w}, (*acts)[k:]...)...)
			}
			return c
		},
		Check: func(c Case) vf.Outcome {
			var out vf.Outcome
			for try := 0; try < 4; try++ {
				_, exps, err := prog.CheckParallel(c.P, prog.ParOptions{Procs: c.N, HTTP: c.HTTP, Late: c.Late}, prog.AllAspects)
				out = vf.Outcome{Err: err}
				for _, e := range exps {
					if e.Known != "" {
						out.Known = e.Known
					}
					for _, r := range e.Reports {
						if r.State == "timedout" {
							out.NonTrivial = true
							out.Classes = append(out.Classes, "in-"+r.Type)
						}
					}
				}
				if err == nil {
					break
				}
			}
			return out
		}})
}

// P03: Serial specs run alone.
func TestP03_serial(t *testing.T) {
	p := prog.Profile{MaxTop: 7, MaxKids: 3, MaxDepth: 3, MaxSpecs: 12, Ordered: 25, CoF: 25, AllNodes: 35, Setup: 25, Suite: 25, Pending: 6, Serial: 35, Flake: 5, Bad: 12, Skips: 1, Panics: 1, Cleanup: 15, BadCleanup: 8, Sleep: 40, MaskIts: true, ByProc: 20}
	par(t, "P03", "serial", "Serial specs ran and other processes ran specs", 6000, 200000, p, func(c Case, pr *prog.ParResult, exps []*prog.Expected) (bool, []string) {
		serial := 0
		for _, s := range c.P.Specs() {
			if s.Serial() && !s.Pending() {
				serial++
			}
		}
		others := 0
		for _, r := range pr.Procs[1:] {
			others += len(prog.Order(r.Trace))
		}
		return serial > 0 && others > 0, nil
	})
}

// P05: one process stops the others.
//
// The body of one spec (or of a suite-level node) ends the run, by AbortSuite or by failing under --fail-fast; the
// bodies of a few other specs wait until they are told to stop. Which of them have started by then is up to the
// schedule; whichever have must be told.
func TestP05_stop(t *testing.T) {
	p := prog.Profile{MaxTop: 8, MaxKids: 4, MaxDepth: 3, MaxSpecs: 14, Ordered: 20, CoF: 25, AllNodes: 35, Setup: 25, Report: 8, Suite: 20, Pending: 6, Serial: 8, Cleanup: 25, Sleep: 15, MaskIts: true}
	type StopCase struct {
		Case
		Stopper int
		Waiters []int
	}
	vf.Run(t, vf.Prop[StopCase]{ID: "P05", Sub: "stop", Rule: "specs on two processes ran, and a body was told to stop or a spec was skipped", Quick: 5000, Thorough: 150000, CaseLimit: 60 * time.Second,
		Gen: func(t *rapid.T) StopCase {
			c := StopCase{Case: genCase(t, p)}
			specs := c.P.Specs()
			its := []*prog.Spec{}
			for _, s := range specs {
				if !s.Pending() {
					its = append(its, s)
				}
			}
			if len(its) == 0 {
				return c
			}
			heedStops(t, c.P)
			stop := its[vf.U(t, "stopper", len(its))]
			c.Stopper = stop.It.ID
			op := vf.Pick(t, "how", "abort", "fail", "panic")
			if op != "abort" {
				c.P.Conf.FailFast = true
			}
			a := prog.Act{Op: op, Msg: "stop"}
			where := vf.U(t, "where", 3)
			if where == 2 { // in a cleanup of the spec
				a = prog.Act{Op: "cleanup", ID: 9000, Sub: []prog.Act{a}}
			}
			if where == 1 && stop.It.Dec.Flake == 0 { // after others have had the time to start
				stop.It.Acts = append([]prog.Act{{Op: "sleep", N: 8}}, stop.It.Acts...)
			}
			stop.It.Acts = append(stop.It.Acts, a)
			if !stop.Serial() { // waiting specs need someone to stop them
				for _, s := range its {
					if s != stop && !s.Serial() && s.Group() != stop.Group() && len(c.Waiters) < c.N-1 && vf.Pct(t, "waits", 30) {
						// never on a process that has the stopper behind it: the number of waiters is less than that of processes
						c.Waiters = append(c.Waiters, s.It.ID)
						s.It.Dec.Ctx = true
						s.It.Acts = append([]prog.Act{{Op: "wait"}}, s.It.Acts...)
					}
				}
			}
			return c
		},
		Check: func(c StopCase) vf.Outcome {
			if c.Stopper == 0 {
				return vf.Outcome{}
			}
			pr, err := prog.RunParallel(c.P, prog.ParOptions{Procs: c.N, HTTP: c.HTTP, Late: c.Late, Abort: true})
			if err == nil {
				err = pr.BuildErr
			}
			if err != nil {
				return vf.Outcome{Err: err}
			}
			return checkStop(c.P, c.N, c.Stopper, pr)
		}})
}

// P05: a suite-level node of one process stops the others.
//
// BeforeSuite, or what every process does in SynchronizedBeforeSuite, ends the run on one process, and every spec
// waits to be told so: none of them can end by itself.
func TestP05_suite(t *testing.T) {
	p := prog.Profile{MaxTop: 5, MaxKids: 3, MaxDepth: 2, MaxSpecs: 8, Ordered: 20, CoF: 25, AllNodes: 35, Setup: 25, Report: 8, Suite: 20, Pending: 6, Serial: 8, Cleanup: 25, Sleep: 15, MaskIts: true}
	type SuiteStop struct {
		Case
		Proc int
	}
	vf.Run(t, vf.Prop[SuiteStop]{ID: "P05", Sub: "suite", Rule: "specs of another process ran, and were told to stop", Quick: 2000, Thorough: 60000, CaseLimit: 60 * time.Second,
		Gen: func(t *rapid.T) SuiteStop {
			c := SuiteStop{Case: genCase(t, p)}
			c.Proc = vf.Range(t, "proc", 1, c.N)
			op := vf.Pick(t, "how", "abort", "fail", "panic")
			if op != "abort" {
				c.P.Conf.FailFast = true
			}
			acts := []prog.Act{{Op: op, Msg: "stop", Procs: 1 << uint(c.Proc-1)}}
			if vf.Pct(t, "cleanup", 25) { // it has something to clean up
				acts = append([]prog.Act{{Op: "cleanup", ID: 9000}}, acts...)
			}
			if vf.Pct(t, "later", 50) { // when others have had the time to start
				acts = append([]prog.Act{{Op: "sleep", N: 8, Procs: 1 << uint(c.Proc-1)}}, acts...)
			}
			kept := []*prog.Node{}
			for _, n := range c.P.Suite {
				if n.Kind != "BS" && n.Kind != "SBS" {
					kept = append(kept, n)
				}
			}
			n := &prog.Node{Kind: "BS", ID: 9001, Acts: acts}
			if vf.Pct(t, "sync", 50) {
				n = &prog.Node{Kind: "SBS", ID: 9001, Acts2: acts}
			}
			c.P.Suite = append(kept, n)
			heedStops(t, c.P)
			for _, s := range c.P.Specs() {
				if !s.Serial() && !s.Pending() {
					s.It.Acts = append([]prog.Act{{Op: "wait"}}, s.It.Acts...)
				}
			}
			return c
		},
		Check: func(c SuiteStop) vf.Outcome {
			pr, err := prog.RunParallel(c.P, prog.ParOptions{Procs: c.N, HTTP: c.HTTP, Late: c.Late, Abort: true})
			if err == nil {
				err = pr.BuildErr
			}
			if err != nil {
				return vf.Outcome{Err: err}
			}
			out := checkStop(c.P, c.N, 0, pr)
			if out.Err != nil {
				return out
			}
			out.NonTrivial, out.Classes = false, nil
			ran := false
			for i, r := range pr.Procs {
				mine := i+1 == c.Proc
				for _, s := range r.Reports {
					ran = ran || mine && s.LeafNodeType.Is(types.NodeTypesForSuiteLevelNodes) && s.State.Is(types.SpecStateFailureStates)
				}
				if mine && ran && r.Success {
					return vf.Fail("process %d stopped the run from a suite node and reports success", c.Proc)
				}
				for _, l := range r.Trace {
					if strings.HasPrefix(l, "It") && strings.Contains(l, "#") && mine && ran {
						return vf.Fail("process %d ran a spec although its suite node stopped the run: %s", c.Proc, l)
					}
					if strings.HasPrefix(l, "It") && strings.Contains(l, " told:") {
						out.NonTrivial = true
						if r.Success {
							return vf.Fail("process %d was told to stop and reports success", i+1)
						}
					}
				}
			}
			return out
		}})
}

// heedStops makes every body take a context, so that none is abandoned when the run is stopped: what it does is in
// the history no matter when the stop arrives.
func heedStops(t *rapid.T, p *prog.Prog) {
	linger := func(as []prog.Act) []prog.Act {
		if vf.Pct(t, "linger", 15) {
			return append([]prog.Act{{Op: "linger", N: 7}}, as...)
		}
		return as
	}
	p.Conf.GraceMS = 20000
	var acts func(as []prog.Act)
	acts = func(as []prog.Act) {
		for i := range as {
			if as[i].Op == "cleanup" {
				as[i].Msg = "ctx"
			}
			acts(as[i].Sub)
			if as[i].Op == "cleanup" {
				as[i].Sub = linger(as[i].Sub)
			}
		}
	}
	node := func(n *prog.Node) {
		if n.Kind != "C" && n.Kind != "RBE" && n.Kind != "RAE" && n.Kind != "RBS" && n.Kind != "RAS" {
			n.Dec.Ctx = true
		}
		acts(n.Acts)
		acts(n.Acts2)
		switch n.Kind { // what cleans up is left alone
		case "AE", "JAE", "AA", "AS", "SAS":
			n.Acts = linger(n.Acts)
			if n.Kind == "SAS" {
				n.Acts2 = linger(n.Acts2)
			}
		}
	}
	p.Walk(func(n *prog.Node, _ []*prog.Node) { node(n) })
	for _, n := range p.Suite {
		node(n)
	}
}

// P06: a process disappears in the middle of a body.
func TestP06_death(t *testing.T) {
	p := prog.Profile{MaxTop: 6, MaxKids: 3, MaxDepth: 2, MaxSpecs: 10, Ordered: 25, CoF: 25, AllNodes: 35, Setup: 25, Report: 6, Suite: 35, Sync: 60, Pending: 6, Serial: 8, Bad: 8, Skips: 1, Panics: 1, Cleanup: 15, Sleep: 15, MaskIts: true, ByProc: 20}
	type DeathCase struct {
		Case
		At string
	}
	vf.Run(t, vf.Prop[DeathCase]{ID: "P06", Sub: "death", Rule: "a process disappeared in the middle of a body", Quick: 5000, Thorough: 150000, CaseLimit: 60 * time.Second,
		Gen: func(t *rapid.T) DeathCase {
			c := DeathCase{Case: genCase(t, p)}
			die := prog.Act{Op: "die"}
			var at []*[]prog.Act
			var names []string
			add := func(name string, acts *[]prog.Act, n int) {
				for ; n > 0; n-- {
					at, names = append(at, acts), append(names, name)
				}
			}
			c.P.Walk(func(n *prog.Node, _ []*prog.Node) {
				if n.Kind == "It" && !n.Dec.Pending {
					add("It", &n.Acts, 1)
				}
			})
			nIts := len(at)/3 + 1
			c.P.Walk(func(n *prog.Node, _ []*prog.Node) {
				switch n.Kind {
				case "BA", "AA":
					add(n.Kind, &n.Acts, 1)
				}
			})
			for _, n := range c.P.Suite {
				if n.Kind != "RAS" { // where process 1 may also be: see below
					add(n.Kind, &n.Acts, nIts)
				}
				if n.Kind == "SBS" {
					add("SBSall", &n.Acts2, nIts)
				}
			}
			if len(at) == 0 {
				return c
			}
			i := vf.U(t, "at", len(at))
			c.At = names[i]
			switch c.At {
			case "RBS", "SBS":
				die.Procs = 1
			case "BS", "AS", "SBSall", "SAS":
				die.Procs = 1 << uint(vf.U(t, "victim", c.N))
			}
			k := vf.U(t, "before", len(*at[i])+1)
			*at[i] = append((*at[i])[:k:k], append([]prog.Act{die}, (*at[i])[k:]...)...)
			return c
		},
		Check: func(c DeathCase) vf.Outcome {
			if c.At == "" {
				return vf.Outcome{}
			}
			o := prog.ParOptions{Procs: c.N, HTTP: c.HTTP, Late: c.Late}
			pr, err := prog.RunParallel(c.P, o)
			if err == nil {
				err = pr.BuildErr
			}
			if err != nil {
				return vf.Outcome{Err: err}
			}
			out := checkDeath(c.P, o, pr)
			out.Classes = append(out.Classes, "at-"+c.At)
			return out
		}})
}
