package engine

import (
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

var (
	traceOnly = prog.Aspect{Trace: true}
	traceFail = prog.Aspect{Trace: true, Fail: true}
)

func count(s stats, f func(n *prog.Node) bool) int {
	c := 0
	s.p.Walk(func(n *prog.Node, _ []*prog.Node) {
		if f(n) {
			c++
		}
	})
	return c
}

// ran lists the specs that were attempted.
func states(s stats) map[string]int {
	m := map[string]int{}
	for _, r := range s.exp.Reports {
		if r.Type == "It" {
			m[r.State]++
		}
	}
	return m
}

func failing(s stats) int {
	st := states(s)
	return st["failed"] + st["panicked"] + st["aborted"] + st["timedout"] + st["interrupted"]
}

// E01: setup, subject and teardown bodies run in the documented order.
func TestE01_nesting(t *testing.T) {
	p := prog.Profile{MaxTop: 4, MaxKids: 4, MaxDepth: 4, MaxSpecs: 7, Setup: 50, Crowd: 6, Bad: 15, Skips: 1, Panics: 1, Cleanup: 15, EmptyText: true}
	serial(t, "E01", "nesting", "a spec with setup nodes of at least three kinds at two or more nesting levels", 60000, 2000000, p, traceFail, func(s stats) (bool, []string) {
		best := 0
		for _, sp := range s.specs {
			kinds, levels := map[string]bool{}, 0
			for _, ns := range sp.Level {
				if len(ns) > 0 {
					levels++
				}
				for _, n := range ns {
					kinds[n.Kind] = true
				}
			}
			if levels >= 2 && len(kinds) > best {
				best = len(kinds)
			}
		}
		cl := []string{}
		if failing(s) > 0 {
			cl = append(cl, "with-failures")
		}
		return best >= 3, cl
	})
}

// E02: Ordered containers.
func ordered(s stats) (bool, []string) {
	multi := false
	cl := []string{}
	seen := map[string]bool{}
	groups := map[int]int{}
	for _, sp := range s.specs {
		if sp.OrderedAt() >= 0 {
			groups[sp.Group()]++
		}
		for lv, ns := range sp.Level {
			for _, n := range ns {
				if sp.OrderedAt() >= 0 {
					if n.Kind == "BA" || n.Kind == "AA" {
						multi = true
						seen["all-nodes"] = true
					}
					if n.Dec.Once {
						multi = true
						seen["once-nodes"] = true
					}
				}
				_ = lv
			}
		}
	}
	big := false
	for _, c := range groups {
		big = big || c > 1
	}
	if failing(s) > 0 {
		seen["failing"] = true
	}
	if states(s)["skipped"] > 0 {
		seen["skipping"] = true
	}
	if count(s, func(n *prog.Node) bool { return n.Dec.CoF }) > 0 {
		seen["continue-on-failure"] = true
	}
	for k := range seen {
		cl = append(cl, k)
	}
	return multi && big, cl
}

func TestE02_ordered(t *testing.T) {
	p := prog.Profile{MaxTop: 3, MaxKids: 4, MaxDepth: 3, MaxSpecs: 9, Ordered: 65, CoF: 30, AllNodes: 45, Once: 35, Setup: 35, Report: 5, Pending: 4, Bad: 14, Skips: 2, Panics: 1, Cleanup: 20, BadCleanup: 6, FailFast: 5, Masks: true}
	serial(t, "E02", "ordered", "an Ordered container with several specs and run-once setup", 50000, 1500000, p, traceFail, ordered)
}

func TestE02_flaky(t *testing.T) {
	p := prog.Profile{MaxTop: 2, MaxKids: 4, MaxDepth: 3, MaxSpecs: 6, Ordered: 80, CoF: 25, AllNodes: 50, Once: 30, Setup: 35, Flake: 35, MPR: 15, ConfFlake: 20, ConfMPR: 10, Bad: 22, Skips: 1, Panics: 1, Cleanup: 25, BadCleanup: 6, Masks: true}
	serial(t, "E02", "flaky", "an Ordered container with several specs and run-once setup", 25000, 700000, p, prog.Aspect{Trace: true, Fail: true, Retry: true}, ordered)
}

// E03: outcomes, failures, verdict.
func TestE03_outcome(t *testing.T) {
	p := prog.Profile{MaxTop: 4, MaxKids: 4, MaxDepth: 3, MaxSpecs: 8, Ordered: 15, CoF: 25, AllNodes: 20, Setup: 40, Report: 12, Suite: 15, Focus: 4, Pending: 10, Bad: 35, Skips: 2, Aborts: 1, Panics: 2, BadReport: 20,
		Cleanup: 20, BadCleanup: 30, Flags: 30, Flake: 5, Masks: true, Narrate: 5}
	serial(t, "E03", "outcome", "a suite in which something fails, is skipped or is pending", 60000, 2000000, p, prog.Aspect{Trace: true, Fail: true, Success: true, Retry: true}, func(s stats) (bool, []string) {
		cl := []string{}
		for k := range states(s) {
			cl = append(cl, "spec-"+k)
		}
		for _, r := range s.exp.Reports {
			if len(r.Extra) > 0 {
				cl = append(cl, "additional-failures")
				break
			}
		}
		if !s.exp.Success {
			cl = append(cl, "suite-fails")
		}
		st := states(s)
		return failing(s)+st["skipped"]+st["pending"] > 0, cl
	})
}

// E04: retries and repetitions.
func TestE04_retry(t *testing.T) {
	p := prog.Profile{MaxTop: 4, MaxKids: 3, MaxDepth: 3, MaxSpecs: 6, Ordered: 15, CoF: 20, AllNodes: 30, Once: 20, Setup: 35, Suite: 8, Flake: 40, MPR: 25, ConfFlake: 25, ConfMPR: 15, Bad: 40, Skips: 1, Aborts: 1, Panics: 1,
		Cleanup: 25, BadCleanup: 15, Masks: true, Narrate: 15}
	serial(t, "E04", "retry", "a spec that was attempted more than once", 60000, 2000000, p, prog.AllAspects, func(s stats) (bool, []string) {
		most := 0
		cl := []string{}
		flaked, gaveUp := false, false
		for _, r := range s.exp.Reports {
			if r.Attempts > most {
				most = r.Attempts
			}
			if r.Attempts > 1 && r.State == "passed" && len(r.Extra) > 0 {
				flaked = true
			}
			if r.Attempts > 1 && isFail(r.State) {
				gaveUp = true
			}
		}
		if flaked {
			cl = append(cl, "failed-then-passed")
		}
		if gaveUp {
			cl = append(cl, "failed-after-several-attempts")
		}
		return most > 1, cl
	})
}

func isFail(st string) bool {
	return st == "failed" || st == "panicked" || st == "aborted" || st == "timedout" || st == "interrupted"
}

// E05: DeferCleanup.
func TestE05_cleanup(t *testing.T) {
	p := prog.Profile{MaxTop: 4, MaxKids: 4, MaxDepth: 3, MaxSpecs: 7, Ordered: 30, CoF: 25, AllNodes: 35, Once: 25, Setup: 45, Suite: 25, Flake: 8, MPR: 4, Bad: 18, Skips: 2, Aborts: 1, Panics: 1, Cleanup: 60, BadCleanup: 18, Masks: true}
	serial(t, "E05", "cleanup", "at least three cleanup callbacks ran", 60000, 2000000, p, prog.Aspect{Trace: true, Fail: true, Success: true}, func(s stats) (bool, []string) {
		n := 0
		for _, l := range s.exp.Trace {
			if len(l) > 1 && l[0] == 'X' {
				n++
			}
		}
		cl := []string{}
		if n >= 10 {
			cl = append(cl, "ten-or-more")
		}
		if failing(s) > 0 {
			cl = append(cl, "with-failures")
		}
		return n >= 3, cl
	})
}

// E06: fail-fast and abort.
func TestE06_stop(t *testing.T) {
	p := prog.Profile{MaxTop: 5, MaxKids: 4, MaxDepth: 3, MaxSpecs: 10, Ordered: 25, CoF: 35, AllNodes: 35, Once: 15, Setup: 30, Report: 10, Suite: 25, Pending: 5, Flake: 8, FailFast: 60, Bad: 16, Skips: 1, Aborts: 3, Panics: 1,
		BadReport: 6, Cleanup: 20, BadCleanup: 10, Masks: true}
	serial(t, "E06", "stop", "the run was stopped early, with specs left to skip", 60000, 2000000, p, prog.Aspect{Trace: true, Fail: true, Success: true}, func(s stats) (bool, []string) {
		stopped, after := false, 0
		cl := []string{}
		for _, r := range s.exp.Reports {
			if r.Type == "It" && stopped && r.State == "skipped" {
				after++
			}
			if (s.p.Conf.FailFast && isFail(r.State)) || r.State == "aborted" {
				stopped = true
			}
			if r.State == "aborted" {
				cl = append(cl, "aborted")
			}
		}
		if s.p.Conf.FailFast {
			cl = append(cl, "fail-fast")
		}
		return stopped && after > 0, cl
	})
}

// E07: suite-level setup.
func TestE07_suitenodes(t *testing.T) {
	p := prog.Profile{MaxTop: 3, MaxKids: 3, MaxDepth: 2, MaxSpecs: 4, Setup: 15, Suite: 75, Focus: 3, Pending: 20, FailFast: 10, DryRun: 8, Bad: 35, Skips: 2, Aborts: 1, Panics: 1, BadReport: 15, Cleanup: 35, BadCleanup: 15, Flags: 15, Masks: true, Narrate: 8}
	serial(t, "E07", "suitenodes", "the suite has suite-level setup or teardown", 60000, 2000000, p, prog.AllAspects, func(s stats) (bool, []string) {
		cl := []string{}
		n := 0
		for _, r := range s.exp.Reports {
			if r.Type != "It" && r.State != "" {
				n++
				cl = append(cl, r.Type+"-"+r.State)
			}
		}
		return n > 0, cl
	})
}

// E08: reporting nodes.
func TestE08_reportnodes(t *testing.T) {
	p := prog.Profile{MaxTop: 4, MaxKids: 4, MaxDepth: 3, MaxSpecs: 7, Ordered: 8, AllNodes: 30, Setup: 25, Report: 65, Suite: 40, Focus: 5, Pending: 10, Flake: 6, FailFast: 10, DryRun: 8, Bad: 22, Skips: 2, Aborts: 1, Panics: 1, BadReport: 12,
		Cleanup: 10, BadCleanup: 10, Masks: true, Narrate: 8}
	serial(t, "E08", "reportnodes", "at least two reporting nodes ran and a spec did not pass", 60000, 2000000, p, prog.AllAspects, func(s stats) (bool, []string) {
		n := 0
		for _, l := range s.exp.Trace {
			if len(l) > 3 && (l[:3] == "RBE" || l[:3] == "RAE" || l[:3] == "RBS" || l[:3] == "RAS") {
				n++
			}
		}
		st := states(s)
		cl := []string{}
		for k := range st {
			cl = append(cl, "spec-"+k)
		}
		return n >= 2 && len(st) > 1, cl
	})
}

// E12: what a spec said ends up in its report.
func TestE12_narrative(t *testing.T) {
	p := prog.Profile{MaxTop: 3, MaxKids: 3, MaxDepth: 3, MaxSpecs: 5, Ordered: 20, CoF: 25, AllNodes: 30, Once: 20, Setup: 35, Report: 15, Suite: 20, Flake: 12, MPR: 6, Bad: 18, Skips: 1, Aborts: 1, Panics: 1, BadReport: 6,
		Cleanup: 20, BadCleanup: 10, Narrate: 50, Masks: true}
	serial(t, "E12", "narrative", "at least five things were written, attached or announced with By", 50000, 1500000, p, prog.AllAspects, func(s stats) (bool, []string) {
		n := 0
		for _, r := range s.exp.Reports {
			n += len(r.Entries)
			for _, e := range r.Events {
				if len(e) > 2 && e[:2] == "By" {
					n++
				}
			}
			if r.GW != "" {
				n++
			}
			if r.StdOut != "" {
				n++
			}
		}
		return n >= 5, nil
	})
}

// E11: interrupts.
func TestE11_interrupt(t *testing.T) {
	p := prog.Profile{MaxTop: 4, MaxKids: 4, MaxDepth: 3, MaxSpecs: 7, Ordered: 25, CoF: 25, AllNodes: 35, Once: 25, Setup: 35, Report: 20, Suite: 30,
		Flake: 5, MPR: 3, Bad: 8, Skips: 1, Aborts: 1, Panics: 1, BadReport: 3, Cleanup: 30, BadCleanup: 12, Narrate: 5, Masks: true, Ints: 100}
	serial(t, "E11", "interrupt", "an interrupt arrived while a body was running", 50000, 1500000, p, prog.AllAspects, func(s stats) (bool, []string) {
		n := 0
		cl := []string{}
		for _, r := range s.exp.Reports {
			if r.State == "interrupted" {
				n++
				cl = append(cl, "in-"+r.Type)
			}
		}
		for _, x := range s.exp.Special {
			if x == "Interrupted by User" {
				n++
			}
		}
		return n > 0, cl
	})
}

// E10: timeouts (real time: a mismatch must repeat to count, so that a stall of the machine is not taken for a violation).
func TestE10_timeout(t *testing.T) {
	timed(t, "E10", "timeout", "a body timed out", 1400, 30000, prog.Profile{MaxTop: 3, MaxKids: 3, MaxDepth: 3, MaxSpecs: 5, Ordered: 25, CoF: 25, AllNodes: 35, Once: 25, Setup: 40, Report: 20, Suite: 30,
		Flake: 5, MPR: 3, FailFast: 5, Bad: 8, Skips: 1, Aborts: 1, Panics: 1, BadReport: 3, Cleanup: 30, BadCleanup: 12, Narrate: 5, Masks: true, Time: 100})
}

// E06: fail-fast, when the failure is a timeout.
func TestE06_timeout(t *testing.T) {
	timed(t, "E06", "timeout", "a body timed out", 500, 12000, prog.Profile{MaxTop: 4, MaxKids: 3, MaxDepth: 3, MaxSpecs: 6, Ordered: 25, CoF: 35, AllNodes: 35, Once: 15, Setup: 30, Report: 10, Suite: 25,
		Flake: 5, FailFast: 80, Bad: 4, Cleanup: 20, BadCleanup: 5, Masks: true, Time: 60})
}

func timed(t *testing.T, id, sub, rule string, quick, thorough int, p prog.Profile) {
	vf.Run(t, vf.Prop[*P]{ID: id, Sub: sub, Rule: rule, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) *P { return prog.Timed(t, prog.Gen(t, p)) },
		Check: func(p *P) vf.Outcome {
			var out vf.Outcome
			for try := 0; try < 4; try++ {
				res, exp, err := prog.CheckSerial(p, prog.AllAspects)
				out = vf.Outcome{Err: err}
				if exp != nil {
					out.Known = exp.Known
					s := stats{p, exp, res, p.Specs()}
					for _, r := range s.exp.Reports {
						if r.State == "timedout" {
							out.NonTrivial = true
							out.Classes = append(out.Classes, "in-"+r.Type)
						}
					}
				}
				if err == nil {
					break
				}
			}
			return out
		}})
}
