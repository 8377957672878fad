package parallel

import (
	"fmt"
	"strings"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// checkDeath holds for every schedule of a run in which a process disappears in the middle of a body.
func checkDeath(p *prog.Prog, o prog.ParOptions, pr *prog.ParResult) vf.Outcome {
	out := vf.Outcome{}
	n := o.Procs
	traces := make([][]string, n)
	dead := 0 // the process that died
	for i := range traces {
		traces[i] = pr.Procs[i].Trace
		if pr.Died[i] {
			traces[i] = pr.Worlds[i].TraceNow()
			dead = i + 1
		}
	}
	specs, hasFocus := prog.ModelFilters(p, nil, nil)
	orders := make([][]int, n)
	for i := range traces {
		orders[i] = prog.Order(traces[i])
	}
	fail := func(format string, args ...any) vf.Outcome { return vf.Fail(format, args...) }
	if dead == 0 { // it never got there: a run like any other
		exps := prog.PredictAll(p, specs, hasFocus, orders)
		for i, r := range pr.Procs {
			if err := prog.Compare(r, exps[i], prog.AllAspects); err != nil {
				return fail("process %d of %d: %v", i+1, n, err)
			}
		}
		return out
	}
	// what process 1 told the others before it died, if it did
	at := strings.Join(traces[dead-1], "\n")
	first := prog.PredictProc(p, specs, hasFocus, nil, prog.Proc{Proc: 1, Total: n})
	rbs, sbs := first.RBSFailed, first.SBSState
	stage := "specs"
	if dead == 1 {
		has := func(kind string) bool {
			for _, x := range p.Suite {
				if x.Kind == kind {
					return true
				}
			}
			return false
		}
		last := ""
		for _, l := range traces[0] {
			if strings.HasPrefix(l, "will ") {
				last = l
			}
		}
		switch {
		case strings.HasPrefix(last, "will ReportBeforeSuite"):
			rbs, sbs, stage = true, "", "RBS"
		case strings.HasPrefix(last, "will SynchronizedBeforeSuite") && !strings.Contains(at, "SBSall"):
			sbs, stage = "gone", "SBS"
		}
		_ = has
	}
	looped := false
	exps := make([]*prog.Expected, n)
	success := true
	for k := 2; k <= n; k++ {
		if k == dead {
			continue
		}
		exps[k-1] = prog.PredictProc(p, specs, hasFocus, orders[k-1], prog.Proc{Proc: k, Total: n, RBSFailed: rbs, SBSState: sbs})
	}
	if dead != 1 {
		exps[0] = prog.PredictProc(p, specs, hasFocus, orders[0], prog.Proc{Proc: 1, Total: n, OthersGone: true})
	}
	for i, e := range exps {
		if e == nil {
			continue
		}
		if err := prog.Compare(pr.Procs[i], e, prog.AllAspects); err != nil {
			return fail("process %d of %d, after the death of process %d: %v", i+1, n, dead, err)
		}
		if pr.Procs[i].Ended != 1 {
			return fail("process %d of %d, after the death of process %d: it did not end", i+1, n, dead)
		}
		success = success && pr.Procs[i].Success
		looped = looped || e.Looped
	}
	// every spec is started once at most; the survivors start all that the dead process had not taken
	where := map[int]int{}
	count := map[int]int{}
	lost := map[int]bool{}
	for i, order := range orders {
		for _, id := range order {
			count[id]++
			where[id] = i + 1
		}
	}
	for _, s := range specs {
		if where[s.It.ID] == dead {
			lost[s.Group()] = true
		}
	}
	for _, s := range specs {
		c := count[s.It.ID]
		if c > 1 {
			return fail("spec %d was started %d times", s.It.ID, c)
		}
		if c == 0 && looped && !s.Serial() && !lost[s.Group()] {
			return fail("spec %d was never started, and the process that died had not taken it", s.It.ID)
		}
		if c == 0 && s.Serial() && dead != 1 && exps[0].Looped {
			return fail("the Serial spec %d was never started", s.It.ID)
		}
		if c > 0 && lost[s.Group()] && where[s.It.ID] != dead {
			return fail("spec %d of a group that process %d had taken was started on process %d", s.It.ID, dead, where[s.It.ID])
		}
	}
	// nobody considers the run complete
	if pr.Done {
		return fail("process %d died and the server considers the suite finished", dead)
	}
	for _, e := range pr.Server {
		if e.Kind == "end" {
			return fail("process %d died and the reporter was told that the suite ended", dead)
		}
	}
	hasRAS := false
	for _, x := range p.Suite {
		hasRAS = hasRAS || x.Kind == "RAS"
	}
	if dead != 1 && hasRAS && pr.Procs[0].Success {
		return fail("process %d died, ReportAfterSuite had no report to work on, and process 1 reports success", dead)
	}
	// what the survivors reported was passed on
	if len(pr.Server) > 0 && pr.Server[0].Kind == "begin" {
		seen := map[string]int{}
		for _, e := range pr.Server {
			if e.Kind == "did" {
				seen[key(e.Spec)]++
			}
		}
		for i, r := range pr.Procs {
			if pr.Died[i] {
				continue
			}
			for _, s := range r.Reports {
				if seen[key(s)] == 0 {
					return fail("process %d reported %s, the server did not pass it on", i+1, key(s))
				}
				seen[key(s)]--
			}
		}
	}
	out.NonTrivial = true
	out.Classes = []string{"in-" + stage, map[bool]string{true: "process-1", false: "other"}[dead == 1]}
	if looped {
		out.Classes = append(out.Classes, "others-ran-specs")
	}
	return out
}

func key(r types.SpecReport) string {
	return fmt.Sprintf("%s:%d:%s:%d", r.LeafNodeType, r.LeafNodeLocation.LineNumber, r.State, r.ParallelProcess)
}
