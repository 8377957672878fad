package parallel

import (
	"fmt"
	"strings"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// checkStop holds for every schedule of a run that one spec brings to a stop.
func checkStop(p *prog.Prog, n, stopper int, pr *prog.ParResult) vf.Outcome {
	out := vf.Outcome{}
	specs := p.Specs()
	stopped := false
	anyLooped, oneLooped := false, false
	where := map[int]int{}
	count := map[int]int{}
	for i, r := range pr.Procs {
		order := prog.Order(r.Trace)
		for _, id := range order {
			where[id] = i + 1
			count[id]++
		}
		if len(order) > 0 {
			anyLooped = true
			oneLooped = oneLooped || i == 0
		}
	}
	told, skipped, running := 0, 0, map[int]bool{}
	byLine := map[int]types.SpecReport{}
	for i, r := range pr.Procs {
		began := map[string]bool{}
		for _, l := range r.Trace {
			if strings.Contains(l, " cut:") {
				return vf.Fail("process %d: what was cleaning up was told to stop: %q", i+1, l)
			}
			if strings.Contains(l, "told:") {
				told++
				if !strings.HasSuffix(l, "told:Interrupted by Other Ginkgo Process") {
					return vf.Fail("process %d: a body was told %q", i+1, l)
				}
			}
			if k := strings.IndexByte(l, '#'); k > 0 && !strings.Contains(l, " ") {
				began[l[:k]] = true
			}
		}
		for _, s := range r.Reports {
			if !s.LeafNodeType.Is(types.NodeTypeIt) {
				continue
			}
			byLine[s.LeafNodeLocation.LineNumber] = s
			id := s.LeafNodeLocation.LineNumber
			if began[fmt.Sprintf("It%d", id)] {
				running[i+1] = true
			}
			if s.State.Is(types.SpecStateSkipped) {
				skipped++
			}
		}
	}
	for _, s := range specs {
		if anyLooped && count[s.It.ID] != 1 && !(s.Serial() && !oneLooped && count[s.It.ID] == 0) {
			return vf.Fail("spec %d was accounted for %d times in a run that was stopped", s.It.ID, count[s.It.ID])
		}
	}
	st, ok := byLine[stopper]
	ranStopper := false
	if ok {
		ranStopper = strings.Contains(strings.Join(pr.Procs[where[stopper]-1].Trace, "\n"), fmt.Sprintf("It%d#", stopper))
	}
	if ranStopper {
		stopped = st.State.Is(types.SpecStateFailureStates)
	}
	suiteOK := true
	for i, r := range pr.Procs {
		if r.Began != 1 || r.Ended != 1 {
			return vf.Fail("process %d: its reporter was told %d times that the suite begins and %d times that it ended", i+1, r.Began, r.Ended)
		}
		suiteOK = suiteOK && r.Success
	}
	if stopped && suiteOK {
		return vf.Fail("spec %d stopped the run (%s) and every process reports success", stopper, st.State)
	}
	// after the report of the stopping spec, the process it ran on starts nothing but cleanup
	if stopped && where[stopper] > 0 {
		tr := pr.Procs[where[stopper]-1].Trace
		mark := fmt.Sprintf("did It %d ", stopper)
		past := false
		for _, l := range tr {
			if strings.HasPrefix(l, mark) {
				past = true
				continue
			}
			if past {
				for _, s := range specs {
					if strings.HasPrefix(l, fmt.Sprintf("It%d#", s.It.ID)) {
						return vf.Fail("spec %d ran on the process where spec %d had stopped the run", s.It.ID, stopper)
					}
				}
			}
		}
	}
	// what was set up was cleaned up: bodies on all processes obey the nesting rules even when stopped
	for i, r := range pr.Procs {
		if err := checkTeardown(p, specs, r); err != nil {
			return vf.Outcome{Err: fmt.Errorf("process %d of %d: %w", i+1, n, err)}
		}
	}
	exps := make([]*prog.Expected, n)
	if err := prog.CheckServer(pr, exps, len(specs), prog.ParOptions{Procs: n}); err != nil {
		return vf.Outcome{Err: err}
	}
	out.NonTrivial = stopped && len(running) >= 2 && (told > 0 || skipped > 0)
	if told > 0 {
		out.Classes = append(out.Classes, "told")
	}
	if skipped > 0 {
		out.Classes = append(out.Classes, "skipped")
	}
	if stopped {
		out.Classes = append(out.Classes, "stopped")
	}
	return out
}

// checkTeardown: an AfterEach of every container whose specs' bodies ran, every AfterAll, every cleanup that was registered.
func checkTeardown(p *prog.Prog, specs []*prog.Spec, r *prog.Result) error {
	runs := map[string]int{}
	for _, l := range r.Trace {
		if k := strings.IndexByte(l, '#'); k > 0 && !strings.Contains(l, " ") {
			runs[l[:k]]++
		}
	}
	for _, s := range specs {
		if runs[fmt.Sprintf("It%d", s.It.ID)] == 0 {
			continue
		}
		for _, ns := range s.Level {
			for _, n := range ns {
				switch n.Kind {
				case "AE", "JAE", "AA":
					if runs[fmt.Sprintf("%s%d", n.Kind, n.ID)] == 0 {
						return fmt.Errorf("spec %d ran and %s %d did not", s.It.ID, n.Kind, n.ID)
					}
				}
			}
		}
		for _, a := range s.It.Acts {
			if a.Op == "cleanup" && a.On == 0 && runs[fmt.Sprintf("X%d", a.ID)] == 0 {
				return fmt.Errorf("spec %d registered cleanup %d, which was not run", s.It.ID, a.ID)
			}
			switch a.Op {
			case "fail", "panic", "abort", "skip", "wait":
				goto next
			}
		}
	next:
	}
	return nil
}
