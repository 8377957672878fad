package prog

import (
	"fmt"
	"strings"

	"github.com/onsi/ginkgo/v2/types"
)

// Order is the order in which a run started its specs (It ids), read off its "will" markers.
func Order(trace []string) []int {
	out := []int{}
	it := types.NodeTypeIt.String()
	for _, l := range trace {
		var id int
		if rest, ok := strings.CutPrefix(l, "will "+it+" "); ok {
			fmt.Sscanf(rest, "%d", &id)
			out = append(out, id)
		}
	}
	return out
}

// Aspect selects what Compare looks at.
type Aspect struct {
	Trace   bool // bodies and their order, will/did markers with states
	Fail    bool // failures and additional failures
	Retry   bool // attempts
	Content bool // entries, output, events
	Success bool // the verdict on the suite, special failure reasons
}

var AllAspects = Aspect{true, true, true, true, true}

// Compare explains the first difference between a run and the model's prediction.
func Compare(res *Result, exp *Expected, asp Aspect) error {
	if asp.Trace {
		if d := diffLines(res.Trace, exp.Trace); d != "" {
			return fmt.Errorf("the bodies run, their order or the states announced differ from the model:\n%s", d)
		}
	}
	if len(res.Reports) != len(exp.Reports) {
		return fmt.Errorf("%d nodes were reported, the model expects %d", len(res.Reports), len(exp.Reports))
	}
	for i := range res.Reports {
		got, want := CanonReport(res.Reports[i]), exp.Reports[i]
		if got.Type != want.Type || got.Line != want.Line || got.State != want.State {
			return fmt.Errorf("report %d: got %s %d %s, the model expects %s %d %s", i, got.Type, got.Line, got.State, want.Type, want.Line, want.State)
		}
		id := fmt.Sprintf("report of %s %d (%s)", got.Type, got.Line, got.State)
		if asp.Fail {
			if got.Fail != want.Fail {
				return fmt.Errorf("%s: failure is %q, the model expects %q", id, got.Fail, want.Fail)
			}
			if strings.Join(got.Extra, "\n") != strings.Join(want.Extra, "\n") {
				return fmt.Errorf("%s: additional failures are %q, the model expects %q", id, got.Extra, want.Extra)
			}
		}
		if asp.Retry && got.Attempts != want.Attempts {
			return fmt.Errorf("%s: %d attempts, the model expects %d", id, got.Attempts, want.Attempts)
		}
		if asp.Content {
			if strings.Join(got.Entries, "\n") != strings.Join(want.Entries, "\n") {
				return fmt.Errorf("%s: report entries are %q, the model expects %q", id, got.Entries, want.Entries)
			}
			if got.GW != want.GW {
				return fmt.Errorf("%s: captured GinkgoWriter output is %q, the model expects %q", id, got.GW, want.GW)
			}
			if got.StdOut != want.StdOut {
				return fmt.Errorf("%s: captured stdout/stderr is %q, the model expects %q", id, got.StdOut, want.StdOut)
			}
			if err := TimesSound(res.Reports[i]); err != nil {
				return fmt.Errorf("%s: %w", id, err)
			}
			if err := TimelineSound(res.Reports[i]); err != nil {
				return fmt.Errorf("%s: %w", id, err)
			}
			if d := diffLines(got.Events, want.Events); d != "" {
				return fmt.Errorf("%s: spec events differ from the model:\n%s", id, d)
			}
		}
	}
	if asp.Success {
		if res.Success != exp.Success {
			return fmt.Errorf("the suite's verdict is %v, the model expects %v", res.Success, exp.Success)
		}
		if res.HasFocus != exp.HasFocus {
			return fmt.Errorf("programmatic focus is %v, the model expects %v", res.HasFocus, exp.HasFocus)
		}
		if res.Report.SuiteSucceeded != exp.Success {
			return fmt.Errorf("the report says SuiteSucceeded=%v, the model expects %v", res.Report.SuiteSucceeded, exp.Success)
		}
		if strings.Join(res.Report.SpecialSuiteFailureReasons, "|") != strings.Join(exp.Special, "|") {
			return fmt.Errorf("special suite failure reasons are %q, the model expects %q", res.Report.SpecialSuiteFailureReasons, exp.Special)
		}
	}
	return nil
}

func diffLines(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "<nothing>", "<nothing>"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			from := i - 6
			if from < 0 {
				from = 0
			}
			return fmt.Sprintf("at %d: got %q, expected %q\nbefore it: %q\ngot then: %q\nexpected then: %q", i, g, w, got[from:min(i, len(got))], clipN(got, i), clipN(want, i))
		}
	}
	return ""
}

func clipN(s []string, i int) []string {
	if i >= len(s) {
		return nil
	}
	e := i + 8
	if e > len(s) {
		e = len(s)
	}
	return s[i:e]
}

// CheckSerial runs the program and compares it with the model.
func CheckSerial(p *Prog, asp Aspect) (*Result, *Expected, error) {
	specs, hasFocus := ModelFilters(p, nil, nil)
	return CheckWith(p, specs, hasFocus, asp)
}

// CheckWith is CheckSerial with the filters already applied to the specs.
func CheckWith(p *Prog, specs []*Spec, hasFocus bool, asp Aspect) (*Result, *Expected, error) {
	return CheckRun(RunSerial(p), p, specs, hasFocus, asp)
}

// CheckRun compares a run with the model.
func CheckRun(res *Result, p *Prog, specs []*Spec, hasFocus bool, asp Aspect) (*Result, *Expected, error) {
	if res.BuildErr != nil {
		return res, nil, fmt.Errorf("the tree was rejected: %s", res.BuildErr)
	}
	order := Order(res.Trace)
	exp := Predict(p, specs, hasFocus, order)
	if exp.Known != "" {
		return res, exp, nil
	}
	if len(exp.Odd) > 0 {
		return res, exp, fmt.Errorf("obligation not met: %q", exp.Odd)
	}
	if err := CheckOrderSound(p, specs, order, exp); err != nil {
		return res, exp, err
	}
	return res, exp, Compare(res, exp, asp)
}

// CheckOrderSound says whether the order is a permutation of the specs in which Ordered groups are contiguous and in definition order.
func CheckOrderSound(p *Prog, specs []*Spec, order []int, exp *Expected) error {
	its := 0
	for _, r := range exp.Reports {
		if r.Type == types.NodeTypeIt.String() {
			its++
		}
	}
	if its == 0 && len(order) == 0 {
		return nil // nothing was to run (BeforeSuite failed, ...): the model says whether that is right
	}
	seen := map[int]int{}
	for _, id := range order {
		seen[id]++
	}
	for _, s := range specs {
		if seen[s.It.ID] != 1 {
			return fmt.Errorf("spec %d was started %d times (every spec must be accounted for exactly once)", s.It.ID, seen[s.It.ID])
		}
	}
	if len(order) != len(specs) {
		return fmt.Errorf("%d specs were started, the suite has %d", len(order), len(specs))
	}
	pos := map[int]int{}
	for i, id := range order {
		pos[id] = i
	}
	for i, s := range specs {
		if s.OrderedAt() < 0 {
			continue
		}
		// the next spec of the same group follows directly
		for _, o := range specs[i+1:] {
			if o.Group() == s.Group() {
				if pos[o.It.ID] != pos[s.It.ID]+1 {
					return fmt.Errorf("specs %d and %d of an Ordered container were not run one after the other", s.It.ID, o.It.ID)
				}
				break
			}
		}
	}
	return nil
}
