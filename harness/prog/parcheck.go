package prog

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2/types"
)

// SerialOrder is the order in which a single process would start the specs.
func SerialOrder(p *Prog) []int {
	q := &Prog{Conf: p.Conf}
	q.Conf.DryRun, q.Conf.FailFast = true, false
	var strip func(ns []*Node) []*Node
	strip = func(ns []*Node) []*Node {
		out := []*Node{}
		for _, n := range ns {
			if n.Kind == "C" || n.Kind == "It" {
				m := *n
				m.Kids = strip(n.Kids)
				out = append(out, &m)
			}
		}
		return out
	}
	q.Top = strip(p.Top)
	return Order(RunSerial(q).Trace)
}

func subsequence(a, of []int) bool {
	i := 0
	for _, x := range of {
		if i < len(a) && a[i] == x {
			i++
		}
	}
	return i == len(a)
}

// PredictAll predicts every process of a parallel run from the specs each of them started.
func PredictAll(p *Prog, specs []*Spec, hasFocus bool, orders [][]int) []*Expected {
	n := len(orders)
	exps := make([]*Expected, n)
	one := Proc{Proc: 1, Total: n}
	first := PredictProc(p, specs, hasFocus, orders[0], one)
	one.OthersOK = true
	for k := 2; k <= n; k++ {
		e := PredictProc(p, specs, hasFocus, orders[k-1], Proc{Proc: k, Total: n, RBSFailed: first.RBSFailed, SBSState: first.SBSState})
		exps[k-1] = e
		one.OthersOK = one.OthersOK && e.Success
		for _, r := range e.Reports {
			if r.Type == typeName("It") {
				one.OthersIts++
			}
		}
	}
	exps[0] = PredictProc(p, specs, hasFocus, orders[0], one)
	return exps
}

// CheckParallel runs the program on several processes and compares every one of them, and what the server heard, with the model.
func CheckParallel(p *Prog, o ParOptions, asp Aspect) (*ParResult, []*Expected, error) {
	pr, err := RunParallel(p, o)
	if err != nil {
		return pr, nil, err
	}
	if pr.BuildErr != nil {
		return pr, nil, fmt.Errorf("the tree was rejected: %s", pr.BuildErr)
	}
	specs, hasFocus := ModelFilters(p, nil, nil)
	orders := make([][]int, o.Procs)
	for i, r := range pr.Procs {
		orders[i] = Order(r.Trace)
	}
	exps := PredictAll(p, specs, hasFocus, orders)
	for _, e := range exps {
		if e.Known != "" {
			return pr, exps, nil
		}
	}
	if err := checkShare(p, specs, orders, exps); err != nil {
		return pr, exps, err
	}
	for i, r := range pr.Procs {
		if len(exps[i].Odd) > 0 {
			return pr, exps, fmt.Errorf("process %d: obligation not met: %q", i+1, exps[i].Odd)
		}
		if err := Compare(r, exps[i], asp); err != nil {
			return pr, exps, fmt.Errorf("process %d of %d: %w", i+1, o.Procs, err)
		}
		if r.Began != 1 || r.Ended != 1 {
			return pr, exps, fmt.Errorf("process %d: its reporter was told %d times that the suite begins and %d times that it ended", i+1, r.Began, r.Ended)
		}
	}
	if err := checkBarriers(p, specs, pr); err != nil {
		return pr, exps, err
	}
	return pr, exps, CheckServer(pr, exps, len(specs), o)
}

// checkShare: every spec is started exactly once overall, Serial ones on process 1, in the order of a serial run.
func checkShare(p *Prog, specs []*Spec, orders [][]int, exps []*Expected) error {
	where := map[int][]int{}
	any := false
	for i, e := range exps {
		any = any || e.Looped
		for _, id := range orders[i] {
			where[id] = append(where[id], i+1)
		}
	}
	byID := map[int]*Spec{}
	groupOf := map[int]int{}
	for _, s := range specs {
		byID[s.It.ID] = s
		w := where[s.It.ID]
		want := 0
		if any && (!s.Serial() || exps[0].Looped) {
			want = 1
		}
		if len(w) != want {
			return fmt.Errorf("spec %d was started %d times, on processes %v, expected %d (every spec must be accounted for exactly once)", s.It.ID, len(w), w, want)
		}
		if want == 0 {
			continue
		}
		if s.Serial() && w[0] != 1 {
			return fmt.Errorf("serial spec %d ran on process %d", s.It.ID, w[0])
		}
		if g, ok := groupOf[s.Group()]; ok && g != w[0] {
			return fmt.Errorf("the specs of an Ordered container (%d) ran on processes %d and %d", s.Group(), g, w[0])
		}
		groupOf[s.Group()] = w[0]
	}
	serial := SerialOrder(p)
	for i, order := range orders {
		a, b := []int{}, []int{}
		for _, id := range order {
			if byID[id] == nil {
				return fmt.Errorf("unknown spec %d", id)
			}
			if byID[id].Serial() {
				b = append(b, id)
			} else if len(b) > 0 {
				return fmt.Errorf("spec %d was started after a Serial one", id)
			} else {
				a = append(a, id)
			}
		}
		if !subsequence(a, serial) || !subsequence(b, serial) {
			return fmt.Errorf("process %d started specs in the order %v, a single process in the order %v", i+1, order, serial)
		}
	}
	return nil
}

// checkBarriers: what has to happen before what across the processes.
func checkBarriers(p *Prog, specs []*Spec, pr *ParResult) error {
	type ev struct {
		proc  int
		what  string
		stamp int64
	}
	last := int64(-1) // the last thing that happened on a process other than 1
	lastWhat := ""
	all := []ev{}
	for i, r := range pr.Procs {
		for j, l := range r.Trace {
			all = append(all, ev{i + 1, l, r.Stamps[j]})
			if i > 0 && r.Stamps[j] > last {
				last, lastWhat = r.Stamps[j], fmt.Sprintf("process %d: %s", i+1, l)
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].stamp < all[j].stamp })
	serial := map[string]bool{}
	for _, s := range specs {
		if s.Serial() {
			serial[fmt.Sprintf("will %s %d ", typeName("It"), s.It.line())] = true
		}
	}
	others := map[string]int64{} // first sign of a kind on processes other than 1
	for _, e := range all {
		if e.proc > 1 {
			k := "any"
			if strings.HasPrefix(e.what, "SBSall") {
				k = "sbs"
			}
			for _, kk := range []string{"any", k} {
				if _, ok := others[kk]; !ok {
					others[kk] = e.stamp
				}
			}
		}
	}
	after := func(e ev, why string) error {
		if e.stamp < last {
			return fmt.Errorf("%s: %q ran on process 1 before %q", why, e.what, lastWhat)
		}
		return nil
	}
	inSerial := false
	for _, e := range all {
		if e.proc != 1 {
			continue
		}
		if strings.HasPrefix(e.what, "will ") {
			inSerial = false
			for k := range serial {
				inSerial = inSerial || strings.HasPrefix(e.what, k)
			}
		}
		var err error
		head := e.what
		if i := strings.IndexAny(head, "0123456789"); i > 0 {
			head = head[:i]
		}
		switch {
		case inSerial:
			err = after(e, "Serial specs run when the other processes have finished")
		case head == "SASone":
			err = after(e, "the second body of SynchronizedAfterSuite runs when the other processes have finished")
		case head == "RAS":
			err = after(e, "ReportAfterSuite runs when the other processes have finished")
		case head == "RBS":
			if f, ok := others["any"]; ok && e.stamp > f {
				err = fmt.Errorf("%q ran on process 1 after another process had started", e.what)
			}
		case head == "SBS" || strings.HasPrefix(e.what, "SBS"):
			if f, ok := others["sbs"]; ok && e.stamp > f && !strings.HasPrefix(e.what, "SBSall") {
				err = fmt.Errorf("%q ran on process 1 after another process had started its part", e.what)
			}
		}
		if err != nil {
			return err
		}
	}
	// suite-level cleanup on process 1 waits, too
	for i, l := range pr.Procs[0].Trace {
		if strings.HasPrefix(l, "X") && i > 0 {
			for j := i - 1; j >= 0; j-- {
				if strings.HasPrefix(pr.Procs[0].Trace[j], "will ") {
					if strings.HasPrefix(pr.Procs[0].Trace[j], "will "+typeName("XS")) && pr.Procs[0].Stamps[i] < last {
						return fmt.Errorf("suite-level cleanup %q ran on process 1 before %q", l, lastWhat)
					}
					break
				}
			}
		}
	}
	return nil
}

func reportKey(r types.SpecReport) string {
	b, err := json.Marshal(r)
	if err != nil {
		return "not encodable: " + err.Error()
	}
	return strings.ReplaceAll(string(b), "[]", "null") // empty and absent lists are the same thing
}

// CheckServer compares what the server told its reporter with what the processes told theirs.
func CheckServer(pr *ParResult, exps []*Expected, total int, o ParOptions) error {
	if !pr.Done {
		return fmt.Errorf("all processes have finished and the server does not know it")
	}
	if len(pr.Server) < 2 || pr.Server[0].Kind != "begin" || pr.Server[len(pr.Server)-1].Kind != "end" {
		return fmt.Errorf("the server's reporter was told %s", kinds(pr.Server))
	}
	begin, end := pr.Server[0].Report, pr.Server[len(pr.Server)-1].Report
	if begin.PreRunStats != pr.Procs[0].Report.PreRunStats || begin.PreRunStats.TotalSpecs != total {
		return fmt.Errorf("the suite was announced with %v, process 1 has %v", begin.PreRunStats, pr.Procs[0].Report.PreRunStats)
	}
	perProc := make([][]types.SpecReport, o.Procs)
	mid := pr.Server[1 : len(pr.Server)-1]
	for i := 0; i < len(mid); i++ {
		e := mid[i]
		if e.Kind == "progress" {
			continue
		}
		if e.Kind != "will" || i+1 >= len(mid) || mid[i+1].Kind != "did" || reportKey(mid[i+1].Spec) != reportKey(e.Spec) {
			return fmt.Errorf("the server's reporter was told %s", kinds(pr.Server))
		}
		k := e.Spec.ParallelProcess
		if k < 1 || k > o.Procs {
			return fmt.Errorf("a report comes from process %d", k)
		}
		perProc[k-1] = append(perProc[k-1], mid[i+1].Spec)
		i++
	}
	ends := map[string]int{}
	for _, r := range end.SpecReports {
		ends[reportKey(r)]++
	}
	ok := true
	reasons := map[string]bool{}
	n := 0
	for k, r := range pr.Procs {
		if pr.Died[k] {
			continue
		}
		if len(perProc[k]) != len(r.Reports) {
			return fmt.Errorf("process %d reported %d nodes, the server passed on %d", k+1, len(r.Reports), len(perProc[k]))
		}
		for i := range r.Reports {
			a, b := r.Reports[i], perProc[k][i]
			if reportKey(a) != reportKey(b) {
				return fmt.Errorf("process %d reported\n%s\nthe server passed on\n%s", k+1, reportKey(a), reportKey(b))
			}
			if a.ParallelProcess != k+1 || !a.RunningInParallel && o.Procs > 1 {
				return fmt.Errorf("process %d reported a node as from process %d (parallel: %v)", k+1, a.ParallelProcess, a.RunningInParallel)
			}
			if a.IsSerial != b.IsSerial || a.IsInOrderedContainer != b.IsInOrderedContainer || a.RunningInParallel != b.RunningInParallel {
				return fmt.Errorf("process %d reported IsSerial=%v IsInOrderedContainer=%v RunningInParallel=%v, the server passed on %v %v %v", k+1, a.IsSerial, a.IsInOrderedContainer, a.RunningInParallel, b.IsSerial, b.IsInOrderedContainer, b.RunningInParallel)
			}
			key := reportKey(a)
			if ends[key] == 0 {
				return fmt.Errorf("the combined report lacks %s", key)
			}
			ends[key]--
			n++
		}
		ok = ok && r.Report.SuiteSucceeded
		for _, x := range r.Report.SpecialSuiteFailureReasons {
			reasons[x] = true
		}
		if end.StartTime.After(r.Report.StartTime) || end.EndTime.Before(r.Report.EndTime) {
			return fmt.Errorf("the combined report spans %s to %s, process %d %s to %s", end.StartTime, end.EndTime, k+1, r.Report.StartTime, r.Report.EndTime)
		}
	}
	if n != len(end.SpecReports) {
		return fmt.Errorf("the combined report has %d nodes, the processes reported %d", len(end.SpecReports), n)
	}
	if end.SuiteSucceeded != ok {
		return fmt.Errorf("the combined report says SuiteSucceeded=%v, the processes together %v", end.SuiteSucceeded, ok)
	}
	got := append([]string{}, end.SpecialSuiteFailureReasons...)
	sort.Strings(got)
	want := []string{}
	for x := range reasons {
		want = append(want, x)
	}
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		return fmt.Errorf("the combined report gives the reasons %q, the processes %q", got, want)
	}
	return nil
}

func kinds(es []ServerEvent) string {
	out := []string{}
	for _, e := range es {
		out = append(out, fmt.Sprintf("%s %d", e.Kind, e.Spec.LeafNodeLocation.LineNumber))
	}
	return strings.Join(out, ", ")
}
