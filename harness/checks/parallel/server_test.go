package parallel

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// sop is a call that one of the processes makes, or something that happens to it.
type sop struct {
	Op   string
	Proc int
	Spec *rep.Spec `json:",omitempty"`
	Text string    `json:",omitempty"`
	N    int       `json:",omitempty"`
}

type serverCase struct {
	Procs   int
	HTTP    bool
	Reports []rep.Report // by process
	Ops     []sop
}

type sevent struct {
	Kind     string
	Report   types.Report
	Spec     types.SpecReport
	Progress types.ProgressReport
}

// recorder is the reporter of the server.
type recorder struct {
	mu     sync.Mutex
	events []sevent
}

func (r *recorder) add(e sevent) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, e)
}
func (r *recorder) SuiteWillBegin(report types.Report)         { r.add(sevent{Kind: "begin", Report: report}) }
func (r *recorder) WillRun(s types.SpecReport)                 { r.add(sevent{Kind: "will", Spec: s}) }
func (r *recorder) DidRun(s types.SpecReport)                  { r.add(sevent{Kind: "did", Spec: s}) }
func (r *recorder) SuiteDidEnd(report types.Report)            { r.add(sevent{Kind: "end", Report: report}) }
func (r *recorder) EmitFailure(types.SpecState, types.Failure) {}
func (r *recorder) EmitProgressReport(p types.ProgressReport) {
	r.add(sevent{Kind: "progress", Progress: p})
}
func (r *recorder) EmitReportEntry(types.ReportEntry) {}
func (r *recorder) EmitSpecEvent(types.SpecEvent)     {}

type safeBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *safeBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}
func (s *safeBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// reply is what a call that waits has returned.
type reply struct {
	state  types.SpecState
	data   []byte
	report types.Report
	err    error
}

type waiting struct {
	what string
	proc int
	c    chan reply
}

func protocol(http bool) {
	parallel_support.POLLING_INTERVAL = time.Millisecond
	os.Unsetenv("GINKGO_PARALLEL_PROTOCOL")
	if http {
		os.Setenv("GINKGO_PARALLEL_PROTOCOL", "HTTP")
	}
}

// merged is the report of the whole suite, given those of the processes in the order in which they ended.
func merged(rs []types.Report) types.Report {
	out := rs[0]
	out.SpecReports, out.SpecialSuiteFailureReasons = nil, nil
	for _, r := range rs {
		out.SuiteSucceeded = out.SuiteSucceeded && r.SuiteSucceeded
		if r.StartTime.Before(out.StartTime) {
			out.StartTime = r.StartTime
		}
		if r.EndTime.After(out.EndTime) {
			out.EndTime = r.EndTime
		}
		for _, reason := range r.SpecialSuiteFailureReasons {
			known := false
			for _, x := range out.SpecialSuiteFailureReasons {
				known = known || x == reason && len(rs) > 1
			}
			if !known {
				out.SpecialSuiteFailureReasons = append(out.SpecialSuiteFailureReasons, reason)
			}
		}
		out.SpecReports = append(out.SpecReports, r.SpecReports...)
	}
	out.RunTime = out.EndTime.Sub(out.StartTime)
	return out
}

// P04: the server keeps one account of the run.
func TestP04_account(t *testing.T) {
	vf.Run(t, vf.Prop[serverCase]{ID: "P04", Sub: "account", Rule: "two processes or more made calls", Quick: 7000, Thorough: 250000, CaseLimit: 60 * time.Second,
		Gen: func(t *rapid.T) serverCase {
			c := serverCase{Procs: vf.Range(t, "procs", 2, 4), HTTP: vf.Pct(t, "http", 30)}
			// each process follows a course of its own; the courses are mixed
			var courses [][]sop
			for i := 1; i <= c.Procs; i++ {
				c.Reports = append(c.Reports, rep.GenReport(t, rep.Opt{MaxSpecs: 2}))
				var ops []sop
				add := func(op string, pct int) *sop {
					if !vf.Pct(t, op, pct) {
						return &sop{}
					}
					ops = append(ops, sop{Op: op, Proc: i})
					return &ops[len(ops)-1]
				}
				chatter := func() {
					for k := vf.Range(t, "chatter", 0, 3); k > 0; k-- {
						switch vf.U(t, "what", 6) {
						case 0:
							add("output", 100).Text = rep.Text(t, "text")
						case 1:
							s := rep.GenSpec(t, rep.Opt{})
							add("did", 100).Spec = &s
						case 2:
							add("counter", 100)
						case 3:
							add("aborted?", 100)
						case 4:
							add("progress", 100).Text = rep.Text(t, "text")
						case 5:
							add("abort", 20)
						}
					}
				}
				die := func(pct int) { add("die", pct) }
				chatter()
				add("begin", 97)
				chatter()
				die(4)
				if i == 1 {
					add("reported", 80).N = vf.Range(t, "state", 0, len(rep.States)-1)
				} else {
					add("reported?", 80)
				}
				chatter()
				die(4)
				if i == 1 {
					o := add("setup", 80)
					o.N, o.Text = vf.Range(t, "state", 0, len(rep.States)-1), rep.Text(t, "data")
				} else {
					add("setup?", 80)
				}
				chatter()
				die(4)
				chatter()
				if i == 1 {
					add("finished?", 80)
					chatter()
					add("report?", 80)
				}
				add("end", 92)
				die(92)
				courses = append(courses, ops)
			}
			for {
				var left []int
				for i, ops := range courses {
					if len(ops) > 0 {
						left = append(left, i)
					}
				}
				if len(left) == 0 {
					break
				}
				i := left[vf.U(t, "next", len(left))]
				for k := vf.Range(t, "run", 1, 3); k > 0 && len(courses[i]) > 0; k-- {
					c.Ops = append(c.Ops, courses[i][0])
					courses[i] = courses[i][1:]
				}
			}
			return c
		},
		Check: checkAccount})
}

func checkAccount(c serverCase) (out vf.Outcome) {
	protocol(c.HTTP)
	rec := &recorder{}
	server, err := parallel_support.NewServer(c.Procs, rec)
	if err != nil {
		return vf.Outcome{Err: err}
	}
	buf := &safeBuf{}
	server.SetOutputDestination(buf)
	server.Start()
	defer server.Close()
	gone := make([]atomic.Bool, c.Procs+1)
	clients := make([]parallel_support.Client, c.Procs+1)
	for i := 1; i <= c.Procs; i++ {
		g := &gone[i]
		server.RegisterAlive(i, func() bool { return !g.Load() })
		clients[i] = parallel_support.NewClient(server.Address())
		if !clients[i].Connect() {
			return vf.Fail("process %d cannot connect", i)
		}
		defer clients[i].Close()
	}
	reports := make([]types.Report, c.Procs+1)
	for i, r := range c.Reports {
		reports[i+1] = r.Build()
	}

	// the account
	var (
		begun, ended       int
		held               []types.SpecReport
		want               []sevent
		endReports         []types.Report
		count              int
		aborted            bool
		reported, setup    types.SpecState
		setupData, printed string
		calls              = make([]bool, c.Procs+1)
	)
	finished := func() bool {
		for i := 2; i <= c.Procs; i++ {
			if !gone[i].Load() {
				return false
			}
		}
		return true
	}
	// what a waiting call must return by now, if anything
	due := func(what string) (reply, bool) {
		switch what {
		case "reported?":
			if reported != types.SpecStateInvalid {
				return reply{state: reported}, true
			}
			return reply{state: types.SpecStateFailed}, gone[1].Load()
		case "setup?":
			if setup != types.SpecStateInvalid {
				return reply{state: setup, data: []byte(setupData)}, true
			}
			return reply{err: types.GinkgoErrors.SynchronizedBeforeSuiteDisappearedOnProc1()}, gone[1].Load()
		case "finished?":
			return reply{}, finished()
		}
		if !finished() {
			return reply{}, false
		}
		if ended != c.Procs-1 {
			return reply{err: types.GinkgoErrors.AggregatedReportUnavailableDueToNodeDisappearing()}, true
		}
		return reply{report: merged(endReports)}, true
	}
	var waits []waiting
	wait := func(what string, proc int) {
		w := waiting{what, proc, make(chan reply, 1)}
		go func() {
			r := reply{}
			switch what {
			case "reported?":
				r.state, r.err = clients[proc].BlockUntilReportBeforeSuiteCompleted()
			case "setup?":
				r.state, r.data, r.err = clients[proc].BlockUntilSynchronizedBeforeSuiteData()
			case "finished?":
				r.err = clients[proc].BlockUntilNonprimaryProcsHaveFinished()
			case "report?":
				r.report, r.err = clients[proc].BlockUntilAggregatedNonprimaryProcsReport()
			}
			w.c <- r
		}()
		waits = append(waits, w)
	}
	settle := func() error {
		left := waits[:0]
		for _, w := range waits {
			want, now := due(w.what)
			if !now {
				select {
				case r := <-w.c:
					return fmt.Errorf("process %d: %s did not wait: it returned %v %q %v", w.proc, w.what, r.state, r.data, r.err)
				default:
				}
				left = append(left, w)
				continue
			}
			select {
			case r := <-w.c:
				if fmt.Sprint(r.err) != fmt.Sprint(want.err) {
					return fmt.Errorf("process %d: %s returned the error %v, want %v", w.proc, w.what, r.err, want.err)
				}
				if r.err != nil {
					continue
				}
				if r.state != want.state || !bytes.Equal(r.data, want.data) {
					return fmt.Errorf("process %d: %s returned %v %q, want %v %q", w.proc, w.what, r.state, r.data, want.state, want.data)
				}
				if err := rep.Same("aggregated report", want.report, r.report); err != nil {
					return fmt.Errorf("process %d: %v", w.proc, err)
				}
				out.Classes = append(out.Classes, "answered-"+w.what)
			case <-time.After(20 * time.Second):
				return fmt.Errorf("process %d: %s still waits", w.proc, w.what)
			}
		}
		waits = left
		return nil
	}
	// whatever happens, nobody is left waiting
	defer func() {
		for i := range gone {
			gone[i].Store(true)
		}
		for _, w := range waits {
			select {
			case <-w.c:
			case <-time.After(20 * time.Second):
				if out.Err == nil {
					out = vf.Fail("process %d: %s still waits when every process is gone", w.proc, w.what)
				}
			}
		}
	}()
	emitted := func() error {
		rec.mu.Lock()
		defer rec.mu.Unlock()
		for i := 0; i < len(want) || i < len(rec.events); i++ {
			if i >= len(rec.events) {
				return fmt.Errorf("event %d (%s %s) was not reported", i, want[i].Kind, want[i].Spec.LeafNodeText)
			}
			if i >= len(want) {
				return fmt.Errorf("event %d (%s %s) was reported but should not have been (yet)", i, rec.events[i].Kind, rec.events[i].Spec.LeafNodeText)
			}
			if err := rep.Same(fmt.Sprintf("event %d", i), want[i], rec.events[i]); err != nil {
				return err
			}
		}
		return nil
	}
	busy := func(proc int) bool {
		for _, w := range waits {
			if w.proc == proc {
				return true
			}
		}
		return false
	}
	queued := append([]sop(nil), c.Ops...)
	for len(queued) > 0 {
		// a process that waits does nothing else; the next call is that of the first that does not
		// (it may disappear while it waits, if that is what it does next)
		k, passed := 0, map[int]bool{}
		for k < len(queued) && busy(queued[k].Proc) && (passed[queued[k].Proc] || queued[k].Op != "die") {
			passed[queued[k].Proc] = true
			k++
		}
		if k == len(queued) {
			break
		}
		o := queued[k]
		queued = append(queued[:k:k], queued[k+1:]...)
		if gone[o.Proc].Load() {
			continue
		}
		cl := clients[o.Proc]
		calls[o.Proc] = true
		var err error
		switch o.Op {
		case "begin":
			err = cl.PostSuiteWillBegin(reports[o.Proc])
			if begun++; begun == c.Procs {
				want = append(want, sevent{Kind: "begin", Report: reports[o.Proc]})
				for _, s := range held {
					want = append(want, sevent{Kind: "will", Spec: s}, sevent{Kind: "did", Spec: s})
				}
				if len(held) > 0 {
					out.Classes = append(out.Classes, "held-reports")
				}
			}
		case "did":
			s := o.Spec.Build()
			err = cl.PostDidRun(s)
			if begun == c.Procs {
				want = append(want, sevent{Kind: "will", Spec: s}, sevent{Kind: "did", Spec: s})
			} else {
				held = append(held, s)
			}
		case "end":
			err = cl.PostSuiteDidEnd(reports[o.Proc])
			endReports = append(endReports, reports[o.Proc])
			if ended++; ended == c.Procs {
				want = append(want, sevent{Kind: "end", Report: merged(endReports)})
				out.Classes = append(out.Classes, "suite-ended")
			}
		case "progress":
			p := types.ProgressReport{Message: o.Text, ParallelProcess: o.Proc}
			err = cl.PostEmitProgressReport(p)
			want = append(want, sevent{Kind: "progress", Progress: p})
		case "output":
			var n int
			n, err = cl.Write([]byte(o.Text))
			if err == nil && n != len(o.Text) {
				return vf.Fail("process %d: %d of %d bytes of output were taken", o.Proc, n, len(o.Text))
			}
			printed += o.Text
		case "counter":
			var n int
			if n, err = cl.FetchNextCounter(); n != count {
				return vf.Fail("process %d: the counter is at %d, want %d", o.Proc, n, count)
			}
			count++
		case "abort":
			err = cl.PostAbort()
			aborted = true
		case "aborted?":
			if got := cl.ShouldAbort(); got != aborted {
				return vf.Fail("process %d: ShouldAbort is %v, want %v", o.Proc, got, aborted)
			}
		case "reported":
			reported = rep.States[o.N]
			err = cl.PostReportBeforeSuiteCompleted(reported)
		case "setup":
			setup, setupData = rep.States[o.N], o.Text
			err = cl.PostSynchronizedBeforeSuiteCompleted(setup, []byte(setupData))
		case "die":
			gone[o.Proc].Store(true)
		default:
			wait(o.Op, o.Proc)
		}
		if err != nil {
			return vf.Fail("process %d: %s: %v", o.Proc, o.Op, err)
		}
		if err := emitted(); err != nil {
			return vf.Fail("after %s by process %d: %v", o.Op, o.Proc, err)
		}
		if err := settle(); err != nil {
			return vf.Fail("after %s by process %d: %v", o.Op, o.Proc, err)
		}
		if got := buf.String(); got != printed {
			return vf.Fail("after %s by process %d: the output is %q, want %q", o.Op, o.Proc, got, printed)
		}
		select {
		case <-server.GetSuiteDone():
			if ended != c.Procs {
				return vf.Fail("after %s by process %d: the suite is done, but only %d of %d processes have ended", o.Op, o.Proc, ended, c.Procs)
			}
		default:
			if ended == c.Procs {
				return vf.Fail("after %s by process %d: the suite is not done, but all processes have ended", o.Op, o.Proc)
			}
		}
	}
	n := 0
	for _, called := range calls {
		if called {
			n++
		}
	}
	out.NonTrivial = n >= 2
	if c.HTTP {
		out.Classes = append(out.Classes, "http")
	}
	return out
}

// P04 concurrent: calls made at the same time.
type crowdCase struct {
	Procs, Each int
	HTTP        bool
	Late        []int // how many specs a process has reported before it says that the suite begins
}

func TestP04_crowd(t *testing.T) {
	vf.Run(t, vf.Prop[crowdCase]{ID: "P04", Sub: "crowd", Rule: "several processes reported several specs each", Quick: 6000, Thorough: 200000, CaseLimit: 60 * time.Second,
		Gen: func(t *rapid.T) crowdCase {
			c := crowdCase{Procs: vf.Range(t, "procs", 2, 6), Each: vf.Range(t, "each", 1, 12), HTTP: vf.Pct(t, "http", 25)}
			for i := 0; i < c.Procs; i++ {
				c.Late = append(c.Late, vf.Range(t, "late", 0, c.Each))
			}
			return c
		},
		Check: checkCrowd})
}

func checkCrowd(c crowdCase) vf.Outcome {
	protocol(c.HTTP)
	rec := &recorder{}
	server, err := parallel_support.NewServer(c.Procs, rec)
	if err != nil {
		return vf.Outcome{Err: err}
	}
	buf := &safeBuf{}
	server.SetOutputDestination(buf)
	server.Start()
	defer server.Close()
	gone := make([]atomic.Bool, c.Procs+1)
	numbers := make([][]int, c.Procs+1)
	errs := make([]error, c.Procs+1)
	var early error // what process 1 saw too early
	var total types.Report
	var wg sync.WaitGroup
	for i := 1; i <= c.Procs; i++ {
		g := &gone[i]
		server.RegisterAlive(i, func() bool { return !g.Load() })
	}
	for i := 1; i <= c.Procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer gone[i].Store(true)
			cl := parallel_support.NewClient(server.Address())
			if !cl.Connect() {
				errs[i] = fmt.Errorf("cannot connect")
				return
			}
			defer cl.Close()
			try := func(err error) {
				if errs[i] == nil {
					errs[i] = err
				}
			}
			r := types.Report{SuiteDescription: "crowd", SuiteSucceeded: true}
			for k := 0; k <= c.Each; k++ {
				if k == c.Late[i-1] {
					try(cl.PostSuiteWillBegin(types.Report{SuiteDescription: "crowd"}))
				}
				if k == c.Each {
					break
				}
				n, err := cl.FetchNextCounter()
				try(err)
				numbers[i] = append(numbers[i], n)
				s := types.SpecReport{LeafNodeText: fmt.Sprintf("%d/%d", i, k), ParallelProcess: i, State: types.SpecStatePassed}
				r.SpecReports = append(r.SpecReports, s)
				try(cl.PostDidRun(s))
				_, err = cl.Write([]byte(fmt.Sprintf("<%d/%d>", i, k)))
				try(err)
			}
			if i == 1 {
				try(cl.BlockUntilNonprimaryProcsHaveFinished())
				for j := 2; j <= c.Procs; j++ {
					if !gone[j].Load() {
						early = fmt.Errorf("process 1 was told that the others have finished, but process %d has not", j)
					}
				}
				var err error
				total, err = cl.BlockUntilAggregatedNonprimaryProcsReport()
				try(err)
			}
			try(cl.PostSuiteDidEnd(r))
		}(i)
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return vf.Fail("process %d: %v", i, err)
		}
	}
	if early != nil {
		return vf.Outcome{Err: early}
	}
	var all []int
	for i, ns := range numbers {
		for k, n := range ns {
			if k > 0 && n <= ns[k-1] {
				return vf.Fail("process %d drew %d after %d", i, n, ns[k-1])
			}
		}
		all = append(all, ns...)
	}
	sort.Ints(all)
	for k, n := range all {
		if n != k {
			return vf.Fail("the counter gave out %v", all)
		}
	}
	if got := len(total.SpecReports); got != (c.Procs-1)*c.Each {
		return vf.Fail("the report of the other processes has %d specs, want %d", got, (c.Procs-1)*c.Each)
	}
	next := make([]int, c.Procs+1)
	ev := rec.events
	if len(ev) != 2*c.Procs*c.Each+2 || ev[0].Kind != "begin" || ev[len(ev)-1].Kind != "end" {
		return vf.Fail("%d events were reported, want %d, from the beginning to the end of the suite", len(ev), 2*c.Procs*c.Each+2)
	}
	for k := 1; k < len(ev)-1; k += 2 {
		a, b := ev[k], ev[k+1]
		if a.Kind != "will" || b.Kind != "did" || a.Spec.LeafNodeText != b.Spec.LeafNodeText {
			return vf.Fail("%s of %s is followed by %s of %s", a.Kind, a.Spec.LeafNodeText, b.Kind, b.Spec.LeafNodeText)
		}
		i := a.Spec.ParallelProcess
		if want := fmt.Sprintf("%d/%d", i, next[i]); a.Spec.LeafNodeText != want {
			return vf.Fail("process %d: %s was reported where %s is due", i, a.Spec.LeafNodeText, want)
		}
		next[i]++
	}
	if got := len(ev[len(ev)-1].Report.SpecReports); got != c.Procs*c.Each {
		return vf.Fail("the final report has %d specs, want %d", got, c.Procs*c.Each)
	}
	// the writes of each process come out whole and in order
	text := buf.String()
	for i := 1; i <= c.Procs; i++ {
		at := 0
		for k := 0; k < c.Each; k++ {
			w := fmt.Sprintf("<%d/%d>", i, k)
			j := bytes.Index([]byte(text[at:]), []byte(w))
			if j < 0 {
				return vf.Fail("%s is missing from the output, or out of order: %s", w, text)
			}
			at += j + len(w)
		}
	}
	out := vf.Outcome{NonTrivial: c.Each >= 2}
	if c.HTTP {
		out.Classes = append(out.Classes, "http")
	}
	return out
}

// P04 leaving: processes that deliver what others wait for, and are gone at once.
type leaveCase struct {
	Procs   int
	HTTP    bool
	What    string // setup, before, reports
	Deliver []bool // by process; for setup and before the first counts
	Size    int    // of the data
	Slow    int    // how long it takes to find out whether a process is alive (µs)
	Wait    []int  // when a process delivers (µs)
	Same    bool   // the waiting processes begin together
}

func TestP04_leave(t *testing.T) {
	vf.Run(t, vf.Prop[leaveCase]{ID: "P04", Sub: "leave", Rule: "what was waited for was delivered by a process that then left", Quick: 4000, Thorough: 120000, CaseLimit: 60 * time.Second,
		Gen: func(t *rapid.T) leaveCase {
			c := leaveCase{Procs: vf.Range(t, "procs", 2, 9), HTTP: vf.Pct(t, "http", 40), What: vf.Pick(t, "what", "setup", "before", "reports"),
				Size: vf.Pick(t, "size", 0, 1, 100, 100000), Slow: vf.Pick(t, "slow", 0, 0, 100, 1000, 2000, 3000), Same: vf.Pct(t, "same", 50)}
			for i := 0; i < c.Procs; i++ {
				c.Deliver = append(c.Deliver, vf.Pct(t, "deliver", 90))
				c.Wait = append(c.Wait, vf.U(t, "wait", 8000))
			}
			return c
		},
		Check: checkLeave})
}

func checkLeave(c leaveCase) vf.Outcome {
	protocol(c.HTTP)
	server, err := parallel_support.NewServer(c.Procs, &recorder{})
	if err != nil {
		return vf.Outcome{Err: err}
	}
	server.SetOutputDestination(&safeBuf{})
	server.Start()
	defer server.Close()
	gone := make([]atomic.Bool, c.Procs+1)
	clients := make([]parallel_support.Client, c.Procs+1)
	for i := 1; i <= c.Procs; i++ {
		server.RegisterAlive(i, func() bool {
			time.Sleep(time.Duration(c.Slow) * time.Microsecond)
			return !gone[i].Load()
		})
		clients[i] = parallel_support.NewClient(server.Address())
		if !clients[i].Connect() {
			return vf.Fail("cannot connect")
		}
		defer clients[i].Close()
	}
	data := bytes.Repeat([]byte("d"), c.Size)
	all := true
	for i := 2; i <= c.Procs; i++ {
		all = all && c.Deliver[i-1]
	}
	errs := make([]error, c.Procs+1)
	var wg sync.WaitGroup
	deliver := func(i int, f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(c.Wait[i-1]) * time.Microsecond)
			if c.Deliver[i-1] {
				errs[i] = f()
			}
			gone[i].Store(true)
		}()
	}
	wait := func(i int, delivered bool, f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !c.Same {
				time.Sleep(time.Duration(c.Wait[i-1]) * time.Microsecond)
			}
			err := f()
			if delivered {
				errs[i] = err
			} else if err == nil {
				errs[i] = fmt.Errorf("was not told that what it waits for will never come")
			}
		}()
	}
	switch c.What {
	case "setup":
		deliver(1, func() error { return clients[1].PostSynchronizedBeforeSuiteCompleted(types.SpecStatePassed, data) })
		for i := 2; i <= c.Procs; i++ {
			wait(i, c.Deliver[0], func() error {
				state, got, err := clients[i].BlockUntilSynchronizedBeforeSuiteData()
				if err == nil && (state != types.SpecStatePassed || !bytes.Equal(got, data)) {
					return fmt.Errorf("was given %d bytes and the state %v instead of %d bytes", len(got), state, len(data))
				}
				return err
			})
		}
	case "before":
		deliver(1, func() error { return clients[1].PostReportBeforeSuiteCompleted(types.SpecStatePassed) })
		for i := 2; i <= c.Procs; i++ {
			wait(i, c.Deliver[0], func() error {
				state, err := clients[i].BlockUntilReportBeforeSuiteCompleted()
				if err == nil && state != types.SpecStatePassed {
					return fmt.Errorf("was given the state %v", state)
				}
				return err
			})
		}
	case "reports":
		for i := 2; i <= c.Procs; i++ {
			deliver(i, func() error {
				return clients[i].PostSuiteDidEnd(types.Report{SuiteSucceeded: true, SpecReports: types.SpecReports{{LeafNodeText: fmt.Sprint(i)}}})
			})
		}
		wait(1, all, func() error {
			r, err := clients[1].BlockUntilAggregatedNonprimaryProcsReport()
			if err == nil && len(r.SpecReports) != c.Procs-1 {
				return fmt.Errorf("was given the reports of %d specs of %d", len(r.SpecReports), c.Procs-1)
			}
			return err
		})
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return vf.Fail("process %d: %v", i, err)
		}
	}
	out := vf.Outcome{NonTrivial: c.What == "reports" && all || c.What != "reports" && c.Deliver[0], Classes: []string{c.What}}
	if c.HTTP {
		out.Classes = append(out.Classes, "http")
	}
	return out
}
