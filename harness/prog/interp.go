package prog

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// Ops is what a running body can ask Ginkgo to do.
type Ops interface {
	Fail(msg string)
	Skip(msg string)
	Abort(msg string)
	Recover()
	Cleanup(args ...any)
	Entry(name string, args ...any)
	By(text string, cb ...func())
	Print(s string)
	Out(s string)
}

// dslOps goes through the public DSL (and so through Ginkgo's globals).
type dslOps struct{ w *World }

func (o dslOps) Fail(msg string)                { ginkgo.Fail(msg) }
func (o dslOps) Skip(msg string)                { ginkgo.Skip(msg) }
func (o dslOps) Abort(msg string)               { ginkgo.AbortSuite(msg) }
func (o dslOps) Recover()                       {}
func (o dslOps) Cleanup(args ...any)            { ginkgo.DeferCleanup(args...) }
func (o dslOps) Entry(name string, args ...any) { ginkgo.AddReportEntry(name, args...) }
func (o dslOps) By(text string, cb ...func())   { ginkgo.By(text, cb...) }
func (o dslOps) Print(s string)                 { o.w.Writer.Print(s) }
func (o dslOps) Out(s string)                   { o.w.OI.Append(s) }

// directOps addresses one suite of several living in this process.
type directOps struct{ w *World }

func (o directOps) Fail(msg string) {
	cl := types.NewCodeLocation(1)
	o.w.Failer.Fail(msg, cl)
	panic("fail")
}
func (o directOps) Skip(msg string) {
	o.w.Failer.Skip(msg, types.NewCodeLocation(1))
	panic("skip")
}
func (o directOps) Abort(msg string) {
	o.w.Failer.AbortSuite(msg, types.NewCodeLocation(1))
	panic("abort")
}
func (o directOps) Recover() {}
func (o directOps) Cleanup(args ...any) {
	fail := func(message string, cl types.CodeLocation) { o.w.Failer.Fail(message, cl) }
	n, errs := internal.NewCleanupNode(types.NewDeprecationTracker(), fail, args...)
	for _, err := range errs {
		panic(err)
	}
	if err := o.w.Suite.PushNode(n); err != nil {
		panic(err)
	}
}
func (o directOps) Entry(name string, args ...any) {
	e, err := internal.NewReportEntry(name, types.NewCodeLocation(1), args...)
	if err == nil {
		err = o.w.Suite.AddReportEntry(e)
	}
	if err != nil {
		panic(err)
	}
}
func (o directOps) By(text string, cb ...func()) {
	if err := o.w.Suite.By(text, cb...); err != nil {
		panic(err)
	}
}
func (o directOps) Print(s string) { o.w.Writer.Print(s) }
func (o directOps) Out(s string)   { o.w.OI.Append(s) }

// World is one run of a program in this process.
type World struct {
	P        *Prog
	Proc     int
	Ops      Ops
	Suite    *internal.Suite
	Failer   *internal.Failer
	Writer   *internal.Writer
	OI       *FakeOI
	Int      *Interrupter
	Clock    func() int64 // a process-wide sequence number, for ordering across procs
	mu       sync.Mutex
	Trace    []string
	Stamps   []int64
	count    map[int]int
	release  chan bool
	die      chan bool
	ctxKept  []context.Context
	Events   []string // reporter emissions, in order (kept apart from Trace)
	Problems []string
}

func (w *World) rec(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	w.mu.Lock()
	w.Trace = append(w.Trace, s)
	if w.Clock != nil {
		w.Stamps = append(w.Stamps, w.Clock())
	}
	w.mu.Unlock()
}

func (w *World) next(id int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.count[id]++
	return w.count[id]
}

var errFromCleanup = errors.New("cleanup error")

type panicVal struct{ s string }

func (w *World) exec(tag string, id int, acts []Act, ctx context.Context) (ret error) {
	n := w.next(id)
	w.rec("%s%d#%d", tag, id, n)
	for _, a := range acts {
		if !a.Applies(n) || !a.OnProc(w.Proc) {
			continue
		}
		switch a.Op {
		case "fail":
			w.Ops.Fail(a.Msg)
		case "skip":
			w.Ops.Skip(a.Msg)
		case "abort":
			w.Ops.Abort(a.Msg)
		case "panic":
			panic(a.Msg)
		case "goexit":
			runtime.Goexit()
		case "gofail": // a failure on another goroutine; the body goes on
			done := make(chan bool)
			go func() {
				defer close(done)
				defer ginkgo.GinkgoRecover()
				defer func() {
					if _, ok := w.Ops.(directOps); ok {
						recover()
					}
				}()
				w.Ops.Fail(a.Msg)
			}()
			<-done
		case "cleanup":
			w.deferCleanup(a)
		case "entry":
			args := []any{}
			switch a.N % 3 {
			case 1:
				args = append(args, types.ReportEntryVisibilityFailureOrVerbose)
			case 2:
				args = append(args, types.ReportEntryVisibilityNever)
			}
			args = append(args, "v-"+a.Msg)
			w.Ops.Entry(a.Msg, args...)
		case "by":
			w.Ops.By(a.Msg)
		case "bycb":
			a := a
			w.Ops.By(a.Msg, func() { w.exec("B", a.ID, a.Sub, ctx) })
		case "gw":
			w.Ops.Print(a.Msg)
		case "out":
			w.Ops.Out(a.Msg)
		case "reterr":
			ret = errFromCleanup
		case "int": // an interrupt arrives; the body leaves when it is told to (or never, if it has no context)
			w.Int.Interrupt()
			w.wait(ctx, tag, id)
		case "int2": // two interrupts arrive, the body never leaves
			w.Int.Interrupt()
			if ctx != nil {
				<-ctx.Done()
			} else {
				w.hang()
			}
			w.Int.Interrupt()
			w.hang()
		case "wait":
			w.wait(ctx, tag, id)
		case "hang":
			w.hang()
		case "letgo": // abandoned bodies come back to life and leave
			w.letGo()
			time.Sleep(2 * time.Millisecond)
		case "die": // the process is gone
			close(w.die)
			select {}
		case "linger": // takes its time, unless it is told to stop
			select {
			case <-ctx.Done():
				w.rec("%s%d cut:%v", tag, id, context.Cause(ctx))
			case <-time.After(time.Duration(a.N) * time.Millisecond):
			}
		case "sleep":
			time.Sleep(time.Duration(a.N) * time.Millisecond)
		}
	}
	return ret
}

// hang never returns to the body: it blocks until the world lets go of it, then leaves the goroutine.
func (w *World) hang() {
	w.mu.Lock()
	c := w.release
	w.mu.Unlock()
	<-c
	runtime.Goexit()
}

func (w *World) letGo() {
	w.mu.Lock()
	close(w.release)
	w.release = make(chan bool)
	w.mu.Unlock()
}

// wait blocks until the node is told to stop.
func (w *World) wait(ctx context.Context, tag string, id int) {
	if ctx == nil {
		w.hang()
	}
	<-ctx.Done()
	cause := context.Cause(ctx)
	w.rec("%s%d told:%v", tag, id, cause)
}

func (w *World) deferCleanup(a Act) {
	cl := types.CodeLocation{FileName: "/prog/cleanup_test.go", LineNumber: a.ID}
	switch a.Msg {
	case "err":
		w.Ops.Cleanup(cl, func() (int, error) { e := w.exec("X", a.ID, a.Sub, nil); return 7, e })
	case "args":
		w.Ops.Cleanup(cl, func(x int, s string) error {
			if x != a.ID || s != "s" {
				w.rec("X%d bad arguments %d %s", a.ID, x, s)
			}
			return w.exec("X", a.ID, a.Sub, nil)
		}, a.ID, "s")
	case "ctx":
		args := []any{cl, func(c ginkgo.SpecContext) error { return w.exec("X", a.ID, a.Sub, c) }}
		if a.N > 0 {
			args = append(args, ginkgo.NodeTimeout(time.Duration(a.N)*time.Millisecond))
		}
		w.Ops.Cleanup(args...)
	case "ctxargs":
		w.Ops.Cleanup(cl, func(c context.Context, x int) error {
			if x != a.ID {
				w.rec("X%d bad argument %d", a.ID, x)
			}
			return w.exec("X", a.ID, a.Sub, c)
		}, a.ID)
	case "ctxboth": // Ginkgo's context and one of the caller's
		own := context.WithValue(context.Background(), "own", a.ID)
		w.Ops.Cleanup(cl, func(c ginkgo.SpecContext, mine context.Context) (string, bool, error) {
			if mine.Value("own") != a.ID {
				w.rec("X%d bad context", a.ID)
			}
			return "", false, w.exec("X", a.ID, a.Sub, c)
		}, own)
	case "ownctx": // a context of the caller's in place of Ginkgo's
		own := context.WithValue(context.Background(), "own", a.ID)
		w.Ops.Cleanup(cl, func(mine context.Context) error {
			if mine.Value("own") != a.ID {
				w.rec("X%d bad context", a.ID)
			}
			return w.exec("X", a.ID, a.Sub, nil)
		}, own)
	case "nilargs":
		w.Ops.Cleanup(cl, func(e error, m map[string]int, x int, p *int) error {
			if e != nil || m != nil || x != a.ID || p != nil {
				w.rec("X%d bad arguments %v %v %v %v", a.ID, e, m, x, p)
			}
			return w.exec("X", a.ID, a.Sub, nil)
		}, nil, map[string]int(nil), a.ID, nil)
	case "variadic":
		w.Ops.Cleanup(cl, func(x int, ss ...any) (any, error) {
			if x != a.ID || fmt.Sprint(ss) != "[s <nil>]" {
				w.rec("X%d bad arguments %d %v", a.ID, x, ss)
			}
			return nil, w.exec("X", a.ID, a.Sub, nil)
		}, a.ID, "s", nil)
	default:
		w.Ops.Cleanup(cl, func() { w.exec("X", a.ID, a.Sub, nil) })
	}
}

func (w *World) decs(n *Node) []any {
	out := []any{types.CodeLocation{FileName: n.file(), LineNumber: n.line()}}
	d := n.Dec
	if d.Focus {
		out = append(out, ginkgo.Focus)
	}
	if d.Pending {
		out = append(out, ginkgo.Pending)
	}
	if d.Serial {
		out = append(out, ginkgo.Serial)
	}
	if d.Ordered {
		out = append(out, ginkgo.Ordered)
	}
	if d.CoF {
		out = append(out, ginkgo.ContinueOnFailure)
	}
	if d.Once {
		out = append(out, ginkgo.OncePerOrdered)
	}
	if len(d.Labels) > 0 {
		out = append(out, ginkgo.Label(d.Labels...))
	}
	if d.Flake > 0 {
		out = append(out, ginkgo.FlakeAttempts(d.Flake))
	}
	if d.MPR > 0 {
		out = append(out, ginkgo.MustPassRepeatedly(d.MPR))
	}
	if d.NodeTimeoutMS > 0 {
		out = append(out, ginkgo.NodeTimeout(time.Duration(d.NodeTimeoutMS)*time.Millisecond))
	}
	if d.SpecTimeoutMS > 0 {
		out = append(out, ginkgo.SpecTimeout(time.Duration(d.SpecTimeoutMS)*time.Millisecond))
	}
	if d.GraceMS > 0 {
		out = append(out, ginkgo.GracePeriod(time.Duration(d.GraceMS)*time.Millisecond))
	}
	return out
}

func (w *World) body(n *Node) any {
	if n.Dec.Ctx {
		return func(c ginkgo.SpecContext) { w.exec(n.Kind, n.ID, n.Acts, c) }
	}
	return func() { w.exec(n.Kind, n.ID, n.Acts, nil) }
}

func specSummary(r types.SpecReport) string {
	return fmt.Sprintf("%d:%s", r.LeafNodeLocation.LineNumber, r.State)
}

func (w *World) build(n *Node) {
	args := w.decs(n)
	switch n.Kind {
	case "C":
		args = append(args, func() {
			for _, k := range n.Kids {
				w.build(k)
			}
		})
		ginkgo.Describe(n.text(), args...)
	case "It":
		ginkgo.It(n.text(), append(args, w.body(n))...)
	case "BE":
		ginkgo.BeforeEach(append(args, w.body(n))...)
	case "JBE":
		ginkgo.JustBeforeEach(append(args, w.body(n))...)
	case "AE":
		ginkgo.AfterEach(append(args, w.body(n))...)
	case "JAE":
		ginkgo.JustAfterEach(append(args, w.body(n))...)
	case "BA":
		ginkgo.BeforeAll(append(args, w.body(n))...)
	case "AA":
		ginkgo.AfterAll(append(args, w.body(n))...)
	case "RBE":
		ginkgo.ReportBeforeEach(func(r types.SpecReport) {
			w.rec("RBE%d sees %s", n.ID, specSummary(r))
			w.exec("RBE", n.ID, n.Acts, nil)
		}, args...)
	case "RAE":
		ginkgo.ReportAfterEach(func(r types.SpecReport) {
			w.rec("RAE%d sees %s", n.ID, specSummary(r))
			w.exec("RAE", n.ID, n.Acts, nil)
		}, args...)
	case "BS":
		ginkgo.BeforeSuite(w.body(n), args...)
	case "AS":
		ginkgo.AfterSuite(w.body(n), args...)
	case "SBS":
		if n.Dec.Ctx {
			ginkgo.SynchronizedBeforeSuite(func(c ginkgo.SpecContext) []byte {
				w.exec("SBS", n.ID, n.Acts, c)
				return n.SBSData()
			}, func(c ginkgo.SpecContext, data []byte) {
				w.rec("SBSall%d data=%q", n.ID, data)
				w.exec("SBSall", -n.ID, n.Acts2, c)
			}, args...)
			return
		}
		ginkgo.SynchronizedBeforeSuite(func() []byte {
			w.exec("SBS", n.ID, n.Acts, nil)
			return n.SBSData()
		}, func(data []byte) {
			w.rec("SBSall%d data=%q", n.ID, data)
			w.exec("SBSall", -n.ID, n.Acts2, nil)
		}, args...)
	case "SAS":
		if n.Dec.Ctx {
			ginkgo.SynchronizedAfterSuite(func(c ginkgo.SpecContext) { w.exec("SAS", n.ID, n.Acts, c) },
				func(c ginkgo.SpecContext) { w.exec("SASone", -n.ID, n.Acts2, c) }, args...)
			return
		}
		ginkgo.SynchronizedAfterSuite(func() { w.exec("SAS", n.ID, n.Acts, nil) },
			func() { w.exec("SASone", -n.ID, n.Acts2, nil) }, args...)
	case "RBS":
		ginkgo.ReportBeforeSuite(func(r types.Report) {
			w.rec("RBS%d sees %d specs of %d/%d ok=%v", n.ID, its(r), r.PreRunStats.SpecsThatWillRun, r.PreRunStats.TotalSpecs, r.SuiteSucceeded)
			w.exec("RBS", n.ID, n.Acts, nil)
		}, args...)
	case "RAS":
		ginkgo.ReportAfterSuite(n.text(), func(r types.Report) {
			w.rec("RAS%d sees %d specs ok=%v", n.ID, its(r), r.SuiteSucceeded)
			w.exec("RAS", n.ID, n.Acts, nil)
		}, args...)
	default:
		panic("unknown node kind " + n.Kind)
	}
}

// Build enters the whole program into a fresh suite.
func (w *World) Build() error {
	oldSuite, oldFailer := global.Suite, global.Failer
	global.Suite, global.Failer = w.Suite, w.Failer
	defer func() { global.Suite, global.Failer = oldSuite, oldFailer }()
	for _, n := range w.P.Suite {
		w.build(n)
	}
	for _, n := range w.P.Top {
		w.build(n)
	}
	return w.Suite.BuildTree()
}

// PreviewThenRun previews the program with PreviewSpecs and then runs it, as one process would.
func PreviewThenRun(p *Prog) (preview types.Report, traceDuring []string, changed string, res *Result) {
	w := NewWorld(p, 1)
	oldSuite, oldFailer := global.Suite, global.Failer
	global.Suite, global.Failer = w.Suite, w.Failer
	defer func() { global.Suite, global.Failer = oldSuite, oldFailer }()
	for _, n := range w.P.Suite {
		w.build(n)
	}
	for _, n := range w.P.Top {
		w.build(n)
	}
	conf := p.Config()
	if k := int(p.Conf.Seed % 4); k > 1 { // as one of several processes
		conf.ParallelTotal, conf.ParallelProcess, conf.ParallelHost = k, 1+int(p.Conf.Seed/4)%k, "127.0.0.1:1"
	}
	preview = ginkgo.PreviewSpecs(p.desc(), ginkgo.Label(p.Conf.SuiteLabels...), conf)
	if now, _ := ginkgo.GinkgoConfiguration(); fmt.Sprintf("%+v", now) != fmt.Sprintf("%+v", conf) {
		changed = fmt.Sprintf("%+v instead of %+v", now, conf)
	}
	w.mu.Lock()
	traceDuring, w.Trace, w.count = w.Trace, nil, map[int]int{}
	w.mu.Unlock()
	w.Suite = global.Suite
	res = &Result{}
	if res.BuildErr = w.Suite.BuildTree(); res.BuildErr != nil {
		return
	}
	w.runSerial(res)
	return
}

// Config is the suite configuration of a program.
func (p *Prog) Config() types.SuiteConfig {
	c := p.Conf
	conf := types.SuiteConfig{
		RandomSeed: c.Seed, RandomizeAllSpecs: c.RandomizeAll, FocusStrings: c.Focus, SkipStrings: c.Skip,
		FocusFiles: c.FocusFiles, SkipFiles: c.SkipFiles, LabelFilter: c.LabelFilter,
		FailOnPending: c.FailOnPending, FailOnEmpty: c.FailOnEmpty, FailFast: c.FailFast, FlakeAttempts: c.Flake, MustPassRepeatedly: c.MPR,
		DryRun: c.DryRun, Timeout: time.Duration(c.TimeoutMS) * time.Millisecond,
		GracePeriod: 300 * time.Second, ParallelProcess: 1, ParallelTotal: 1,
	}
	if c.GraceMS > 0 {
		conf.GracePeriod = time.Duration(c.GraceMS) * time.Millisecond
	}
	if conf.Timeout == 0 {
		conf.Timeout = time.Hour
	}
	return conf
}

// Result is what a run showed.
type Result struct {
	Trace    []string // bodies entered, "will"/"did" markers, in order
	Stamps   []int64
	Reports  []types.SpecReport
	Report   types.Report
	Success  bool
	HasFocus bool
	BuildErr error
	Began    int
	Ended    int
	Emitted  []string
}

// NewWorld prepares a run of p as process proc.
func NewWorld(p *Prog, proc int) *World {
	w := &World{P: p, Proc: proc, count: map[int]int{}, release: make(chan bool), Suite: internal.NewSuite(), Failer: internal.NewFailer(),
		Writer: internal.NewWriter(io.Discard), OI: NewFakeOI(), Int: NewInterrupter()}
	w.Writer.SetMode(internal.WriterModeBufferOnly)
	w.Ops = dslOps{w}
	return w
}

func noProgress(func()) context.CancelFunc { return func() {} }

// RunSerial runs the program in this process, as a single Ginkgo process would.
func RunSerial(p *Prog) *Result {
	w := NewWorld(p, 1)
	res := &Result{}
	if res.BuildErr = w.Build(); res.BuildErr != nil {
		return res
	}
	oldSuite, oldFailer := global.Suite, global.Failer
	global.Suite, global.Failer = w.Suite, w.Failer
	defer func() { global.Suite, global.Failer = oldSuite, oldFailer }()
	w.runSerial(res)
	return res
}

func (w *World) runSerial(res *Result) {
	p := w.P
	rep := &Recorder{w: w, res: res}
	res.Success, res.HasFocus = w.Suite.Run(p.desc(), ginkgo.Label(p.Conf.SuiteLabels...), "/prog", w.Failer, rep, w.Writer, w.OI, w.Int, nil, noProgress, p.Config())
	w.mu.Lock()
	res.Trace = append([]string{}, w.Trace...)
	w.mu.Unlock()
	w.letGo()
}

func (p *Prog) desc() string {
	if p.Conf.Desc == "" {
		return "Suite"
	}
	return p.Conf.Desc
}

// RunDirect runs one process of a parallel run (suite already built).
func (w *World) RunDirect(res *Result, ih interrupt_handler.InterruptHandlerInterface, client parallel_support.Client, conf types.SuiteConfig) {
	w.Ops = directOps{w}
	rep := &Recorder{w: w, res: res}
	res.Success, res.HasFocus = w.Suite.Run(w.P.desc(), ginkgo.Label(w.P.Conf.SuiteLabels...), "/prog", w.Failer, rep, w.Writer, w.OI, ih, client, noProgress, conf)
	w.mu.Lock()
	res.Trace, res.Stamps = append([]string{}, w.Trace...), append([]int64{}, w.Stamps...)
	w.mu.Unlock()
	w.letGo()
}

// Recorder is a reporter that records.
type Recorder struct {
	w   *World
	res *Result
	mu  sync.Mutex
}

var _ reporters.Reporter = &Recorder{}

func (r *Recorder) SuiteWillBegin(report types.Report) { r.res.Began++ }
func (r *Recorder) WillRun(s types.SpecReport) {
	r.w.rec("will %s %d %s", s.LeafNodeType, s.LeafNodeLocation.LineNumber, s.State)
}
func (r *Recorder) DidRun(s types.SpecReport) {
	r.w.rec("did %s %d %s", s.LeafNodeType, s.LeafNodeLocation.LineNumber, s.State)
	r.res.Reports = append(r.res.Reports, s)
}
func (r *Recorder) SuiteDidEnd(report types.Report) { r.res.Ended++; r.res.Report = report }
func (r *Recorder) emit(format string, args ...any) {
	r.mu.Lock()
	r.res.Emitted = append(r.res.Emitted, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}
func (r *Recorder) EmitFailure(state types.SpecState, f types.Failure) {
	r.emit("failure %s %s", state, f.Message)
}
func (r *Recorder) EmitProgressReport(p types.ProgressReport) {
	r.emit("progress %s", strings.SplitN(p.Message, "\n", 2)[0])
}
func (r *Recorder) EmitReportEntry(e types.ReportEntry) { r.emit("entry %s", e.Name) }
func (r *Recorder) EmitSpecEvent(e types.SpecEvent) {
	r.emit("event %s %s", e.SpecEventType, e.Message)
}

// FakeOI is an output interceptor that is fed by hand.
type FakeOI struct {
	mu sync.Mutex
	on bool
	b  strings.Builder
	fw io.Writer
}

func NewFakeOI() *FakeOI                   { return &FakeOI{} }
func (o *FakeOI) StartInterceptingOutput() { o.StartInterceptingOutputAndForwardTo(io.Discard) }
func (o *FakeOI) PauseIntercepting()       {}
func (o *FakeOI) ResumeIntercepting()      {}
func (o *FakeOI) Shutdown()                {}
func (o *FakeOI) StartInterceptingOutputAndForwardTo(w io.Writer) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.on { // as the real ones: a no-op while intercepting
		return
	}
	o.on, o.fw = true, w
	o.b.Reset()
}
func (o *FakeOI) StopInterceptingAndReturnOutput() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.on {
		return ""
	}
	o.on = false
	s := o.b.String()
	o.b.Reset()
	return s
}
func (o *FakeOI) Append(s string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.on {
		o.b.WriteString(s)
		o.fw.Write([]byte(s))
	}
}

// Interrupter plays the interrupt handler: interrupts arrive when a body asks for one.
type Interrupter struct {
	mu    sync.Mutex
	c     chan any
	level interrupt_handler.InterruptLevel
}

func NewInterrupter() *Interrupter { return &Interrupter{c: make(chan any)} }
func (i *Interrupter) Interrupt() {
	i.mu.Lock()
	defer i.mu.Unlock()
	if i.level >= interrupt_handler.InterruptLevelBailOut {
		return
	}
	i.level++
	old := i.c
	i.c = make(chan any)
	close(old)
}
func (i *Interrupter) Status() interrupt_handler.InterruptStatus {
	i.mu.Lock()
	defer i.mu.Unlock()
	st := interrupt_handler.InterruptStatus{Channel: i.c, Level: i.level}
	if i.level > 0 {
		st.Cause = interrupt_handler.InterruptCauseSignal
	}
	return st
}

func its(r types.Report) int {
	n := 0
	for _, s := range r.SpecReports {
		if s.LeafNodeType.Is(types.NodeTypeIt) {
			n++
		}
	}
	return n
}

// TraceNow is what the world has recorded so far.
func (w *World) TraceNow() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string{}, w.Trace...)
}
