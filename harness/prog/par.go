package prog

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/types"
)

// ServerEvent is something the parallel server told its reporter.
type ServerEvent struct {
	Kind   string // begin, will, did, end, progress
	Spec   types.SpecReport
	Report types.Report
	Msg    string
	Stamp  int64
}

// ParResult is what a parallel run showed.
type ParResult struct {
	BuildErr error
	Procs    []*Result // by process
	Worlds   []*World
	Server   []ServerEvent
	Done     bool // the server considers the suite finished
	Out      string
	Died     []bool
}

type serverRec struct {
	mu    sync.Mutex
	res   *ParResult
	clock func() int64
}

func (r *serverRec) add(e ServerEvent) {
	e.Stamp = r.clock()
	r.mu.Lock()
	r.res.Server = append(r.res.Server, e)
	r.mu.Unlock()
}
func (r *serverRec) SuiteWillBegin(report types.Report) {
	r.add(ServerEvent{Kind: "begin", Report: report})
}
func (r *serverRec) WillRun(s types.SpecReport)                 { r.add(ServerEvent{Kind: "will", Spec: s}) }
func (r *serverRec) DidRun(s types.SpecReport)                  { r.add(ServerEvent{Kind: "did", Spec: s}) }
func (r *serverRec) SuiteDidEnd(report types.Report)            { r.add(ServerEvent{Kind: "end", Report: report}) }
func (r *serverRec) EmitFailure(types.SpecState, types.Failure) {}
func (r *serverRec) EmitProgressReport(p types.ProgressReport) {
	r.add(ServerEvent{Kind: "progress", Msg: p.Message})
}
func (r *serverRec) EmitReportEntry(types.ReportEntry) {}
func (r *serverRec) EmitSpecEvent(types.SpecEvent)     {}

type lockedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b = append(l.b, p...)
	return len(p), nil
}

// ParOptions are the circumstances of a parallel run.
type ParOptions struct {
	Procs int
	HTTP  bool
	Abort bool  // with real interrupt handlers, so that one process can stop the others
	Late  []int // ms by which a process starts late
}

// RunParallel runs the program on several "processes" in this one, each with a suite of its own, that talk to a real
// server over the loopback interface.
func RunParallel(p *Prog, o ParOptions) (*ParResult, error) {
	parallel_support.POLLING_INTERVAL = time.Millisecond
	interrupt_handler.ABORT_POLLING_INTERVAL = 2 * time.Millisecond
	os.Unsetenv("GINKGO_PARALLEL_PROTOCOL")
	if o.HTTP {
		os.Setenv("GINKGO_PARALLEL_PROTOCOL", "HTTP")
	}
	var stamp atomic.Int64
	clock := func() int64 { return stamp.Add(1) }
	pr := &ParResult{Procs: make([]*Result, o.Procs), Died: make([]bool, o.Procs)}
	rec := &serverRec{res: pr, clock: clock}
	server, err := parallel_support.NewServer(o.Procs, rec)
	if err != nil {
		return nil, err
	}
	buf := &lockedBuf{}
	server.SetOutputDestination(buf)
	server.Start()
	defer server.Close()
	gone := make([]atomic.Bool, o.Procs)
	for i := 1; i <= o.Procs; i++ {
		w := NewWorld(p, i)
		w.Clock = clock
		pr.Worlds = append(pr.Worlds, w)
		pr.Procs[i-1] = &Result{}
		if pr.BuildErr = w.Build(); pr.BuildErr != nil {
			return pr, nil
		}
		if i > len(o.Late) { // the others are registered as they start
			server.RegisterAlive(i, func() bool { return !gone[i-1].Load() })
		}
	}
	var wg sync.WaitGroup
	errs := make(chan error, o.Procs)
	for i := 1; i <= o.Procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if i-1 < len(o.Late) {
				time.Sleep(time.Duration(o.Late[i-1]) * time.Millisecond)
				server.RegisterAlive(i, func() bool { return !gone[i-1].Load() })
			}
			client := parallel_support.NewClient(server.Address())
			if !client.Connect() {
				gone[i-1].Store(true)
				errs <- fmt.Errorf("process %d cannot connect", i)
				return
			}
			defer client.Close()
			w := pr.Worlds[i-1]
			conf := p.Config()
			conf.ParallelProcess, conf.ParallelTotal, conf.ParallelHost = i, o.Procs, server.Address()
			var ih interrupt_handler.InterruptHandlerInterface = w.Int
			if o.Abort {
				h := interrupt_handler.NewInterruptHandler(client, os.Signal(unusedSignal))
				defer h.Stop()
				ih = h
			}
			over := make(chan bool)
			w.die = make(chan bool)
			go func() {
				defer close(over)
				w.RunDirect(pr.Procs[i-1], ih, client, conf)
			}()
			select {
			case <-over:
			case <-w.die: // the process is gone: nothing more is heard from it
				pr.Died[i-1] = true
			}
			gone[i-1].Store(true)
		}(i)
	}
	wg.Wait()
	select {
	case <-server.GetSuiteDone():
		pr.Done = true
	default:
	}
	rec.mu.Lock()
	defer rec.mu.Unlock()
	buf.mu.Lock()
	pr.Out = string(buf.b)
	buf.mu.Unlock()
	select {
	case err := <-errs:
		return pr, err
	default:
	}
	return pr, nil
}

// unusedSignal is a signal nobody sends.
const unusedSignal = syscall.SIGWINCH
