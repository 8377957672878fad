package progress

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// a poll is a time in milliseconds, or -1 if it is not set.
type pollNode struct {
	Type            types.NodeType
	After, Interval int
	Wait            int // for so many reports
	Writes          bool
}

type pollCase struct {
	After, Interval int // of the suite
	Nodes           []pollNode
}

type pollRun struct {
	reporters.NoopReporter
	mu      sync.Mutex
	reports []types.ProgressReport
	news    chan bool
}

func (r *pollRun) EmitProgressReport(p types.ProgressReport) {
	r.mu.Lock()
	r.reports = append(r.reports, p)
	r.mu.Unlock()
	select {
	case r.news <- true:
	default:
	}
}

func (r *pollRun) all() []types.ProgressReport {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]types.ProgressReport{}, r.reports...)
}

// C06: what takes long is reported on its own.
func TestC06_polling(t *testing.T) {
	vf.Run(t, vf.Prop[pollCase]{ID: "C06", Sub: "polling", Rule: "a node that is polled twice, or whose settings are not those of the suite", Quick: 500, Thorough: 20000,
		Gen: func(t *rapid.T) (c pollCase) {
			c.After, c.Interval = vf.Pick(t, "after", 0, 0, 5, 15, 30), vf.Pick(t, "interval", 0, 5, 10, 20)
			types := []types.NodeType{types.NodeTypeBeforeSuite, types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeIt, types.NodeTypeJustAfterEach, types.NodeTypeAfterEach, types.NodeTypeAfterSuite, types.NodeTypeReportAfterEach}
			for _, nt := range types {
				if n := (pollNode{Type: nt, After: vf.Pick(t, "node after", -1, -1, -1, 0, 4, 12, 25), Interval: vf.Pick(t, "node interval", -1, -1, 0, 4, 12), Wait: vf.Range(t, "wait", 1, 3), Writes: vf.Pct(t, "writes", 50)}); vf.Pct(t, "there", 30) || nt.Is(types[3]) {
					c.Nodes = append(c.Nodes, n)
				}
			}
			return
		},
		Check: checkPolling})
}

func checkPolling(c pollCase) (out vf.Outcome) {
	r := &pollRun{news: make(chan bool, 1)}
	suite, failer, writer := internal.NewSuite(), internal.NewFailer(), internal.NewWriter(io.Discard)
	oldSuite, oldFailer := global.Suite, global.Failer
	global.Suite, global.Failer = suite, failer
	defer func() { global.Suite, global.Failer = oldSuite, oldFailer }()
	problem := ""
	wrong := func(format string, args ...any) {
		if problem == "" {
			problem = fmt.Sprintf(format, args...)
		}
	}
	polled := 0
	run := func(n pollNode) {
		after, interval := n.After, n.Interval
		if after < 0 {
			after = c.After
		}
		if interval < 0 {
			interval = c.Interval
		}
		what := fmt.Sprintf("%s that is to be polled after %d ms and every %d ms", n.Type, after, interval)
		before := len(r.all())
		want := n.Wait
		switch {
		case after == 0:
			want = 0
		case interval == 0:
			want = 1
		}
		for len(r.all()) < before+want {
			select {
			case <-r.news:
			case <-time.After(20 * time.Second):
				wrong("%s: %d reports in 20 s", what, len(r.all())-before)
				return
			}
		}
		if want == 0 || interval == 0 {
			time.Sleep(time.Duration(max(c.After, c.Interval, after, 5)+10) * time.Millisecond)
		}
		reports := r.all()[before:]
		if n := len(reports); n < want || n > want && (want == 0 || interval == 0) {
			wrong("%s: %d reports, want %d", what, n, want)
		}
		var last time.Time
		for i, p := range reports {
			at := p.TimelineLocation.Time
			if i == 0 && at.Sub(p.CurrentNodeStartTime) < time.Duration(after)*time.Millisecond {
				wrong("%s: the first report came after %v", what, at.Sub(p.CurrentNodeStartTime))
			} else if i > 0 && at.Sub(last) < time.Duration(interval)*time.Millisecond {
				wrong("%s: report %d came %v after the one before it", what, i+1, at.Sub(last))
			}
			last = at
			if p.CurrentNodeType != n.Type || p.SpecGoroutine().ID != goid() {
				wrong("%s: there is a report of a %s in goroutine %d", what, p.CurrentNodeType, p.SpecGoroutine().ID)
			}
			if p.Message != "{{bold}}Automatically polling progress:{{/}}" {
				wrong("%s: the report says %q", what, p.Message)
			}
		}
		polled = max(polled, len(reports))
		if n.Writes {
			fmt.Fprint(writer, "done\n")
		}
	}
	for _, n := range c.Nodes {
		var args []any
		if n.Type.Is(types.NodeTypeReportAfterEach) {
			args = append(args, func(types.SpecReport) { run(n) })
		} else {
			args = append(args, func() { run(n) })
		}
		if n.After >= 0 {
			args = append(args, internal.PollProgressAfter(time.Duration(n.After)*time.Millisecond))
		}
		if n.Interval >= 0 {
			args = append(args, internal.PollProgressInterval(time.Duration(n.Interval)*time.Millisecond))
		}
		text := ""
		if n.Type.Is(types.NodeTypeIt) {
			text = "spec"
		}
		node, errs := internal.NewNode(types.NewDeprecationTracker(), n.Type, text, args...)
		if len(errs) > 0 {
			return vf.Fail("%v", errs[0])
		}
		if err := suite.PushNode(node); err != nil {
			return vf.Fail("%v", err)
		}
	}
	if err := suite.BuildTree(); err != nil {
		return vf.Fail("%v", err)
	}
	conf := types.SuiteConfig{RandomSeed: 1, ParallelProcess: 1, ParallelTotal: 1, Timeout: time.Hour, GracePeriod: time.Minute,
		PollProgressAfter: time.Duration(c.After) * time.Millisecond, PollProgressInterval: time.Duration(c.Interval) * time.Millisecond}
	register := func(func()) context.CancelFunc { return func() {} }
	if ok, _ := suite.Run("suite", nil, "/suite", failer, r, writer, prog.NewFakeOI(), prog.NewInterrupter(), nil, register, conf); !ok && problem == "" {
		wrong("the suite failed")
	}
	if problem != "" {
		return vf.Fail("%s", problem)
	}
	other := false
	for _, n := range c.Nodes {
		other = other || n.After >= 0 && n.After != c.After
	}
	return vf.Outcome{NonTrivial: polled > 1 || other, Classes: []string{fmt.Sprintf("%d polls", min(polled, 3))}}
}
