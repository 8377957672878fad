package progress

import (
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	ginkgo "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

var dirs = []string{"a", "a/sub", "b", "c", "d", "elsewhere"}

// act is something that a node does.
type act struct {
	Kind string
	N    int   `json:",omitempty"`
	F    []int `json:",omitempty"`
	Acts []act `json:",omitempty"`
}

type node struct {
	ID    int
	Type  types.NodeType
	Dir   int
	Plain bool // the body takes no context
	Acts  []act
	Leak  bool `json:",omitempty"`
}

type container struct {
	Dir   int
	Nodes []node
	Inner *container `json:",omitempty"`
}

type progressCase struct {
	Nodes   []node
	Boxes   []container
	Between bool `json:",omitempty"` // ask when no node runs, too
	Crowd   int  `json:",omitempty"` // so many goroutines that have nothing to do with it
}

func genActs(t *rapid.T, nt types.NodeType, depth int) (out []act) {
	for n := vf.U(t, "acts", 5); n > 0; n-- {
		a := act{Kind: vf.Pick(t, "act", "write", "write", "by", "steps", "attach", "attach to the suite", "detach", "go", "request", "request", "request", "cleanup"), N: vf.U(t, "n", 1000)}
		switch a.Kind {
		case "steps":
			if depth == 0 {
				continue
			}
			a.Acts = genActs(t, nt, depth-1)
		case "cleanup":
			if depth == 0 || nt.Is(types.NodeTypeReportBeforeEach|types.NodeTypeReportAfterEach|types.NodeTypeCleanupInvalid) {
				continue
			}
			a.Acts = genActs(t, types.NodeTypeCleanupInvalid, depth-1)
		case "go":
			for k := vf.Range(t, "calls", 1, 3); k > 0; k-- {
				a.F = append(a.F, vf.U(t, "function", len(userFuncs)))
			}
		}
		out = append(out, a)
	}
	return
}

func genNode(t *rapid.T, id *int, nt types.NodeType) node {
	*id++
	n := node{ID: *id, Type: nt, Dir: vf.U(t, "dir", len(dirs)), Plain: vf.Pct(t, "plain", 30)}
	n.Acts = genActs(t, nt, 2)
	if nt.Is(types.NodeTypeIt|types.NodeTypeAfterEach|types.NodeTypeBeforeEach) && vf.Pct(t, "leak", 3) {
		n.Leak, n.Plain = true, false
	}
	return n
}

func genBox(t *rapid.T, id *int, depth int) container {
	c := container{Dir: vf.U(t, "dir", len(dirs))}
	for n := vf.U(t, "setups", 3); n > 0; n-- {
		c.Nodes = append(c.Nodes, genNode(t, id, vf.Pick(t, "type", types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustAfterEach, types.NodeTypeReportBeforeEach, types.NodeTypeReportAfterEach)))
	}
	for n := vf.Range(t, "specs", 1, 2); n > 0; n-- {
		c.Nodes = append(c.Nodes, genNode(t, id, types.NodeTypeIt))
	}
	if depth > 0 && vf.Pct(t, "inner", 40) {
		in := genBox(t, id, depth-1)
		c.Inner = &in
	}
	return c
}

// C06: a progress report shows what runs.
func TestC06_progress(t *testing.T) {
	roots := makeSource(t)
	vf.Run(t, vf.Prop[progressCase]{ID: "C06", Sub: "progress", Rule: "two requests", Quick: 12000, Thorough: 600000,
		Gen: func(t *rapid.T) (c progressCase) {
			id := 0
			for _, nt := range []types.NodeType{types.NodeTypeBeforeSuite, types.NodeTypeAfterSuite} {
				if vf.Pct(t, "suite node", 40) {
					c.Nodes = append(c.Nodes, genNode(t, &id, nt))
				}
			}
			c.Between = vf.Pct(t, "between", 30)
			if vf.Pct(t, "crowd", 8) {
				c.Crowd = vf.Range(t, "others", 10, 900)
			}
			for n := vf.Range(t, "containers", 1, 3); n > 0; n-- {
				c.Boxes = append(c.Boxes, genBox(t, &id, 1))
			}
			return
		},
		Check: func(c progressCase) (out vf.Outcome) {
			// if the machine is slow, a node that is to be left behind may be timed out before it is where it will hang
			for _, limit := range []time.Duration{3 * time.Millisecond, 30 * time.Millisecond, 300 * time.Millisecond} {
				if out = check(c, roots, limit); out.Err == nil {
					break
				}
			}
			return
		}})
}

func makeSource(t *testing.T) []string {
	dir := t.TempDir()
	roots := []string{filepath.Join(dir, "one"), filepath.Join(dir, "two")}
	for f, ns := range onDisk {
		for i, n := range ns {
			p := filepath.Join(roots[i], "vfuser", f)
			os.MkdirAll(filepath.Dir(p), 0o755)
			switch {
			case n == -2:
				os.Mkdir(p, 0o755)
			case n >= 0:
				if err := os.WriteFile(p, []byte(strings.Join(lines(i, f, n), "\n")), 0o644); err != nil {
					t.Fatal(err)
				}
			}
		}
	}
	return roots
}

func lines(root int, file string, n int) (out []string) {
	for i := 1; i <= n; i++ {
		out = append(out, fmt.Sprintf("\tline %d of %s in %d ", i, file, root))
	}
	return
}

// source is what is to be shown of the code around a line.
func source(file string, line int) (out []string, highlight int) {
	file = strings.TrimPrefix(file, "/vfuser/")
	ns, known := onDisk[file]
	for i, n := range ns {
		if !known || n < 0 {
			continue
		}
		all := lines(i, file, n)
		if n == 0 {
			all = []string{""}
		}
		if line > len(all) { // it is not the source of this code
			return nil, 0
		}
		from, to := max(0, line-3), min(len(all), line+2)
		return all[from:to], line - 1 - from
	}
	return nil, 0
}

type attached struct {
	id   int
	kind int // 0: text, 1: blank, 2: it asks for the current spec
	undo func()
}

func (a attached) says(spec string) string {
	switch a.kind {
	case 0:
		return fmt.Sprintf("reporter %d\nsays so", a.id)
	case 2:
		return fmt.Sprintf("reporter %d is in %s", a.id, spec)
	}
	return ""
}

// ended has the goroutines of the case before.
var ended map[uint64]bool

// runner runs a case and knows what goes on.
type runner struct {
	reporters.NoopReporter
	c                      progressCase
	roots                  []string
	suite                  *internal.Suite
	failer                 *internal.Failer
	writer                 *internal.Writer
	requests, answers, end chan bool
	handler                func()
	mu                     sync.Mutex
	reports                []types.ProgressReport // emitted, of the current spec
	problems               []string
	count                  int

	// what goes on
	spec      types.SpecReport
	node      *node
	nodeType  types.NodeType
	nodeStart time.Time
	step      *types.SpecEvent
	written   string
	onCtx     []attached
	onSuite   []attached
	others    []*goroutineIs
	leaks     map[uint64]bool
	ctx       internal.SpecContext
	ids       int
	hanging   uint64
	limit     time.Duration
	moved     int
}

type goroutineIs struct {
	g *goroutine
	f []int
}

func (r *runner) wrong(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.problems = append(r.problems, fmt.Sprintf(format, args...))
}

func (r *runner) EmitProgressReport(p types.ProgressReport) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.reports = append(r.reports, p)
	if strings.Contains(p.Message, "failed to exit in time") {
		r.moved++
		r.judgeLeak(p)
	}
}

// judgeLeak looks at a report about a node that has been left behind.
func (r *runner) judgeLeak(p types.ProgressReport) {
	at := fmt.Sprintf("/vfuser/leak/leak.go:%d", 32)
	if g := p.SpecGoroutine(); !r.leaks[g.ID] || !calls(g, at, "/vfuser/body/body.go:13") || g.ID != r.hanging {
		r.problems = append(r.problems, fmt.Sprintf("the report of a leaked node has the goroutine %v, want %d", g, r.hanging))
	}
	if n := r.node; n == nil || !n.Leak || p.CurrentNodeLocation != location(n.Dir, n.ID) || p.LeafNodeLocation != r.spec.LeafNodeLocation {
		r.problems = append(r.problems, fmt.Sprintf("the report of a leaked node has the node %s", p.CurrentNodeLocation))
	}
}

func (r *runner) WillRun(s types.SpecReport) {
	r.mu.Lock()
	r.spec, r.written, r.reports, r.moved = s, "", nil, 0
	r.mu.Unlock()
	if r.c.Between {
		r.between("before")
	}
}

// between asks for a report when no node runs.
func (r *runner) between(when string) {
	r.mu.Lock()
	before := len(r.reports)
	r.mu.Unlock()
	r.wait()
	r.mu.Lock()
	reports := r.reports
	r.mu.Unlock()
	if len(reports) != before+1 {
		r.wrong("%d reports instead of one", len(reports)-before)
		return
	}
	p := reports[before]
	if p.LeafNodeText != r.spec.LeafNodeText || p.LeafNodeLocation != r.spec.LeafNodeLocation || strings.Join(p.ContainerHierarchyTexts, "|") != strings.Join(r.spec.ContainerHierarchyTexts, "|") {
		r.wrong("%s %q: the spec is %q %s", when, r.spec.FullText(), p.LeafNodeText, p.LeafNodeLocation)
	}
	if p.CurrentNodeType != types.NodeTypeInvalid || !p.CurrentNodeStartTime.IsZero() || p.CurrentNodeText != "" {
		r.wrong("%s %q: the node is %s %q", when, r.spec.FullText(), p.CurrentNodeType, p.CurrentNodeText)
	}
	for _, g := range p.Goroutines {
		if g.IsSpecGoroutine || g.ID == 0 {
			r.wrong("%s %q: no node runs, but there is the goroutine %v", when, r.spec.FullText(), g)
		}
	}
	var says []string
	for _, a := range r.onSuite {
		if a.kind != 1 {
			says = append(says, a.says(r.spec.LeafNodeText))
		}
	}
	if fmt.Sprintf("%q", p.AdditionalReports) != fmt.Sprintf("%q", says) {
		r.wrong("%s %q: the reporters say %q, want %q", when, r.spec.FullText(), p.AdditionalReports, says)
	}
	if p.CapturedGinkgoWriterOutput != r.written {
		r.wrong("%s %q: the output is %q, want %q", when, r.spec.FullText(), p.CapturedGinkgoWriterOutput, r.written)
	}
}

func (r *runner) DidRun(s types.SpecReport) {
	r.mu.Lock()
	emitted, moved := r.reports, r.moved
	r.mu.Unlock()
	if r.c.Between {
		r.between("after")
	}
	timeouts := 0
	for _, f := range append([]types.AdditionalFailure{{State: s.State, Failure: s.Failure}}, s.AdditionalFailures...) {
		if f.State != types.SpecStateTimedout {
			continue
		}
		timeouts++
		p, at := f.Failure.ProgressReport, "/vfuser/leak/leak.go:32"
		if g := p.SpecGoroutine(); !r.leaks[g.ID] || !calls(g, at, "/vfuser/body/body.go:13") {
			r.wrong("the timeout of %s in %q has the goroutine %v", f.Failure.FailureNodeLocation, s.FullText(), g)
		}
		if p.CurrentNodeLocation != f.Failure.FailureNodeLocation || p.LeafNodeText != s.LeafNodeText || p.CapturedGinkgoWriterOutput != "" {
			r.wrong("the timeout of %s in %q has the report of %s in %q", f.Failure.FailureNodeLocation, s.FullText(), p.CurrentNodeLocation, p.LeafNodeText)
		}
	}
	if timeouts != moved {
		r.wrong("%q has %d timeouts, and %d reports of leaked nodes", s.FullText(), timeouts, moved)
	}
	if len(s.ProgressReports) != len(emitted) {
		r.wrong("the report of %q has %d progress reports of %d", s.FullText(), len(s.ProgressReports), len(emitted))
		return
	}
	for i, p := range s.ProgressReports {
		if p.Message != emitted[i].Message || p.CurrentNodeLocation != emitted[i].CurrentNodeLocation || p.TimelineLocation != emitted[i].TimelineLocation || len(p.Goroutines) != len(emitted[i].Goroutines) {
			r.wrong("progress report %d of %q is not the one that was emitted", i, s.FullText())
		}
		if p.CapturedGinkgoWriterOutput != "" {
			r.wrong("progress report %d of %q repeats the output", i, s.FullText())
		}
	}
}

func goid() uint64 {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	id, _ := strconv.ParseUint(strings.Fields(string(b))[1], 10, 64)
	return id
}

func location(dir, line int) types.CodeLocation {
	return types.CodeLocation{FileName: "/vfuser/" + dirs[dir] + "/nodes.go", LineNumber: line}
}

// enter runs a node.
func (r *runner) enter(n *node, ctx internal.SpecContext) {
	r.node, r.nodeType, r.step, r.onCtx, r.ctx, r.nodeStart = n, n.Type, nil, nil, ctx, time.Now()
	id := goid()
	if n.Leak {
		r.mu.Lock()
		r.leaks[id] = true
		r.hanging = id
		r.mu.Unlock()
		r.hang()
		return
	}
	r.do(n.Acts)
}

func (r *runner) do(acts []act) {
	for _, a := range acts {
		r.ids++
		id := r.ids
		switch a.Kind {
		case "write":
			s := fmt.Sprintf("output %d\n%s", id, strings.Repeat("x", a.N%7))
			fmt.Fprint(r.writer, s)
			r.written += s
		case "by", "steps":
			text := fmt.Sprintf("step %d", id)
			by := bys[a.N%len(bys)]
			e := &types.SpecEvent{Message: text, CodeLocation: by.at}
			if a.Kind == "by" {
				by.f(text)
				r.step = e
				break
			}
			by.f(text, func() {
				r.step = e
				r.do(a.Acts)
			})
			r.step = nil
		case "attach", "attach to the suite":
			x := attached{id: id, kind: a.N % 3}
			say := func() string { return x.says(r.suite.CurrentSpecReport().LeafNodeText) }
			if x.kind < 2 {
				say = func() string { return x.says("") }
			}
			if a.Kind == "attach" && r.ctx != nil {
				// as Gomega does it: through whatever context was made from that of the spec
				type key struct{}
				sc, ok := context.WithValue(r.ctx, key{}, 1).Value("GINKGO_SPEC_CONTEXT").(interface {
					AttachProgressReporter(func() string) func()
					SpecReport() types.SpecReport
				})
				if !ok || sc.SpecReport().LeafNodeText != r.suite.CurrentSpecReport().LeafNodeText || sc.SpecReport().LeafNodeLocation != r.suite.CurrentSpecReport().LeafNodeLocation {
					r.wrong("a context made from that of the spec does not lead to the spec")
					break
				}
				x.undo = sc.AttachProgressReporter(say)
				r.onCtx = append(r.onCtx, x)
			} else {
				x.undo = r.suite.AttachProgressReporter(say)
				r.onSuite = append(r.onSuite, x)
			}
		case "detach":
			l := &r.onSuite
			if len(*l) == 0 || a.N%2 == 0 && len(r.onCtx) > 0 {
				l = &r.onCtx
			}
			if len(*l) > 0 {
				i := a.N / 2 % len(*l)
				(*l)[i].undo()
				if a.N%3 == 0 {
					(*l)[i].undo()
				}
				*l = append((*l)[:i:i], (*l)[i+1:]...)
			}
		case "go":
			g := &goroutine{stop: r.end, ready: make(chan bool)}
			for _, f := range a.F {
				g.links = append(g.links, userFuncs[f].f)
			}
			g.links = append(g.links, block)
			go func() {
				g.id = goid()
				g.links[0](g, 1)
			}()
			<-g.ready
			r.others = append(r.others, &goroutineIs{g, a.F})
		case "cleanup":
			n := &node{ID: id, Type: types.NodeTypeCleanupInvalid, Dir: a.N % len(dirs), Acts: a.Acts}
			ginkgo.DeferCleanup(r.body(n), location(n.Dir, n.ID))
		case "request":
			r.request()
		}
	}
}

// request asks for a progress report, as a signal would, and looks at it.
func (r *runner) request() {
	r.count++
	r.mu.Lock()
	before := len(r.reports)
	r.mu.Unlock()
	r.wait()
	r.mu.Lock()
	reports := r.reports
	r.mu.Unlock()
	if len(reports) != before+1 {
		r.wrong("%d reports instead of one", len(reports)-before)
		return
	}
	if s := r.judge(reports[before]); s != "" {
		r.wrong("in %s %d of %q: %s", r.node.Type, r.node.ID, r.spec.FullText(), s)
	}
}

func (r *runner) judge(p types.ProgressReport) string {
	n := r.node
	if p.LeafNodeText != r.spec.LeafNodeText || p.LeafNodeLocation != r.spec.LeafNodeLocation || strings.Join(p.ContainerHierarchyTexts, "|") != strings.Join(r.spec.ContainerHierarchyTexts, "|") {
		return fmt.Sprintf("the spec is %q %s", p.LeafNodeText, p.LeafNodeLocation)
	}
	if n.Type.Is(types.NodeTypeCleanupInvalid) {
		if !p.CurrentNodeType.Is(types.NodeTypeCleanupAfterEach | types.NodeTypeCleanupAfterSuite) {
			return fmt.Sprintf("the node is %s", p.CurrentNodeType)
		}
	} else if p.CurrentNodeType != n.Type {
		return fmt.Sprintf("the node is %s", p.CurrentNodeType)
	}
	text := ""
	if n.Type.Is(types.NodeTypeIt) {
		text = fmt.Sprintf("spec %d", n.ID)
	}
	if p.CurrentNodeText != text || p.CurrentNodeLocation != location(n.Dir, n.ID) {
		return fmt.Sprintf("the node is %q %s", p.CurrentNodeText, p.CurrentNodeLocation)
	}
	if p.CurrentNodeStartTime.After(r.nodeStart) || r.nodeStart.Sub(p.CurrentNodeStartTime) > 20*time.Second || p.CurrentNodeStartTime.Before(p.SpecStartTime) {
		return "the node starts at another time"
	}
	want := ""
	if r.step != nil {
		want = r.step.Message
	}
	if p.CurrentStepText != want || (want == "") != p.CurrentStepStartTime.IsZero() {
		return fmt.Sprintf("the step is %q, want %q", p.CurrentStepText, want)
	}
	if p.CapturedGinkgoWriterOutput != r.written {
		return fmt.Sprintf("the output is %q, want %q", p.CapturedGinkgoWriterOutput, r.written)
	}
	var says []string
	for _, a := range append(append([]attached{}, r.onCtx...), r.onSuite...) {
		if a.kind != 1 {
			says = append(says, a.says(r.spec.LeafNodeText))
		}
	}
	if fmt.Sprintf("%q", p.AdditionalReports) != fmt.Sprintf("%q", says) {
		return fmt.Sprintf("the reporters say %q, want %q", p.AdditionalReports, says)
	}
	// the goroutines
	interest := map[string]bool{"/vfuser/body": true, "/vfuser/" + dirs[n.Dir]: true}
	for _, l := range append([]types.CodeLocation{r.spec.LeafNodeLocation}, r.spec.ContainerHierarchyLocations...) {
		interest[filepath.Dir(l.FileName)] = true
	}
	if r.step != nil {
		if at := r.step.CodeLocation; p.CurrentStepLocation.FileName != at.FileName || p.CurrentStepLocation.LineNumber != at.LineNumber {
			return fmt.Sprintf("the step is at %s, want %s", p.CurrentStepLocation, at)
		}
		interest[filepath.Dir(p.CurrentStepLocation.FileName)] = true
	}
	of := func(file string) bool {
		d := filepath.Dir(file)
		for i := range interest {
			if d == i || strings.HasPrefix(d, i+"/") {
				return true
			}
		}
		return false
	}
	var spec, leaked int
	ids := map[uint64]bool{}
	leaks := map[uint64]bool{}
	r.mu.Lock()
	for id := range r.leaks {
		leaks[id] = true
	}
	r.mu.Unlock()
	me := goid()
	for _, g := range p.Goroutines {
		if g.IsSpecGoroutine {
			spec++
			if g.ID != me {
				return fmt.Sprintf("the goroutine of the spec is %d, want %d", g.ID, me)
			}
		}
		if ids[g.ID] {
			return fmt.Sprintf("goroutine %d is there twice", g.ID)
		}
		ids[g.ID] = true
		if leaks[g.ID] {
			leaked++
		}
		for _, c := range g.Stack {
			if c.Highlight != of(c.Filename) {
				return fmt.Sprintf("%s:%d is highlighted: %v (of interest: %v)", c.Filename, c.Line, c.Highlight, interest)
			}
			if !c.Highlight {
				if len(c.Source) > 0 {
					return fmt.Sprintf("%s:%d has source", c.Filename, c.Line)
				}
				continue
			}
			src, at := source(c.Filename, c.Line)
			if strings.HasPrefix(c.Filename, "/vfuser/") && (strings.Join(src, "\n") != strings.Join(c.Source, "\n") || at != c.SourceHighlight) {
				return fmt.Sprintf("%s:%d has source %q at %d, want %q at %d", c.Filename, c.Line, c.Source, c.SourceHighlight, src, at)
			}
		}
	}
	if spec != 1 {
		return fmt.Sprintf("%d goroutines of the spec", spec)
	}
	bodyLine := map[bool]int{true: 19, false: 13}[n.Plain]
	if n.Type.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach) {
		bodyLine = 25
	}
	at := fmt.Sprintf("/vfuser/body/body.go:%d", bodyLine)
	if p.Goroutines[0].ID != me || !calls(p.Goroutines[0], "/vfuser/req/req.go:23", at) && !calls(p.Goroutines[0], "/vfuser/req/req.go:22", at) {
		return fmt.Sprintf("the goroutine of the spec is %v", p.Goroutines[0])
	}
	if leaked != len(leaks) {
		return fmt.Sprintf("%d of %d leaked goroutines are there", leaked, len(leaks))
	}
	n2 := 1 + leaked
	for _, o := range r.others {
		shown := of("/vfuser/d/end.go")
		var places []string
		for _, f := range o.f {
			u := userFuncs[f]
			shown = shown || of("/vfuser/"+u.file)
			places = append([]string{fmt.Sprintf("/vfuser/%s:%d", u.file, u.line)}, places...)
		}
		if shown != ids[o.g.id] {
			return fmt.Sprintf("goroutine %d of %q is shown: %v (of interest: %v)", o.g.id, places, !shown, interest)
		}
		if shown {
			n2++
			for _, g := range p.Goroutines {
				if g.ID == o.g.id && !calls(g, places...) {
					return fmt.Sprintf("goroutine %d calls %q, but is %v", g.ID, places, g)
				}
			}
		}
	}
	for _, g := range p.Goroutines {
		if ended[g.ID] { // but not quite
			n2++
		}
	}
	if n2 != len(p.Goroutines) {
		return fmt.Sprintf("%d goroutines, want %d", len(p.Goroutines), n2)
	}
	return ""
}

// calls says whether a goroutine is in these places, the innermost first.
func calls(g types.Goroutine, places ...string) bool {
	for _, c := range g.Stack {
		if len(places) > 0 && fmt.Sprintf("%s:%d", c.Filename, c.Line) == places[0] {
			places = places[1:]
		}
	}
	return len(places) == 0
}

func (r *runner) build() {
	push := func(n *node) {
		args := []any{location(n.Dir, n.ID)}
		text := ""
		switch {
		case n.Type.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach):
			args = append(args, r.reporting(n))
		case n.Plain:
			args = append(args, r.plain(n))
		default:
			args = append(args, r.body(n))
		}
		if n.Type.Is(types.NodeTypeIt) {
			text = fmt.Sprintf("spec %d", n.ID)
		}
		if n.Leak {
			args = append(args, internal.NodeTimeout(r.limit), internal.GracePeriod(time.Millisecond))
		}
		node, errs := internal.NewNode(types.NewDeprecationTracker(), n.Type, text, args...)
		if len(errs) > 0 {
			panic(errs[0])
		}
		if err := r.suite.PushNode(node); err != nil {
			panic(err)
		}
	}
	for i := range r.c.Nodes {
		push(&r.c.Nodes[i])
	}
	var box func(c *container, name string)
	box = func(c *container, name string) {
		ginkgo.Describe(name, location(c.Dir, 1), func() {
			for i := range c.Nodes {
				push(&c.Nodes[i])
			}
			if c.Inner != nil {
				box(c.Inner, name+" inner")
			}
		})
	}
	for i := range r.c.Boxes {
		box(&r.c.Boxes[i], fmt.Sprintf("container %d", i))
	}
}

func check(c progressCase, roots []string, limit time.Duration) (out vf.Outcome) {
	r := &runner{c: c, limit: limit, roots: roots, suite: internal.NewSuite(), failer: internal.NewFailer(), writer: internal.NewWriter(io.Discard),
		requests: make(chan bool), answers: make(chan bool), end: make(chan bool), leaks: map[uint64]bool{}}
	defer func() {
		if e := recover(); e != nil {
			out = vf.Fail("panic: %v", e)
		}
	}()
	r.writer.SetMode(internal.WriterModeBufferOnly)
	for i := 0; i < c.Crowd; i++ {
		go func() { <-r.end }()
	}
	oldSuite, oldFailer := global.Suite, global.Failer
	global.Suite, global.Failer = r.suite, r.failer
	defer func() { global.Suite, global.Failer = oldSuite, oldFailer }()
	r.build()
	if err := r.suite.BuildTree(); err != nil {
		return vf.Fail("%v", err)
	}
	done := make(chan bool)
	go func() { // stands for the one that gets the signals
		defer close(done)
		for range r.requests {
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.wrong("panic while the report is made: %v", e)
					}
				}()
				r.handler()
			}()
			r.answers <- true
		}
	}()
	conf := types.SuiteConfig{RandomSeed: 1, ParallelProcess: 1, ParallelTotal: 1, Timeout: time.Hour, GracePeriod: time.Minute, SourceRoots: roots}
	register := func(h func()) context.CancelFunc { r.handler = h; return func() {} }
	r.suite.Run("suite", nil, "/suite", r.failer, r, r.writer, prog.NewFakeOI(), prog.NewInterrupter(), nil, register, conf)
	close(r.requests)
	<-done
	close(r.end)
	ended = r.leaks
	for _, o := range r.others {
		ended[o.g.id] = true
	}
	if len(r.problems) > 0 {
		sort.Strings(r.problems[1:])
		return vf.Fail("%s", r.problems[0])
	}
	return vf.Outcome{NonTrivial: r.count > 1, Classes: []string{fmt.Sprintf("%d leaks", len(r.leaks)), fmt.Sprintf("%d goroutines", min(len(r.others), 3))}}
}
