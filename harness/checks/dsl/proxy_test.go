package dsl

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/formatter"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// top is one thing that is done with GinkgoT() or GinkgoTB().
type top struct {
	Op  string
	Via int   `json:",omitempty"` // 0: GinkgoT(), 1: GinkgoTB(), 2: GinkgoTB().GinkgoT, 3: one that was made when the tree was built
	K   int   `json:",omitempty"`
	V   int   `json:",omitempty"`
	Sub []top `json:",omitempty"`
}

type tnode struct {
	Kind string // BS, AS, BE, JBE, It, JAE, AE
	Ops  []top
}

type proxyCase struct {
	Suite []tnode
	Specs [][]tnode
}

var envKeys = []string{"VF_PROXY_A", "VF_PROXY_B", "VF_PROXY_C", "", "VF=PROXY"}
var envVals = []string{"", "x", "a b", "x=y", "nul\x00"}

// what Log and the others are given
var logArgs = [][]any{{}, {"one"}, {"one", 2}, {1, 2, "three", nil}, {"%d\n"}, {[]string{"a", "b"}, fmt.Errorf("err")}}
var logFormats = []struct {
	f string
	a []any
}{{"plain", nil}, {"%d and %s", []any{1, "two"}}, {"line\n", nil}, {"100%%", nil}, {"{{red}}%v{{/}}", []any{"{{bold}}"}}}

var dirNames = []string{"one", "two", "deep/er", "missing"}

func genOps(t *rapid.T, n, depth int) (ops []top) {
	for ; n > 0; n-- {
		o := top{Op: vf.Pick(t, "op", "setenv", "setenv", "setenv", "chdir", "chdir", "tempdir", "tempdir", "context", "context", "cleanup", "cleanup", "defer", "log", "logf", "print", "printf", "println",
			"name", "styles", "entry", "timeline", "misc", "putenv", "errorf", "error", "fatal", "fatalf", "fail", "failnow", "skip", "skipf", "skipnow", "goroutine"), Via: vf.U(t, "via", 4)}
		switch o.Op {
		case "errorf", "error", "fatal", "fatalf", "fail", "failnow", "skip", "skipf", "skipnow", "goroutine":
			if !vf.Pct(t, "really", 40) {
				o.Op = "log"
			}
		}
		if depth > 0 { // callbacks must not register anything
			switch o.Op {
			case "setenv", "chdir", "tempdir", "context", "cleanup", "defer":
				o.Op = "putenv"
			}
		}
		switch o.Op {
		case "setenv", "putenv":
			o.K, o.V = vf.U(t, "key", 3), vf.U(t, "value", 4)
			if o.Op == "putenv" {
				o.V = vf.U(t, "value or none", 5)
			} else if vf.Pct(t, "bad", 6) {
				o.K, o.V = vf.U(t, "any key", 5), vf.U(t, "any value", 5)
			}
		case "chdir":
			o.K = vf.U(t, "dir", 3)
			if vf.Pct(t, "missing", 6) {
				o.K = 3
			}
		case "cleanup", "defer":
			o.Sub = genOps(t, vf.U(t, "callback", 3), depth+1)
		case "log", "print", "println", "error", "fatal", "skip":
			o.K = vf.U(t, "args", len(logArgs))
		case "entry":
			o.K, o.V = vf.U(t, "visibility", 3), vf.U(t, "value", 3)
		default:
			o.K = vf.U(t, "format", len(logFormats))
		}
		ops = append(ops, o)
	}
	return
}

// C07: GinkgoT() is the testing.T of a spec.
func TestC07_proxy(t *testing.T) {
	tb := reflect.TypeOf((*testing.TB)(nil)).Elem()
	vf.Run(t, vf.Prop[proxyCase]{ID: "C07", Sub: "proxy", Rule: "something is set, made or changed that has to be undone", Quick: 24000, Thorough: 1500000,
		Gen: func(t *rapid.T) (c proxyCase) {
			if vf.Pct(t, "before suite", 25) {
				c.Suite = append(c.Suite, tnode{"BS", genOps(t, vf.U(t, "ops", 5), 0)})
			}
			if vf.Pct(t, "after suite", 25) {
				c.Suite = append(c.Suite, tnode{"AS", genOps(t, vf.U(t, "ops", 5), 0)})
			}
			for n := vf.Range(t, "specs", 1, 3); n > 0; n-- {
				var nodes []tnode
				for _, k := range []string{"BE", "BE", "JBE", "JAE", "AE", "AE"} {
					if vf.Pct(t, k, 30) {
						nodes = append(nodes, tnode{k, genOps(t, vf.U(t, "ops", 5), 0)})
					}
				}
				nodes = append(nodes, tnode{"It", genOps(t, vf.U(t, "ops", 8), 0)})
				c.Specs = append(c.Specs, nodes)
			}
			return
		},
		Check: func(c proxyCase) vf.Outcome {
			for i := 0; i < tb.NumMethod(); i++ { // a method that is left to the nil testing.TB inside crashes
				if m := tb.Method(i); m.IsExported() {
					if own, _ := reflect.TypeOf(&ginkgo.GinkgoTBWrapper{}).MethodByName(m.Name); promoted(own) {
						return vf.Fail("GinkgoTB() has no %s", m.Name)
					}
				}
			}
			return checkProxy(c)
		}})
}

// promoted says whether a method of the wrapper is the one of the interface it embeds.
func promoted(m reflect.Method) bool {
	file, _ := runtime.FuncForPC(m.Func.Pointer()).FileLine(m.Func.Pointer())
	return file == "<autogenerated>"
}

// proxyRun is what is common to the run and to its prediction: both say what they see as they go along.
type proxyRun struct {
	scratch string
	obs     []string
	ctxs    int
	temps   int
}

func (r *proxyRun) see(what string, env func(string) (string, bool), cwd string, live func(int) bool, there func(int) bool) {
	b := &strings.Builder{}
	fmt.Fprintf(b, "%s:", what)
	for _, k := range envKeys[:3] {
		if v, ok := env(k); ok {
			fmt.Fprintf(b, " %q", v)
		} else {
			b.WriteString(" -")
		}
	}
	fmt.Fprintf(b, " in %s", cwd)
	for i := 0; i < r.ctxs; i++ {
		fmt.Fprintf(b, " %v", live(i))
	}
	for i := 0; i < r.temps; i++ {
		fmt.Fprintf(b, " %v", there(i))
	}
	r.obs = append(r.obs, b.String())
}

// testingT is what GinkgoT() and GinkgoTB() have in common.
type testingT interface {
	Cleanup(func())
	Chdir(dir string)
	Context() context.Context
	Setenv(key, value string)
	Error(args ...any)
	Errorf(format string, args ...any)
	Fail()
	FailNow()
	Failed() bool
	Fatal(args ...any)
	Fatalf(format string, args ...any)
	Helper()
	Log(args ...any)
	Logf(format string, args ...any)
	Name() string
	Skip(args ...any)
	SkipNow()
	Skipf(format string, args ...any)
	Skipped() bool
	TempDir() string
}

type realRun struct {
	proxyRun
	early    ginkgo.FullGinkgoTInterface
	contexts []context.Context
	dirs     []string
	problems []string
}

func (r *realRun) wrong(format string, args ...any) {
	r.problems = append(r.problems, fmt.Sprintf(format, args...))
}

func (r *realRun) look(what string) {
	cwd, err := os.Getwd()
	if err != nil {
		cwd = err.Error()
	}
	if rel, err := filepath.Rel(r.scratch, cwd); err == nil {
		cwd = rel
	}
	r.see(what, os.LookupEnv, cwd, func(i int) bool { return r.contexts[i].Err() == nil }, func(i int) bool {
		_, err := os.Stat(r.dirs[i])
		return err == nil
	})
}

// exec does what a body or a callback does.
func (r *realRun) exec(what string, ops []top) {
	for i, o := range ops {
		here := fmt.Sprintf("%s/%d %s", what, i, o.Op)
		r.look(here)
		r.do(here, o)
	}
	r.look(what + " ends")
}

func (r *realRun) do(here string, o top) {
	var t testingT
	full := r.early
	switch o.Via {
	case 0:
		full = ginkgo.GinkgoT()
		t = full
	case 1:
		w := ginkgo.GinkgoTB()
		var _ testing.TB = w
		t, full = w, w.GinkgoT
	case 2:
		full = ginkgo.GinkgoTB().GinkgoT
		t = full
	case 3:
		t = full
	}
	args, format := logArgs[o.K%len(logArgs)], logFormats[o.K%len(logFormats)]
	switch o.Op {
	case "setenv":
		t.Setenv(envKeys[o.K], envVals[o.V])
	case "putenv": // not with t
		if o.V == 4 {
			os.Unsetenv(envKeys[o.K])
		} else {
			os.Setenv(envKeys[o.K], envVals[o.V])
		}
	case "chdir":
		t.Chdir(filepath.Join(r.scratch, dirNames[o.K]))
	case "tempdir":
		d := t.TempDir()
		r.dirs = append(r.dirs, d)
		r.temps++
		for _, e := range r.dirs[:len(r.dirs)-1] {
			if d == e {
				r.wrong("%s: %s was handed out before", here, d)
			}
		}
		if es, err := os.ReadDir(d); err != nil || len(es) != 0 || !filepath.IsAbs(d) {
			r.wrong("%s: %s is not an empty directory (%v)", here, d, err)
		}
		os.MkdirAll(filepath.Join(d, "a", "b"), 0o755)
		if err := os.WriteFile(filepath.Join(d, "a", "b", "file"), []byte("x"), 0o400); err != nil {
			r.wrong("%s: %s", here, err)
		}
	case "context":
		c := t.Context()
		if c.Err() != nil {
			r.wrong("%s: the context is %v", here, c.Err())
		}
		r.contexts = append(r.contexts, c)
		r.ctxs++
	case "cleanup":
		t.Cleanup(func() { r.exec(here+" callback", o.Sub) })
	case "defer":
		full.DeferCleanup(func(ctx ginkgo.SpecContext, x int) {
			if x != 7 || ctx == nil {
				r.wrong("%s: the callback is given %d", here, x)
			}
			r.exec(here+" callback", o.Sub)
		}, 7)
	case "log":
		t.Log(args...)
	case "logf":
		t.Logf(format.f, format.a...)
	case "print":
		full.Print(args...)
	case "println":
		full.Println(args...)
	case "printf":
		full.Printf(format.f, format.a...)
	case "name":
		s := ginkgo.CurrentSpecReport()
		if t.Name() != s.FullText() || t.Failed() != s.Failed() || t.Skipped() != (s.State == types.SpecStateSkipped) {
			r.wrong("%s: %q failed: %v, skipped: %v; the report has %q, %s", here, t.Name(), t.Failed(), t.Skipped(), s.FullText(), s.State)
		}
		r.obs = append(r.obs, fmt.Sprintf("%s %q %v %v", here, t.Name(), t.Failed(), t.Skipped()))
	case "styles":
		_, rc := ginkgo.GinkgoConfiguration()
		f := formatter.NewWithNoColorBool(rc.NoColor)
		if a, b := full.F(format.f, format.a...), f.F(format.f, format.a...); a != b {
			r.wrong("%s: F is %q, want %q", here, a, b)
		}
		if a, b := full.Fi(2, format.f, format.a...), f.Fi(2, format.f, format.a...); a != b {
			r.wrong("%s: Fi is %q, want %q", here, a, b)
		}
		if a, b := full.Fiw(1, 5, format.f, format.a...), f.Fiw(1, 5, format.f, format.a...); a != b {
			r.wrong("%s: Fiw is %q, want %q", here, a, b)
		}
	case "entry":
		name := here + " entry"
		[]func(string, ...any){full.AddReportEntryVisibilityAlways, full.AddReportEntryVisibilityFailureOrVerbose, full.AddReportEntryVisibilityNever}[o.K](name, []any{o.V, "v", nil}[o.V])
	case "timeline":
		if a, b := full.RenderTimeline(), reporters.RenderTimeline(ginkgo.CurrentSpecReport(), false); a != b {
			r.wrong("%s: the timeline is %q, want %q", here, a, b)
		}
	case "misc":
		sc, _ := ginkgo.GinkgoConfiguration()
		full.Parallel()
		if full.RandomSeed() != sc.RandomSeed || full.ParallelProcess() != sc.ParallelProcess || full.ParallelTotal() != sc.ParallelTotal {
			r.wrong("%s: seed %d, process %d of %d", here, full.RandomSeed(), full.ParallelProcess(), full.ParallelTotal())
		}
	case "error":
		t.Error(args...)
	case "errorf":
		t.Errorf(format.f, format.a...)
	case "fatal":
		t.Fatal(args...)
	case "fatalf":
		t.Fatalf(format.f, format.a...)
	case "fail":
		t.Fail()
	case "failnow":
		t.FailNow()
	case "skip":
		t.Skip(args...)
	case "skipf":
		t.Skipf(format.f, format.a...)
	case "skipnow":
		t.SkipNow()
	case "goroutine":
		done := make(chan bool)
		go func() {
			defer close(done)
			defer full.GinkgoRecover()
			t.Fatalf(format.f, format.a...)
		}()
		<-done
	}
}

// planned predicts a run.
type planned struct {
	proxyRun
	env    map[string]string
	cwd    string
	live   []bool
	there  []bool
	strict bool // contexts end when the cleanup begins
	undo   *[]func()
	ends   *[]int // the contexts of this scope
	state  types.SpecState
	msgs   []string
	out    string
	text   string
	bodies int
	undone int
	entry  []string
}

func (p *planned) look(what string) {
	p.see(what, func(k string) (string, bool) { v, ok := p.env[k]; return v, ok }, p.cwd, func(i int) bool { return p.live[i] }, func(i int) bool { return p.there[i] })
}

// exec predicts a body; it says whether it ended well.
func (p *planned) exec(what string, ops []top) bool {
	failed := types.SpecStatePassed
	msg := ""
	fail := func(state types.SpecState, m string) {
		if failed == types.SpecStatePassed {
			failed, msg = state, m
		}
	}
	stopped := false
	for i, o := range ops {
		here := fmt.Sprintf("%s/%d %s", what, i, o.Op)
		p.look(here)
		args, format := logArgs[o.K%len(logArgs)], logFormats[o.K%len(logFormats)]
		sprintf := fmt.Sprintf(format.f, format.a...)
		switch o.Op {
		case "setenv":
			k, v := envKeys[o.K], envVals[o.V]
			was, had := p.env[k]
			p.later(func() {
				if had {
					p.env[k] = was
				} else {
					delete(p.env, k)
				}
			})
			if o.K >= 3 || o.V == 4 {
				fail(types.SpecStateFailed, "Failed to set environment variable: setenv: invalid argument")
				stopped = true
			} else {
				p.env[k] = v
			}
		case "putenv":
			if o.V == 4 {
				delete(p.env, envKeys[o.K])
			} else {
				p.env[envKeys[o.K]] = envVals[o.V]
			}
		case "chdir":
			was := p.cwd
			p.later(func() { p.cwd = was })
			if o.K == 3 {
				fail(types.SpecStateFailed, "Failed to change directory: chdir "+filepath.Join(p.scratch, "missing")+": no such file or directory")
				stopped = true
			} else {
				p.cwd = dirNames[o.K]
			}
		case "tempdir":
			i := p.temps
			p.temps++
			p.there = append(p.there, true)
			p.later(func() { p.there[i] = false })
		case "context":
			i := p.ctxs
			p.ctxs++
			p.live = append(p.live, true)
			*p.ends = append(*p.ends, i)
			p.later(func() { p.live[i] = false })
		case "cleanup", "defer":
			p.later(func() { p.exec(here+" callback", o.Sub) })
		case "log":
			p.out += fmt.Sprintln(args...)
		case "logf":
			p.out += sprintf + "\n"
		case "print":
			p.out += fmt.Sprint(args...)
		case "println":
			p.out += fmt.Sprintln(args...)
		case "printf":
			p.out += sprintf
		case "name":
			p.obs = append(p.obs, fmt.Sprintf("%s %q %v %v", here, p.text, p.state.Is(types.SpecStateFailureStates), p.state == types.SpecStateSkipped))
		case "entry":
			p.entry = append(p.entry, fmt.Sprintf("%s entry %d %s", here, o.K, []string{"0", "v", ""}[o.V]))
		case "error", "fatal":
			fail(types.SpecStateFailed, fmt.Sprintln(args...))
			stopped = true
		case "errorf", "fatalf":
			fail(types.SpecStateFailed, sprintf)
			stopped = true
		case "fail", "failnow":
			fail(types.SpecStateFailed, "failed")
			stopped = true
		case "skip":
			fail(types.SpecStateSkipped, fmt.Sprintln(args...))
			stopped = true
		case "skipf":
			fail(types.SpecStateSkipped, sprintf)
			stopped = true
		case "skipnow":
			fail(types.SpecStateSkipped, "skip")
			stopped = true
		case "goroutine":
			fail(types.SpecStateFailed, sprintf)
		}
		if stopped {
			break
		}
	}
	if !stopped {
		p.look(what + " ends")
	}
	if failed != types.SpecStatePassed {
		switch {
		case p.state == types.SpecStateInvalid || p.state == types.SpecStatePassed:
			p.state, p.msgs = failed, []string{msg}
		case p.state == types.SpecStateSkipped && failed != types.SpecStateSkipped:
			p.state, p.msgs = failed, []string{msg}
		case failed != types.SpecStateSkipped:
			p.msgs = append(p.msgs, msg)
		}
	}
	return failed == types.SpecStatePassed
}

func (p *planned) later(f func()) {
	*p.undo = append(*p.undo, f)
	p.undone++
}

// cleanup runs what is to be undone in a scope.
func (p *planned) cleanup(undo *[]func(), ends *[]int) {
	if p.strict && len(*undo) > 0 {
		for _, i := range *ends {
			p.live[i] = false
		}
	}
	for len(*undo) > 0 {
		f := (*undo)[len(*undo)-1]
		*undo = (*undo)[:len(*undo)-1]
		f()
	}
}

type specSeen struct {
	text, state, out string
	msgs, entries    []string
}

func predict(c proxyCase, scratch string, env map[string]string, strict bool, order []int) (*planned, []specSeen) {
	p := &planned{proxyRun: proxyRun{scratch: scratch}, env: map[string]string{}, cwd: ".", strict: strict}
	for k, v := range env {
		p.env[k] = v
	}
	var seen []specSeen
	begin := func(text string) {
		p.state, p.msgs, p.out, p.text, p.entry = types.SpecStateInvalid, nil, "", text, nil
	}
	end := func() {
		if p.state == types.SpecStateInvalid {
			p.state = types.SpecStatePassed
		}
		seen = append(seen, specSeen{p.text, p.state.String(), p.out, p.msgs, p.entry})
	}
	var suiteUndo []func()
	var suiteEnds []int
	ok := true
	for _, n := range c.Suite {
		if n.Kind == "BS" {
			begin("")
			p.undo, p.ends = &suiteUndo, &suiteEnds
			ok = p.exec("BS", n.Ops)
			if p.state == types.SpecStateInvalid {
				p.state = types.SpecStatePassed
			}
			end()
		}
	}
	failed := !ok && p.state != types.SpecStateSkipped
	for _, i := range order {
		nodes := c.Specs[i]
		if failed {
			break
		}
		begin(fmt.Sprintf("container %d spec", i))
		if !ok {
			p.state = types.SpecStateSkipped
			end()
			continue
		}
		var undo []func()
		var ends []int
		p.undo, p.ends = &undo, &ends
		good := true
		for _, kind := range []string{"BE", "JBE", "It", "JAE", "AE"} {
			for k, n := range nodes {
				if n.Kind != kind || !good && kind != "JAE" && kind != "AE" {
					continue
				}
				fine := p.exec(fmt.Sprintf("spec %d %s %d", i, kind, k), n.Ops)
				good = good && fine
				if p.state == types.SpecStateInvalid && kind == "It" {
					p.state = types.SpecStatePassed
				}
			}
		}
		p.cleanup(&undo, &ends)
		end()
	}
	for _, n := range c.Suite {
		if n.Kind == "AS" {
			begin("")
			p.undo, p.ends = &suiteUndo, &suiteEnds
			p.exec("AS", n.Ops)
			end()
		}
	}
	begin("")
	// every callback that is left is a node of its own
	if p.strict && len(suiteUndo) > 0 {
		for _, i := range suiteEnds {
			p.live[i] = false
		}
	}
	p.undo, p.ends = &suiteUndo, &suiteEnds
	for len(suiteUndo) > 0 {
		begin("")
		f := suiteUndo[len(suiteUndo)-1]
		suiteUndo = suiteUndo[:len(suiteUndo)-1]
		f()
		end()
	}
	return p, seen
}

func checkProxy(c proxyCase) (out vf.Outcome) {
	home, err := os.Getwd()
	if err != nil {
		return vf.Fail("%s", err)
	}
	scratch, err := os.MkdirTemp("", "proxy")
	if err != nil {
		return vf.Fail("%s", err)
	}
	if scratch, err = filepath.EvalSymlinks(scratch); err != nil {
		return vf.Fail("%s", err)
	}
	defer func() {
		os.Chdir(home)
		os.RemoveAll(scratch)
		for _, k := range envKeys[:3] {
			os.Unsetenv(k)
		}
		if e := recover(); e != nil {
			out = vf.Fail("panic: %v", e)
		}
	}()
	for _, d := range dirNames[:3] {
		os.MkdirAll(filepath.Join(scratch, d), 0o755)
	}
	os.Chdir(scratch)
	os.Setenv(envKeys[0], "as it was")
	os.Unsetenv(envKeys[1])
	os.Unsetenv(envKeys[2])
	env := map[string]string{envKeys[0]: "as it was"}

	r := &realRun{proxyRun: proxyRun{scratch: scratch}}
	suite, failer := internal.NewSuite(), internal.NewFailer()
	w := ginkgo.GinkgoWriter.(*internal.Writer)
	rec := &recorder{}
	with(suite, failer, func() {
		r.early = ginkgo.GinkgoT()
		for _, n := range c.Suite {
			if n.Kind == "BS" {
				ginkgo.BeforeSuite(func() { r.exec("BS", n.Ops) })
			} else {
				ginkgo.AfterSuite(func() { r.exec("AS", n.Ops) })
			}
		}
		for i, nodes := range c.Specs {
			ginkgo.Describe(fmt.Sprintf("container %d", i), func() {
				for k, n := range nodes {
					f := func() { r.exec(fmt.Sprintf("spec %d %s %d", i, n.Kind, k), n.Ops) }
					switch n.Kind {
					case "BE":
						ginkgo.BeforeEach(f)
					case "JBE":
						ginkgo.JustBeforeEach(f)
					case "JAE":
						ginkgo.JustAfterEach(f)
					case "AE":
						ginkgo.AfterEach(f)
					case "It":
						ginkgo.It("spec", f)
					}
				}
			})
		}
		if err = suite.BuildTree(); err != nil {
			return
		}
		w.Truncate()
		w.SetMode(internal.WriterModeBufferOnly)
		suite.Run("suite", nil, "/suite", failer, rec, w, prog.NewFakeOI(), prog.NewInterrupter(), nil, func(func()) context.CancelFunc { return func() {} }, config())
		w.Truncate()
	})
	if err != nil {
		return vf.Fail("%s", err)
	}
	if len(r.problems) > 0 {
		return vf.Fail("%s", r.problems[0])
	}
	var order []int
	var got []specSeen
	for _, s := range rec.specs {
		if s.LeafNodeType.Is(types.NodeTypeIt) {
			i := 0
			fmt.Sscanf(s.ContainerHierarchyTexts[0], "container %d", &i)
			order = append(order, i)
		}
		seen := specSeen{text: s.FullText(), state: s.State.String(), out: s.CapturedGinkgoWriterOutput}
		if s.Failure.Message != "" && s.State != types.SpecStatePassed {
			seen.msgs = append(seen.msgs, s.Failure.Message)
		}
		for _, f := range s.AdditionalFailures {
			seen.msgs = append(seen.msgs, f.Failure.Message)
		}
		for _, e := range s.ReportEntries {
			v := map[types.ReportEntryVisibility]int{types.ReportEntryVisibilityAlways: 0, types.ReportEntryVisibilityFailureOrVerbose: 1, types.ReportEntryVisibilityNever: 2}[e.Visibility]
			seen.entries = append(seen.entries, fmt.Sprintf("%s %d %s", e.Name, v, e.StringRepresentation()))
		}
		got = append(got, seen)
	}
	p, want := predict(c, scratch, env, true, order)
	lax, _ := predict(c, scratch, env, false, order)
	p.look("after the run")
	lax.look("after the run")
	r.look("after the run")
	out = vf.Outcome{NonTrivial: p.undone > 0}
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || fmt.Sprintf("%+q", got[i]) != fmt.Sprintf("%+q", want[i]) {
			return vf.Fail("report %d of %d is %+q, want %+q", i, len(got), elem(got, i), elem(want, i))
		}
	}
	if a, b := strings.Join(r.obs, "\n"), strings.Join(p.obs, "\n"); a != b {
		if a == strings.Join(lax.obs, "\n") {
			out.Known = "context-outlives-cleanups"
			return out
		}
		for i := range r.obs {
			if i >= len(p.obs) || r.obs[i] != p.obs[i] && r.obs[i] != lax.obs[i] {
				return vf.Fail("seen: %s\nwant: %s", r.obs[i], elem(p.obs, i))
			}
		}
		return vf.Fail("seen:\n%s\nwant:\n%s", a, b)
	}
	return out
}

func elem[T any](xs []T, i int) (x T) {
	if i < len(xs) {
		x = xs[i]
	}
	return
}
