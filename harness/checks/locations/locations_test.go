// Package locations checks the places in the source that Ginkgo says things are at.
package locations

import (
	"context"
	"fmt"
	"io"
	"os"
	"strings"
	"testing"
	"time"

	ginkgo "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/internal/testingtproxy"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// frame is a call on the stack.
type frame struct {
	file   string
	line   int
	helper bool
	ginkgo bool // some frames within Ginkgo, none of which is to be seen
}

// link is a function that calls the next one, through the given frames, the outermost first.
type link struct {
	name   string
	f      func(c *chain, i int)
	frames func(i int) []frame
	goes   int // the line on which it starts a goroutine
	run    bool
}

// op is what the last function does.
type op struct {
	name, kind string
	f          func(c *chain, i int)
	line       int
}

type locationCase struct {
	Links []string
	Op    string
	Skip  int
	Decs  []int // an Offset, or -1: a CodeLocation
	Front bool  // the decorators come first
}

type chain struct {
	locationCase
	links []func(c *chain, i int)
	x     int
	entry ginkgo.TableEntry
	table func()
	t     *T
	tb    *ginkgo.GinkgoTBWrapper
	seen  []types.CodeLocation
	undo  []func()
}

type T struct{ ginkgo.FullGinkgoTInterface }

func failing()              { ginkgo.Fail("on purpose") }
func failingArg(int)        { ginkgo.Fail("on purpose") }
func fail()                 { ginkgo.Fail("on purpose") }
func nothing()              {}
func oneSpec()              { ginkgo.It("spec", func() {}) }
func okReport(types.Report) {}
func failReport(types.SpecReport) {
	ginkgo.Fail("on purpose")
}

func oneOf(table string) func() {
	if strings.Contains(table, "Subtree") {
		return oneSpec
	}
	return nothing
}

func (c *chain) after() {
	if c.table != nil {
		c.table()
	}
}

func (c *chain) skips() []int {
	if c.Skip == 0 && !c.Front {
		return nil
	}
	return []int{c.Skip}
}

func (c *chain) decs(args ...any) []any {
	var ds []any
	for i, d := range c.Decs {
		if d < 0 {
			ds = append(ds, types.NewCustomCodeLocation(fmt.Sprintf("decorator %d", i)))
		} else {
			ds = append(ds, ginkgo.Offset(d))
		}
	}
	if c.Front {
		return append(ds, args...)
	}
	return append(args, ds...)
}

func opNamed(name string) op {
	for _, o := range ops {
		if o.name == name {
			return o
		}
	}
	panic(name)
}

func linkNamed(name string) link {
	for _, l := range links {
		if l.name == name {
			return l
		}
	}
	panic(name)
}

// stack is what is called, the innermost first, and the line on which its goroutine was started.
func stack(c locationCase) (out []frame, started frame) {
	o := opNamed(c.Op)
	line := 3
	if o.kind == "suite" {
		line = 9
	}
	out = []frame{{"/vfuser/base.go", line, false, false}}
	for i, n := range c.Links {
		l := linkNamed(n)
		if l.goes > 0 {
			out, started = nil, frame{file: "/vfuser/" + n + ".go", line: l.goes}
		}
		for _, f := range l.frames(i + 1) {
			out = append([]frame{f}, out...)
		}
	}
	return append([]frame{{"/vfuser/ops.go", o.line, false, false}}, out...), started
}

// at is the place that is meant.
func at(fs []frame, skip int) string {
	for _, f := range fs[skip:] {
		if !f.helper {
			return fmt.Sprintf("%s:%d", f.file, f.line)
		}
	}
	panic("only helpers")
}

func takesSkip(o string) bool {
	return o == "Fail" || o == "Skip" || o == "AbortSuite" || strings.Contains(o, "(k)")
}

func takesDecs(o op) bool {
	return o.kind != "run" || o.name == "AddReportEntry" || strings.HasPrefix(o.name, "DeferCleanup")
}

func genLocation(t *rapid.T) (c locationCase) {
	o := ops[vf.U(t, "op", len(ops))]
	c.Op, c.Front = o.name, vf.Pct(t, "front", 50)
	for n := vf.U(t, "links", 6); n > 0; n-- {
		l := links[vf.U(t, "link", len(links))]
		if l.run && o.kind != "run" {
			l = links[0]
		}
		c.Links = append(c.Links, l.name)
	}
	fs, _ := stack(c)
	most := 0 // beyond this there are Ginkgo's own frames, or only helpers
	for i, f := range fs {
		if f.ginkgo {
			break
		}
		most = i
	}
	for most > 0 && onlyHelpers(fs[most:]) {
		most--
	}
	if takesSkip(o.name) {
		c.Skip = vf.U(t, "skip", min(most, 8)+1)
	}
	if takesDecs(o) {
		for n := vf.Pick(t, "decorators", 0, 0, 1, 1, 2); n > 0; n-- {
			d := -1
			if vf.Pct(t, "offset", 70) {
				d = vf.U(t, "offset", min(most, 8)+1)
			}
			c.Decs = append(c.Decs, d)
		}
	}
	return
}

func onlyHelpers(fs []frame) bool {
	for _, f := range fs {
		if !f.helper {
			return false
		}
	}
	return true
}

// C04: everything is said to be where the user wrote it.
func TestC04_locations(t *testing.T) {
	vf.Run(t, vf.Prop[locationCase]{ID: "C04", Sub: "locations", Rule: "a helper, a skip or an offset", Quick: 60000, Thorough: 6000000,
		Gen: genLocation, Check: checkLocation})
}

type recorder struct {
	reporters.NoopReporter
	specs []types.SpecReport
}

func (r *recorder) DidRun(s types.SpecReport) { r.specs = append(r.specs, s) }

func proxy(c *chain, offset int) ginkgo.FullGinkgoTInterface {
	cleanup := func(args ...any) {
		node, errs := internal.NewCleanupNode(nil, nil, args...)
		if len(errs) > 0 {
			panic(errs[0])
		}
		c.seen = append(c.seen, node.CodeLocation)
		c.undo = append(c.undo, func() { node.Body(nil) })
	}
	return testingtproxy.New(ginkgo.GinkgoWriter, ginkgo.Fail, ginkgo.Skip, cleanup, ginkgo.CurrentSpecReport, ginkgo.AddReportEntry, ginkgo.GinkgoRecover, ginkgo.AttachProgressReporter, 1, 1, 1, true, offset)
}

func checkLocation(lc locationCase) (out vf.Outcome) {
	defer func() {
		if e := recover(); e != nil {
			out = vf.Fail("panic: %v", e)
		}
	}()
	o := opNamed(lc.Op)
	c := &chain{locationCase: lc}
	for _, n := range lc.Links {
		c.links = append(c.links, linkNamed(n).f)
	}
	c.links = append(c.links, o.f)
	c.t, c.tb = &T{proxy(c, 1)}, &ginkgo.GinkgoTBWrapper{GinkgoT: proxy(c, 2)}
	if o.kind == "entry" {
		c.table = func() { ginkgo.DescribeTable("table", func() {}, c.entry) }
	}
	dir, _ := os.Getwd()
	suite, failer, rec := internal.NewSuite(), internal.NewFailer(), &recorder{}
	oldSuite, oldFailer := global.Suite, global.Failer
	global.Suite, global.Failer = suite, failer
	defer func() { global.Suite, global.Failer = oldSuite, oldFailer }()
	switch o.kind {
	case "run":
		ginkgo.It("spec", baseIn(c))
	case "suite":
		base(c)
		ginkgo.It("spec", func() {})
	case "setup":
		ginkgo.Describe("outer", ginkgo.Ordered, func() {
			baseIn(c)()
			ginkgo.It("spec", func() {})
		})
	default:
		ginkgo.Describe("outer", baseIn(c))
	}
	if err := suite.BuildTree(); err != nil {
		return vf.Fail("the tree is not built: %v", err)
	}
	w := internal.NewWriter(io.Discard)
	w.SetMode(internal.WriterModeBufferOnly)
	conf := types.SuiteConfig{RandomSeed: 1, ParallelProcess: 1, ParallelTotal: 1, Timeout: time.Hour, GracePeriod: time.Minute}
	suite.Run("suite", nil, "/suite", failer, rec, w, prog.NewFakeOI(), prog.NewInterrupter(), nil, func(func()) context.CancelFunc { return func() {} }, conf)
	for _, f := range c.undo {
		f()
	}
	if now, _ := os.Getwd(); now != dir {
		return vf.Fail("the cleanup of Chdir does not lead back")
	}

	fs, started := stack(lc)
	want := at(fs, lc.Skip)
	if n := len(lc.Decs); n > 0 && lc.Decs[n-1] < 0 {
		want = fmt.Sprintf("decorator %d", n-1)
	} else if n > 0 {
		want = at(fs, lc.Decs[n-1])
	}
	var spec types.SpecReport
	for _, s := range rec.specs {
		if s.LeafNodeType.Is(types.NodeTypeIt) == (o.kind != "suite") {
			spec = s
		}
	}
	var got types.CodeLocation
	traced := false
	switch {
	case strings.HasSuffix(o.name, ".TempDir"), strings.HasSuffix(o.name, ".Setenv"), strings.HasSuffix(o.name, ".Chdir"), strings.HasSuffix(o.name, ".Context"):
		if len(c.seen) == 1 {
			got = c.seen[0]
		}
	case o.kind == "it", o.kind == "entry", o.kind == "suite":
		got = spec.LeafNodeLocation
	case o.kind == "container", o.kind == "table":
		if n := len(spec.ContainerHierarchyLocations); n > 1 {
			got = spec.ContainerHierarchyLocations[1]
		}
	case o.kind == "setup", strings.Contains(o.name, "Cleanup"):
		got = spec.Failure.FailureNodeLocation
	case strings.HasPrefix(o.name, "By"):
		for _, e := range spec.SpecEvents {
			if e.Message == "look here" {
				got = e.CodeLocation
			}
		}
	case strings.Contains(o.name, "AddReportEntry") && o.name != "AddReportEntry2":
		if len(spec.ReportEntries) == 1 {
			got = spec.ReportEntries[0].Location
		}
	default:
		got, traced = spec.Failure.Location, true
	}
	if got.String() != want {
		return vf.Fail("%s is located at %s, want %s (%s)", o.name, got, want, strings.Join(lc.Links, ", "))
	}
	if traced && len(fs) < 80 { // beyond, go leaves frames out
		var lines, wants []string
		for _, l := range strings.Split(got.FullStackTrace, "\n") {
			if l = strings.TrimPrefix(l, "\t"); strings.HasPrefix(l, "/vfuser/") || len(lines) == 0 && strings.HasPrefix(l, "/") {
				lines = append(lines, strings.Fields(l)[0])
			}
		}
		for _, f := range fs[lc.Skip:] {
			if !f.ginkgo {
				wants = append(wants, fmt.Sprintf("%s:%d", f.file, f.line))
			}
		}
		if started.line > 0 {
			wants = append(wants, fmt.Sprintf("%s:%d", started.file, started.line))
		}
		if g, w := strings.Join(lines, " "), strings.Join(wants, " "); g != w {
			return vf.Fail("%s has the stack trace %s, want %s", o.name, g, w)
		}
	}
	helper := false
	for _, f := range fs {
		helper = helper || f.helper
	}
	return vf.Outcome{NonTrivial: helper || lc.Skip > 0 || len(lc.Decs) > 0, Classes: []string{o.kind}}
}
