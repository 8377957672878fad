package dsl

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// call is a call of the DSL, wherever it is made.
type call struct {
	ID       int
	Type     types.NodeType `json:",omitempty"` // a node
	Other    string         `json:",omitempty"` // or By, Entry, Cleanup
	Serial   bool           `json:",omitempty"`
	Ordered  bool           `json:",omitempty"`
	Continue bool           `json:",omitempty"`
	Pending  bool           `json:",omitempty"`
	Once     bool           `json:",omitempty"`
	Panics   bool           `json:",omitempty"` // at the end of the body of a container
	Calls    []call         `json:",omitempty"` // made in its body
}

type placementCase struct {
	Calls []call
	After []call // made when the suite has run
}

var treeTypes = nodeTypes[:len(nodeTypes)-1]

func genCall(t *rapid.T, id *int, where string, depth int) call {
	*id++
	c := call{ID: *id}
	k := vf.U(t, "call", 100)
	if where == "run" {
		switch {
		case k < 25:
			c.Other = "By"
		case k < 40:
			c.Other = "Entry"
		case k < 70:
			c.Other = "Cleanup"
		default:
			c.Type = treeTypes[vf.U(t, "type", len(treeTypes))]
		}
		if c.Other != "" && c.Other != "Entry" && depth > 0 {
			for n := vf.U(t, "calls", 3); n > 0; n-- {
				c.Calls = append(c.Calls, genCall(t, id, "run", depth-1))
			}
		}
		return c
	}
	switch {
	case k < 40 && depth > 0:
		c.Type = types.NodeTypeContainer
		c.Ordered, c.Serial = vf.Pct(t, "ordered", 40), vf.Pct(t, "serial", 20)
		c.Continue = c.Ordered && vf.Pct(t, "continue", 25)
		c.Panics = vf.Pct(t, "panics", 2)
		for n := vf.U(t, "calls", 5); n > 0; n-- {
			c.Calls = append(c.Calls, genCall(t, id, "build", depth-1))
		}
		return c
	case k < 65:
		c.Type = types.NodeTypeIt
		c.Serial, c.Pending = vf.Pct(t, "serial", 20), vf.Pct(t, "pending", 10)
	case k < 72:
		c.Type = vf.Pick(t, "all", types.NodeTypeBeforeAll, types.NodeTypeAfterAll)
	case k < 93:
		c.Type = treeTypes[4+vf.U(t, "type", len(treeTypes)-4)]
		c.Once = c.Type.Is(types.NodeTypeBeforeEach|types.NodeTypeAfterEach|types.NodeTypeJustBeforeEach|types.NodeTypeJustAfterEach) && vf.Pct(t, "once", 20)
	default:
		c.Other = vf.Pick(t, "other", "By", "Entry", "Cleanup")
	}
	for n := vf.U(t, "calls", 3); n > 0; n-- {
		c.Calls = append(c.Calls, genCall(t, id, "run", 2))
	}
	return c
}

// C02: what may be called where.
func TestC02_placement(t *testing.T) {
	vf.Run(t, vf.Prop[placementCase]{ID: "C02", Sub: "placement", Rule: "a call is rejected and a spec runs", Quick: 60000, Thorough: 3000000,
		Gen: func(t *rapid.T) placementCase {
			var c placementCase
			id := 0
			for n := vf.Range(t, "calls", 1, 7); n > 0; n-- {
				c.Calls = append(c.Calls, genCall(t, &id, "top", 4))
			}
			for n := vf.U(t, "after", 3); n > 0; n-- {
				c.After = append(c.After, genCall(t, &id, "run", 1))
			}
			return c
		},
		Check: checkPlacement})
}

type placed struct {
	suite    *internal.Suite
	problems []string
	before   bool // there is a BeforeSuite or SynchronizedBeforeSuite
	after    bool
	specs    map[string]bool // accepted specs, true if they are to run
	suites   map[int]int     // accepted suite nodes: how often they have to run
	ran      map[int]int
	deferred map[int]int // cleanups accepted and not run
	setups   map[int]*setup
	rejected int
	entries  []string
	bys      []string
}

// setup is an accepted setup node.
type setup struct {
	c     call
	specs int // non-pending specs it is about
}

// at is where a call is made.
type at struct {
	phase string         // top, build, run, over
	node  types.NodeType // the node that runs
	chain []call         // the containers around
}

func (p *placed) wrong(format string, args ...any) {
	p.problems = append(p.problems, fmt.Sprintf(format, args...))
}

const structure = "Ginkgo detected an issue with your spec structure"

// errors says which errors a call must be rejected with (one of them), none if it is right.
func (p *placed) errors(c call, a at) (out []string) {
	outermost := func() *call {
		for i := range a.chain {
			if a.chain[i].Ordered {
				return &a.chain[i]
			}
		}
		return nil
	}
	switch {
	case c.Other == "By", c.Other == "Entry":
		if a.phase == "top" || a.phase == "build" {
			return []string{structure}
		}
	case c.Other == "Cleanup":
		switch {
		case a.phase != "run":
			return []string{"DeferCleanup must be called inside a setup or subject node"}
		case a.node.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach | types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite):
			return []string{fmt.Sprintf("DeferCleanup cannot be called in %s", a.node)}
		case a.node.Is(types.NodeTypeCleanupInvalid):
			return []string{"DeferCleanup cannot be called in a DeferCleanup callback"}
		}
	case a.phase == "run" || a.phase == "over":
		return []string{structure}
	case c.Type.Is(types.NodeTypesForSuiteLevelNodes):
		if a.phase == "build" || c.Type.Is(types.NodeTypeBeforeSuite|types.NodeTypeSynchronizedBeforeSuite) && p.before || c.Type.Is(types.NodeTypeAfterSuite|types.NodeTypeSynchronizedAfterSuite) && p.after {
			return []string{structure}
		}
	default:
		o := outermost()
		if c.Serial && o != nil && !o.Serial {
			out = append(out, "Invalid Serial Node in Non-Serial Ordered Container")
		}
		if c.Type.Is(types.NodeTypeBeforeAll|types.NodeTypeAfterAll) && o == nil {
			out = append(out, "Setup Node not in Ordered Container")
		}
		if c.Continue && o != nil {
			out = append(out, "ContinueOnFailure not decorating an outermost Ordered Container")
		}
		if len(out) == 0 && c.Panics && a.phase == "build" {
			out = append(out, "Assertion or Panic detected during tree construction")
		}
	}
	return
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (p *placed) do(c call, a at) {
	errs := p.errors(c, a)
	var err error
	bodyOf := func(node types.NodeType) func() {
		return func() {
			p.ran[c.ID]++
			for _, d := range c.Calls {
				p.do(d, at{phase: "run", node: node})
			}
		}
	}
	args := []any{types.NewCustomCodeLocation(fmt.Sprintf("call %d", c.ID))}
	text := fmt.Sprintf("%s %d", c.Type, c.ID)
	switch {
	case c.Other == "By":
		if p.suite == nil {
			panic("no suite")
		}
		entered := 0
		var cb []func()
		if c.ID%3 > 0 {
			cb = append(cb, func() {
				entered++
				for _, d := range c.Calls {
					p.do(d, a)
				}
			})
		}
		err = p.suite.By(fmt.Sprintf("by %d", c.ID), cb...)
		if ok := len(errs) == 0 && len(cb) > 0; ok && entered != 1 || !ok && entered > 0 {
			p.wrong("the callback of By %d was called %d times", c.ID, entered)
		}
		if err == nil && a.phase == "run" {
			p.bys = append(p.bys, fmt.Sprintf("by %d", c.ID))
		}
	case c.Other == "Entry":
		e, err2 := internal.NewReportEntry(fmt.Sprintf("entry %d", c.ID), types.NewCodeLocation(0), c.ID)
		if err2 != nil {
			p.wrong("entry %d: %s", c.ID, err2)
			return
		}
		err = p.suite.AddReportEntry(e)
		if err == nil && a.phase == "run" {
			p.entries = append(p.entries, e.Name)
		}
	case c.Other == "Cleanup":
		node, es := internal.NewCleanupNode(nil, nil, func() {
			p.deferred[c.ID]--
			for _, d := range c.Calls {
				p.do(d, at{phase: "run", node: types.NodeTypeCleanupInvalid})
			}
		})
		if len(es) > 0 {
			p.wrong("cleanup %d: %v", c.ID, es)
			return
		}
		if err = p.suite.PushNode(node); err == nil {
			p.deferred[c.ID]++
		}
	default:
		switch {
		case c.Type.Is(types.NodeTypeContainer):
			args = append(args, func() {
				chain := append(append([]call{}, a.chain...), c)
				for _, d := range c.Calls {
					p.do(d, at{phase: "build", chain: chain})
				}
				if c.Panics {
					panic("on purpose")
				}
			})
		case c.Type.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach):
			b := bodyOf(c.Type)
			args = append(args, func(types.SpecReport) { b() })
		case c.Type.Is(types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite):
			b := bodyOf(c.Type)
			args = append(args, func(types.Report) { b() })
		case c.Type.Is(types.NodeTypeSynchronizedBeforeSuite | types.NodeTypeSynchronizedAfterSuite):
			args = append(args, bodyOf(c.Type), bodyOf(c.Type))
		default:
			args = append(args, bodyOf(c.Type))
		}
		for _, d := range []struct {
			on bool
			d  any
		}{{c.Serial, internal.Serial}, {c.Ordered, internal.Ordered}, {c.Continue, internal.ContinueOnFailure}, {c.Pending, internal.Pending}, {c.Once, internal.OncePerOrdered}} {
			if d.on {
				args = append(args, d.d)
			}
		}
		node, es := internal.NewNode(types.NewDeprecationTracker(), c.Type, text, args...)
		if len(es) > 0 {
			p.wrong("%s: %v", text, es)
			return
		}
		err = p.suite.PushNode(node)
		if err == nil || c.Panics && has(errs, "Assertion or Panic detected during tree construction") {
			switch {
			case c.Type.Is(types.NodeTypeIt):
				p.specs[text] = !c.Pending
				if !c.Pending {
					p.suites[c.ID]++
				}
			case c.Type.Is(types.NodeTypeSynchronizedBeforeSuite):
				p.before = true
				p.suites[c.ID] = 2
			case c.Type.Is(types.NodeTypeSynchronizedAfterSuite):
				p.after = true
				p.suites[c.ID] = 2
			case c.Type.Is(types.NodeTypeBeforeSuite):
				p.before = true
				p.suites[c.ID] = 1
			case c.Type.Is(types.NodeTypeAfterSuite):
				p.after = true
				p.suites[c.ID] = 1
			case c.Type.Is(types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite):
				p.suites[c.ID] = 1
			}
		}
	}
	got := ""
	if err != nil {
		p.rejected++
		g, ok := err.(types.GinkgoError)
		if !ok {
			p.wrong("%s%s %d: %v", c.Type, c.Other, c.ID, err)
			return
		}
		got = g.Heading
	}
	if len(errs) == 0 && got != "" || len(errs) > 0 && !has(errs, got) {
		p.wrong("%s %d in [%s] while %s, within %v: rejected with %q, want one of %q", strings.TrimPrefix(text, " "), c.ID, a.node, a.phase, names(a.chain), got, errs)
	}
}

func names(cs []call) (out []string) {
	for _, c := range cs {
		s := fmt.Sprintf("%s %d", c.Type, c.ID)
		if c.Ordered {
			s += " Ordered"
		}
		if c.Serial {
			s += " Serial"
		}
		out = append(out, s)
	}
	return
}

func checkPlacement(c placementCase) (out vf.Outcome) {
	defer func() {
		if e := recover(); e != nil {
			out = vf.Fail("panic: %v", e)
		}
	}()
	suite, failer := internal.NewSuite(), internal.NewFailer()
	p := &placed{suite: suite, specs: map[string]bool{}, suites: map[int]int{}, ran: map[int]int{}, deferred: map[int]int{}}
	panics := false
	for _, d := range c.Calls {
		p.do(d, at{phase: "top"})
		panics = panics || d.Panics && d.Type.Is(types.NodeTypeContainer)
	}
	err := suite.BuildTree()
	if len(p.problems) > 0 {
		return vf.Fail("%s", strings.Join(p.problems, "; "))
	}
	if g, ok := err.(types.GinkgoError); panics && (!ok || g.Heading != "Assertion or Panic detected during tree construction") || !panics && err != nil {
		return vf.Fail("the tree is built with %v", err)
	}
	if panics {
		return vf.Outcome{Classes: []string{"not built"}}
	}
	r, ok, _ := run(suite, failer, config())
	for _, d := range c.After {
		p.do(d, at{phase: "over"})
	}
	if len(p.problems) > 0 {
		return vf.Fail("%s", strings.Join(p.problems, "; "))
	}
	if !ok {
		return vf.Fail("the suite failed: %+v", r.report.SpecReports)
	}
	var want, got []string
	runs := 0
	for s, runs1 := range p.specs {
		state := types.SpecStatePending
		if runs1 {
			state = types.SpecStatePassed
			runs++
		}
		want = append(want, fmt.Sprintf("%s %s", s, state))
	}
	var bys, entries []string
	for _, s := range r.report.SpecReports {
		if s.LeafNodeType.Is(types.NodeTypeIt) {
			got = append(got, fmt.Sprintf("%s %s", s.LeafNodeText, s.State))
		}
		for _, e := range s.SpecEvents {
			if e.SpecEventType == types.SpecEventByStart {
				bys = append(bys, e.Message)
			}
		}
		for _, e := range s.ReportEntries {
			entries = append(entries, e.Name)
		}
	}
	for _, l := range [][]string{want, got, bys, p.bys, entries, p.entries} {
		sort.Strings(l)
	}
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return vf.Fail("specs %q, want %q", got, want)
	}
	if strings.Join(bys, "\n") != strings.Join(p.bys, "\n") || strings.Join(entries, "\n") != strings.Join(p.entries, "\n") {
		return vf.Fail("By steps %q, want %q; entries %q, want %q", bys, p.bys, entries, p.entries)
	}
	for id, n := range p.suites {
		if runs == 0 {
			break
		}
		if p.ran[id] != n {
			return vf.Fail("node %d ran %d times, want %d", id, p.ran[id], n)
		}
	}
	for id, n := range p.deferred {
		if n != 0 {
			return vf.Fail("the cleanup of call %d is owed %d times", id, n)
		}
	}
	return vf.Outcome{NonTrivial: p.rejected > 0 && runs > 0, Classes: []string{fmt.Sprintf("%d rejected", min(p.rejected, 4))}}
}
