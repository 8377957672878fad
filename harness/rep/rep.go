// Package rep generates suite reports: plans (plain data, so that a failing case is its own replay file) and the
// types.Report they stand for.
package rep

import (
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type Loc struct {
	File, Stack, Custom string `json:",omitempty"`
	Line                int    `json:",omitempty"`
}

type TL struct {
	Offset, Order int
	MS            int
}

type Fail struct {
	State    int    `json:",omitempty"` // of an additional failure
	Msg      string `json:",omitempty"`
	Panic    string `json:",omitempty"`
	Loc, At  Loc
	TL       TL
	Ctx      int       `json:",omitempty"`
	NodeType int       `json:",omitempty"`
	Index    int       `json:",omitempty"`
	PR       *Progress `json:",omitempty"`
	More     *Fail     `json:",omitempty"`
}

type Entry struct {
	Name string
	Vis  int    `json:",omitempty"`
	Kind string `json:",omitempty"` // of the value: see Value
	Str  string `json:",omitempty"`
	N    int    `json:",omitempty"`
	Loc  Loc
	TL   TL
}

type Call struct {
	Func, File string
	Line       int
	High       bool     `json:",omitempty"`
	Source     []string `json:",omitempty"`
	SrcHigh    int      `json:",omitempty"`
}

type Goroutine struct {
	ID    int
	State string
	Spec  bool `json:",omitempty"`
	Stack []Call
}

type Progress struct {
	Msg                       string
	Proc                      int
	Par                       bool
	Texts                     []string
	Leaf, Node, Step          string
	NodeType                  int
	LeafLoc, NodeLoc, StepLoc Loc
	Start, NodeStart, StepMS  int
	Add                       []string
	GW                        string
	TL                        TL
	Gs                        []Goroutine
}

type Event struct {
	Type     int
	Msg      string `json:",omitempty"`
	Dur      int    `json:",omitempty"`
	NodeType int    `json:",omitempty"`
	Attempt  int    `json:",omitempty"`
	Loc      Loc
	TL       TL
}

type Spec struct {
	Type             int
	Texts            []string
	Locs             []Loc
	Labels           [][]string
	Leaf             string
	LeafLoc          Loc
	LeafLabels       []string
	State            int
	Serial, Ordered  bool `json:",omitempty"`
	Par              bool `json:",omitempty"`
	Start, Run, Proc int
	Attempts         int `json:",omitempty"`
	Flake, MPR       int `json:",omitempty"`
	Fail             *Fail
	Add              []Fail `json:",omitempty"`
	GW, Out          string
	Entries          []Entry    `json:",omitempty"`
	Progress         []Progress `json:",omitempty"`
	Events           []Event    `json:",omitempty"`
}

type Report struct {
	Path, Desc string
	Labels     []string
	OK, Focus  bool
	Special    []string
	Total      int
	Will       int
	Start, Run int
	Seed       int
	Procs      int
	Filter     string
	FocusStr   []string
	Specs      []Spec
}

// States and NodeTypes are those a report can have.
var States = []types.SpecState{types.SpecStatePassed, types.SpecStateFailed, types.SpecStateSkipped, types.SpecStatePending, types.SpecStatePanicked, types.SpecStateTimedout, types.SpecStateInterrupted, types.SpecStateAborted}

var NodeTypes = []types.NodeType{types.NodeTypeIt, types.NodeTypeContainer, types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustAfterEach, types.NodeTypeBeforeAll, types.NodeTypeAfterAll,
	types.NodeTypeReportBeforeEach, types.NodeTypeReportAfterEach, types.NodeTypeCleanupAfterEach, types.NodeTypeCleanupAfterAll, types.NodeTypeCleanupAfterSuite,
	types.NodeTypeBeforeSuite, types.NodeTypeSynchronizedBeforeSuite, types.NodeTypeAfterSuite, types.NodeTypeSynchronizedAfterSuite, types.NodeTypeReportBeforeSuite, types.NodeTypeReportAfterSuite}

var leafTypes = []types.NodeType{types.NodeTypeIt, types.NodeTypeBeforeSuite, types.NodeTypeSynchronizedBeforeSuite, types.NodeTypeAfterSuite, types.NodeTypeSynchronizedAfterSuite, types.NodeTypeReportBeforeSuite, types.NodeTypeReportAfterSuite, types.NodeTypeCleanupAfterSuite}

var EventTypes = []types.SpecEventType{types.SpecEventByStart, types.SpecEventByEnd, types.SpecEventNodeStart, types.SpecEventNodeEnd, types.SpecEventSpecRepeat, types.SpecEventSpecRetry}

var contexts = []types.FailureNodeContext{types.FailureNodeIsLeafNode, types.FailureNodeAtTopLevel, types.FailureNodeInContainer}

// Opt narrows what is generated.
type Opt struct {
	MaxSpecs int
	Text     func(t *rapid.T, label string) string
	Values   []string // kinds of entry values
	Tokens   bool     // every text holds a word that is nowhere else in the report
}

var tokenRE = regexp.MustCompile(`Tk\d+q`)

// Tokens are the words of their own that the texts hold.
func Tokens(texts ...string) []string { return tokenRE.FindAllString(strings.Join(texts, " "), -1) }

type gen struct {
	t     *rapid.T
	o     Opt
	order int
	token int
}

func (g *gen) pct(n int) bool   { return vf.Pct(g.t, "p", n) }
func (g *gen) n(lo, hi int) int { return vf.Range(g.t, "n", lo, hi) }

// Words are what texts are made of.
var Words = []string{"a", "spec", "with words", "é", "世界", "-", "1", " ", "  ", "\n", "\t", "\r", "\r\n", "'", "\"", "|", "||", "[", "]", "[a, b]", "<", ">", "&", "&amp;", "]]>", "<!--", "{{", "}}", "{{red}}", "{{/}}", "{{ x }}", "%", "%s", "%d%%", "\\", "\\n", "\x00", "\x1b", "\x1b[31m", "\x07", "\u00a0", "\u2028", "\uFFFD", "\U0001F600", "##teamcity[testFailed name='x']", "line one\nline two\n", "/", ":", ",", "|n", "|'", "owner:me", "`"}

// Text draws a text.
func Text(t *rapid.T, label string) string {
	k := vf.U(t, label, 8)
	switch {
	case k == 0:
		return ""
	case k <= 3:
		return vf.Pick(t, label, "a", "spec", "some text", "it works", "b")
	}
	out := ""
	for i := vf.Range(t, label, 1, 4); i > 0; i-- {
		out += Words[vf.U(t, label, len(Words))]
	}
	return out
}

func (g *gen) text() string {
	if g.o.Tokens {
		g.token++
		token, text := fmt.Sprintf("Tk%dq", g.token), g.plain()
		if g.pct(50) {
			return token + text
		}
		return text + token
	}
	return g.plain()
}

func (g *gen) plain() string {
	if g.o.Text != nil {
		return g.o.Text(g.t, "text")
	}
	return Text(g.t, "text")
}

func (g *gen) label() string {
	return vf.Pick(g.t, "label", "a", "b", "slow", "owner:x", "Owner: y z", "OWNER:", "k:v", "my label", "é")
}

func (g *gen) labels(p int) []string {
	var out []string
	for g.pct(p) {
		out = append(out, g.label())
	}
	return out
}

func (g *gen) loc() Loc {
	if g.pct(15) {
		return Loc{}
	}
	l := Loc{File: vf.Pick(g.t, "file", "/a/b_test.go", "/a/b c_test.go", "x_test.go", "/é_test.go"), Line: g.n(1, 99)}
	if g.pct(30) {
		l.Stack = vf.Pick(g.t, "stack", "main.f()\n\t/a/b.go:3 +0x1", "goroutine 1 [running]:\nx.y({0x1, 0x2})\n\t/x/y.go:10", "<x>&\n")
	}
	if g.pct(8) {
		l = Loc{Custom: g.text()}
	}
	return l
}

func (g *gen) tl(gw string) TL {
	g.order += g.n(1, 3)
	off := g.n(0, len(gw))
	for _, span := range tokenRE.FindAllStringIndex(gw, -1) {
		if span[0] < off && off < span[1] {
			off = span[0]
		}
	}
	return TL{Offset: off, Order: g.order, MS: g.n(0, 5000)}
}

func (g *gen) fail(gw string, depth int) *Fail {
	f := &Fail{Msg: g.text(), Loc: g.loc(), TL: g.tl(gw)}
	if f.Msg == "" && f.Loc == (Loc{}) {
		f.Msg = "failed"
	}
	if g.pct(20) {
		f.Panic = g.text()
	}
	f.Ctx = g.n(0, len(contexts)-1)
	f.NodeType = g.n(0, len(NodeTypes)-1)
	f.At = g.loc()
	if g.pct(25) {
		f.PR = g.progress(gw)
	}
	if depth == 0 && g.pct(15) {
		f.More = g.fail(gw, depth+1)
		f.More.State = g.state(true)
	}
	return f
}

func (g *gen) state(failing bool) int {
	if failing {
		return vf.Pick(g.t, "fstate", 1, 4, 5, 6, 7)
	}
	return vf.U(g.t, "state", len(States))
}

func (g *gen) progress(gw string) *Progress {
	p := &Progress{Msg: g.text(), Proc: g.n(1, 3), Par: g.pct(40), Leaf: g.text(), Node: g.text(), NodeType: g.n(0, len(NodeTypes)-1), LeafLoc: g.loc(), NodeLoc: g.loc(), Start: g.n(0, 1000), NodeStart: g.n(0, 1000), TL: g.tl(gw)}
	for i := g.n(0, 2); i > 0; i-- {
		p.Texts = append(p.Texts, g.text())
	}
	if g.pct(40) {
		p.Step, p.StepLoc, p.StepMS = g.text(), g.loc(), g.n(0, 1000)
	}
	for g.pct(20) {
		p.Add = append(p.Add, g.text())
	}
	if g.pct(40) {
		p.GW = g.text()
	}
	for i := g.n(0, 3); i > 0; i-- {
		gr := Goroutine{ID: g.n(1, 100), State: vf.Pick(g.t, "gstate", "running", "chan receive", "select, 3 minutes"), Spec: i == 1 && g.pct(70)}
		for j := g.n(1, 3); j > 0; j-- {
			c := Call{Func: vf.Pick(g.t, "func", "main.f", "a/b.(*T).G(...)", "x.y.func1"), File: vf.Pick(g.t, "file", "/a/b.go", "/nowhere/x.go"), Line: g.n(1, 50), High: g.pct(40)}
			if c.High && g.pct(60) {
				for k := g.n(1, 4); k > 0; k-- {
					c.Source = append(c.Source, g.text())
				}
				c.SrcHigh = g.n(0, len(c.Source)-1)
			}
			gr.Stack = append(gr.Stack, c)
		}
		p.Gs = append(p.Gs, gr)
	}
	return p
}

// GenReport draws a report.
func GenReport(t *rapid.T, o Opt) Report {
	g := &gen{t: t, o: o}
	r := Report{Path: vf.Pick(t, "path", "/p/suite", "/p/with space", "/é"), Desc: g.text(), Labels: g.labels(25), OK: g.pct(50), Focus: g.pct(20), Start: g.n(0, 100000), Run: g.n(0, 100000), Seed: g.n(0, 1<<30), Procs: g.n(1, 4)}
	for g.pct(20) {
		r.Special = append(r.Special, g.text())
	}
	if g.pct(20) {
		r.Filter = vf.Pick(t, "filter", "a && !b", "/x/", "k: {v}")
	}
	for g.pct(20) {
		r.FocusStr = append(r.FocusStr, g.text())
	}
	for i := g.n(0, max(1, o.MaxSpecs)); i > 0; i-- {
		r.Specs = append(r.Specs, g.spec())
	}
	r.Total = len(r.Specs) + g.n(0, 2)
	r.Will = g.n(0, r.Total)
	return r
}

// GenSpec draws the report of one spec.
func GenSpec(t *rapid.T, o Opt) Spec { return (&gen{t: t, o: o}).spec() }

func (g *gen) spec() Spec {
	s := Spec{Leaf: g.text(), LeafLoc: g.loc(), LeafLabels: g.labels(25), Serial: g.pct(20), Ordered: g.pct(20), Par: g.pct(40), Proc: g.n(1, 4), Start: g.n(0, 100000), Run: vf.Pick(g.t, "run", 0, 1, 17, 999, 1234, 61000, g.n(0, 1000000))}
	g.order = g.n(0, 5)
	if g.pct(25) {
		s.Type = g.n(1, len(leafTypes)-1)
	} else {
		for i := g.n(0, 3); i > 0; i-- {
			s.Texts, s.Locs, s.Labels = append(s.Texts, g.text()), append(s.Locs, g.loc()), append(s.Labels, g.labels(25))
		}
	}
	s.State = g.state(false)
	if g.pct(30) {
		s.Attempts, s.Flake, s.MPR = g.n(0, 3), g.n(0, 3), g.n(0, 3)
	}
	for i := g.n(0, 3); i > 0; i-- {
		s.GW += g.text()
	}
	if g.pct(30) {
		s.Out = g.text()
	}
	failing := States[s.State].Is(types.SpecStateFailureStates)
	n := 0
	if failing || States[s.State] == types.SpecStateSkipped && g.pct(50) {
		s.Fail = g.fail(s.GW, 0)
		if !failing {
			s.Fail.More, s.Fail.PR, s.Fail.Panic = nil, nil, ""
		}
		if c := contexts[s.Fail.Ctx]; c == types.FailureNodeInContainer && len(s.Texts) > 0 {
			s.Fail.Index = g.n(0, len(s.Texts)-1)
		} else if c == types.FailureNodeInContainer {
			s.Fail.Ctx = 0
		}
	}
	for failing && g.pct(20) {
		f := g.fail(s.GW, 1)
		f.State = g.state(true)
		if c := contexts[f.Ctx]; c == types.FailureNodeInContainer && len(s.Texts) > 0 {
			f.Index = g.n(0, len(s.Texts)-1)
		} else if c == types.FailureNodeInContainer {
			f.Ctx = 0
		}
		s.Add = append(s.Add, *f)
	}
	kinds := g.o.Values
	if kinds == nil {
		kinds = []string{"", "string", "int", "struct", "stringer", "color", "ptr"}
	}
	for n = g.n(0, 2); n > 0; n-- {
		s.Entries = append(s.Entries, Entry{Name: g.text(), Vis: g.n(0, 2), Kind: kinds[vf.U(g.t, "kind", len(kinds))], Str: g.text(), N: g.n(0, 100), Loc: g.loc(), TL: g.tl(s.GW)})
	}
	if g.pct(20) {
		s.Progress = append(s.Progress, *g.progress(s.GW))
	}
	for n = g.n(0, 3); n > 0; n-- {
		s.Events = append(s.Events, Event{Type: g.n(0, len(EventTypes)-1), Msg: g.text(), Dur: g.n(0, 5000), NodeType: g.n(0, len(NodeTypes)-1), Attempt: g.n(0, 3), Loc: g.loc(), TL: g.tl(s.GW)})
	}
	g.arrange(&s)
	return s
}

// arrange shuffles what happened; the later something happened, the more had been written to the GinkgoWriter.
func (g *gen) arrange(s *Spec) {
	tls := s.timeline()
	var offs, orders []int
	for _, tl := range tls {
		offs, orders = append(offs, tl.Offset), append(orders, tl.Order)
	}
	sort.Ints(offs)
	sort.Ints(orders)
	for i, left := range tls {
		j := i + vf.U(g.t, "swap", len(tls)-i)
		tls[i], tls[j] = tls[j], left
		tls[i].Offset, tls[i].Order = offs[i], orders[i]
	}
}

// timeline lists where the parts of the spec are on its timeline.
func (s *Spec) timeline() []*TL {
	var tls []*TL
	if s.Fail != nil {
		tls = append(tls, &s.Fail.TL)
		if s.Fail.More != nil {
			tls = append(tls, &s.Fail.More.TL)
		}
	}
	for i := range s.Add {
		tls = append(tls, &s.Add[i].TL)
	}
	for i := range s.Entries {
		tls = append(tls, &s.Entries[i].TL)
	}
	for i := range s.Progress {
		tls = append(tls, &s.Progress[i].TL)
	}
	for i := range s.Events {
		tls = append(tls, &s.Events[i].TL)
	}
	return tls
}

var epoch = time.Date(2026, 3, 4, 5, 6, 7, 890123456, time.FixedZone("X", 3600))

func at(ms int) time.Time { return epoch.Add(time.Duration(ms) * time.Millisecond) }

func (l Loc) Build() types.CodeLocation {
	return types.CodeLocation{FileName: l.File, LineNumber: l.Line, FullStackTrace: l.Stack, CustomMessage: l.Custom}
}

func (t TL) Build() types.TimelineLocation {
	return types.TimelineLocation{Offset: t.Offset, Order: t.Order, Time: at(t.MS)}
}

func (f *Fail) Build() types.Failure {
	if f == nil {
		return types.Failure{}
	}
	out := types.Failure{Message: f.Msg, ForwardedPanic: f.Panic, Location: f.Loc.Build(), TimelineLocation: f.TL.Build(), FailureNodeContext: contexts[f.Ctx], FailureNodeType: NodeTypes[f.NodeType], FailureNodeLocation: f.At.Build(), FailureNodeContainerIndex: f.Index}
	if f.PR != nil {
		out.ProgressReport = f.PR.Build()
	}
	if f.More != nil {
		m := f.More.BuildAdditional()
		out.AdditionalFailure = &m
	}
	return out
}

func (f *Fail) BuildAdditional() types.AdditionalFailure {
	return types.AdditionalFailure{State: States[f.State], Failure: f.Build()}
}

func (p *Progress) Build() types.ProgressReport {
	out := types.ProgressReport{Message: p.Msg, ParallelProcess: p.Proc, RunningInParallel: p.Par, ContainerHierarchyTexts: p.Texts, LeafNodeText: p.Leaf, LeafNodeLocation: p.LeafLoc.Build(), SpecStartTime: at(p.Start),
		CurrentNodeType: NodeTypes[p.NodeType], CurrentNodeText: p.Node, CurrentNodeLocation: p.NodeLoc.Build(), CurrentNodeStartTime: at(p.NodeStart), CurrentStepText: p.Step, CurrentStepLocation: p.StepLoc.Build(),
		AdditionalReports: p.Add, CapturedGinkgoWriterOutput: p.GW, TimelineLocation: p.TL.Build()}
	if p.Step != "" {
		out.CurrentStepStartTime = at(p.StepMS)
	}
	for _, g := range p.Gs {
		gr := types.Goroutine{ID: uint64(g.ID), State: g.State, IsSpecGoroutine: g.Spec}
		for _, c := range g.Stack {
			gr.Stack = append(gr.Stack, types.FunctionCall{Function: c.Func, Filename: c.File, Line: c.Line, Highlight: c.High, Source: c.Source, SourceHighlight: c.SrcHigh})
		}
		out.Goroutines = append(out.Goroutines, gr)
	}
	return out
}

// FullText is the text of the spec with those of its containers.
func (s Spec) FullText() string {
	out := s.Leaf
	for i := len(s.Texts) - 1; i >= 0; i-- {
		switch {
		case i == len(s.Texts)-1 && s.Leaf == "":
			out = s.Texts[i]
		default:
			out = s.Texts[i] + " " + out
		}
	}
	return out
}

// AllLabels are the labels of the spec, outermost first, each once.
func (s Spec) AllLabels() []string {
	var out []string
	for _, ls := range append(slices.Clone(s.Labels), s.LeafLabels) {
		for _, l := range ls {
			if !slices.Contains(out, l) {
				out = append(out, l)
			}
		}
	}
	return out
}

func (s Spec) NodeType() types.NodeType { return leafTypes[s.Type] }
func (s Spec) Failed() bool             { return States[s.State].Is(types.SpecStateFailureStates) }

// Build makes the report of the spec.
func (s Spec) Build() types.SpecReport {
	out := types.SpecReport{ContainerHierarchyTexts: s.Texts, ContainerHierarchyLabels: s.Labels, LeafNodeType: leafTypes[s.Type], LeafNodeLocation: s.LeafLoc.Build(), LeafNodeLabels: s.LeafLabels, LeafNodeText: s.Leaf, State: States[s.State],
		IsSerial: s.Serial, IsInOrderedContainer: s.Ordered, StartTime: at(s.Start), EndTime: at(s.Start + s.Run), RunTime: time.Duration(s.Run) * time.Millisecond, ParallelProcess: s.Proc, RunningInParallel: s.Par,
		Failure: s.Fail.Build(), NumAttempts: s.Attempts, MaxFlakeAttempts: s.Flake, MaxMustPassRepeatedly: s.MPR, CapturedGinkgoWriterOutput: s.GW, CapturedStdOutErr: s.Out}
	for _, l := range s.Locs {
		out.ContainerHierarchyLocations = append(out.ContainerHierarchyLocations, l.Build())
	}
	for i := range s.Add {
		out.AdditionalFailures = append(out.AdditionalFailures, s.Add[i].BuildAdditional())
	}
	for _, e := range s.Entries {
		out.ReportEntries = append(out.ReportEntries, types.ReportEntry{Name: e.Name, Visibility: types.ReportEntryVisibility(e.Vis), Location: e.Loc.Build(), Time: at(e.TL.MS), TimelineLocation: e.TL.Build(), Value: types.WrapEntryValue(e.Value())})
	}
	for i := range s.Progress {
		out.ProgressReports = append(out.ProgressReports, s.Progress[i].Build())
	}
	for _, e := range s.Events {
		out.SpecEvents = append(out.SpecEvents, types.SpecEvent{SpecEventType: EventTypes[e.Type], CodeLocation: e.Loc.Build(), TimelineLocation: e.TL.Build(), Message: e.Msg, Duration: time.Duration(e.Dur) * time.Millisecond, NodeType: NodeTypes[e.NodeType], Attempt: e.Attempt})
	}
	return out
}

// Build makes the report.
func (r Report) Build() types.Report {
	out := types.Report{SuitePath: r.Path, SuiteDescription: r.Desc, SuiteLabels: r.Labels, SuiteSucceeded: r.OK, SuiteHasProgrammaticFocus: r.Focus, SpecialSuiteFailureReasons: r.Special, PreRunStats: types.PreRunStats{TotalSpecs: r.Total, SpecsThatWillRun: r.Will},
		StartTime: at(r.Start), EndTime: at(r.Start + r.Run), RunTime: time.Duration(r.Run) * time.Millisecond}
	out.SuiteConfig.RandomSeed, out.SuiteConfig.ParallelTotal, out.SuiteConfig.LabelFilter, out.SuiteConfig.FocusStrings = int64(r.Seed), r.Procs, r.Filter, r.FocusStr
	for _, s := range r.Specs {
		out.SpecReports = append(out.SpecReports, s.Build())
	}
	return out
}

// Kinds of values.
type Struct struct {
	Name string
	N    int
	Kids []Struct `json:",omitempty"`
}

type Stringer struct{ S string }

func (s Stringer) String() string { return "<" + s.S + ">" }

type Color struct{ S string }

func (c Color) ColorableString() string { return "{{red}}" + c.S + "{{/}}" }
func (c Color) String() string          { return "plain " + c.S }

type Bad struct{ C chan int }

type BadStringer struct{ F func() }

func (BadStringer) String() string { return "bad but stringy" }

type NullJSON struct{ S string }

func (NullJSON) MarshalJSON() ([]byte, error) { return []byte("null"), nil }

// Value is the object the entry carries.
func (e Entry) Value() any {
	switch e.Kind {
	case "string":
		return e.Str
	case "int":
		return e.N
	case "float":
		return float64(e.N) / 7
	case "bool":
		return e.N%2 == 0
	case "struct":
		return Struct{Name: e.Str, N: e.N, Kids: []Struct{{Name: "kid"}}}
	case "ptr":
		return &Struct{Name: e.Str, N: e.N}
	case "nilptr":
		return (*Struct)(nil)
	case "slice":
		return []string{e.Str, "x"}
	case "map":
		return map[string]int{e.Str: e.N}
	case "stringer":
		return Stringer{e.Str}
	case "color":
		return Color{e.Str}
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "bad":
		return Bad{}
	case "badstringer":
		return BadStringer{}
	case "nulljson":
		return NullJSON{e.Str}
	case "cyclic":
		m := map[string]any{}
		m["self"] = func() any { return m }
		return m
	case "error":
		return errorf(e.Str)
	case "bigint":
		return int64(1)<<53 + int64(e.N)
	case "nested":
		return map[string]any{e.Str: []any{uint64(1)<<63 + uint64(e.N), Struct{N: 1<<60 + e.N}, 1.5e300, nil}}
	case "time":
		return time.Date(2020, 1, 2, 3, 4, 5, e.N, time.UTC)
	case "rawjson":
		return json.RawMessage(fmt.Sprintf(`{"z":%d.000000000000000000001,"a":[]}`, e.N))
	case "nilstringer":
		return (*Stringer)(nil)
	case "nilcolor":
		return (*Color)(nil)
	case "niltime":
		return (*time.Time)(nil)
	}
	return nil
}

type errorf string

func (e errorf) Error() string { return string(e) }

// Clean says whether the text survives JSON as it is.
func Clean(s string) bool { return strings.ToValidUTF8(s, "") == s }

// Shown is how the value is to be represented, where that is easy to say.
func (e Entry) Shown() (string, bool) {
	switch e.Kind {
	case "":
		return "", true
	case "string":
		return e.Str, true
	case "stringer":
		return "<" + e.Str + ">", true
	case "color":
		return "{{red}}" + e.Str + "{{/}}", true
	case "badstringer":
		return "bad but stringy", true
	case "error":
		return e.Str, true
	case "nilstringer", "nilcolor", "niltime":
		return "<nil>", true
	case "bigint":
		return fmt.Sprint(int64(1)<<53 + int64(e.N)), true
	case "bool":
		if e.N%2 == 0 {
			return "true", true
		}
		return "false", true
	}
	return "", false
}
