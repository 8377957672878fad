package prog

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2/types"
)

// This file is the reference model: from a program and the order in which specs were started it says which
// bodies are entered, in which order, and what is reported for every spec. It is written from Ginkgo's
// documentation (the "mental model" and "Ordered containers" chapters), on the data of Prog only.

// Out is the canonical form of one reported node or spec.
type Out struct {
	Type     string
	Line     int
	State    string
	Fail     string
	Extra    []string
	Attempts int
	Entries  []string
	GW       string
	StdOut   string
	Events   []string
}

func (o Out) String() string {
	return fmt.Sprintf("%s %d %s fail=%q extra=%q attempts=%d entries=%v gw=%q out=%q events=%v", o.Type, o.Line, o.State, o.Fail, o.Extra, o.Attempts, o.Entries, o.GW, o.StdOut, o.Events)
}

// Expected is what the model predicts.
type Expected struct {
	Trace     []string
	Reports   []Out
	Success   bool
	HasFocus  bool
	Special   []string
	SBSState  string // outcome of the first body of SynchronizedBeforeSuite
	Looped    bool   // the process went on to run specs
	RBSFailed bool   // a ReportBeforeSuite node failed
	// Known is set when the history meets a listed known finding (DESIGN.md): what follows is not predicted.
	Known string
	// Odd lists obligations the predicted history itself does not meet (cleanup that is never run, is run by an unrelated
	// spec, or runs twice): always empty, or the model has drifted from what is promised.
	Odd []string
}

type mfail struct {
	state string
	node  string // type@line
	msg   string
	add   *mfail
}

func (f *mfail) canon() string {
	if f == nil {
		return ""
	}
	s := f.state + " " + f.node + " " + f.msg
	if f.add != nil {
		s += " {" + f.add.canon() + "}"
	}
	return s
}

// CanonFailure renders a real failure in the model's terms.
func CanonFailure(state types.SpecState, f types.Failure) string {
	if f.IsZero() {
		return ""
	}
	msg := f.Message
	if f.ForwardedPanic != "" {
		msg += "|" + f.ForwardedPanic
	}
	where := ""
	switch f.FailureNodeContext {
	case types.FailureNodeIsLeafNode:
		where = "leaf"
	case types.FailureNodeAtTopLevel:
		where = "top"
	case types.FailureNodeInContainer:
		where = fmt.Sprintf("in%d", f.FailureNodeContainerIndex)
	}
	line := f.FailureNodeLocation.LineNumber
	s := fmt.Sprintf("%s %s@%d/%s %s", state, f.FailureNodeType, line, where, msg)
	if f.AdditionalFailure != nil {
		s += " {" + CanonFailure(f.AdditionalFailure.State, f.AdditionalFailure.Failure) + "}"
	}
	return s
}

// TimesSound says what is wrong with the times of a report of a node that ran.
func TimesSound(r types.SpecReport) error {
	if r.StartTime.IsZero() || (r.NumAttempts == 0 && r.LeafNodeType.Is(types.NodeTypeIt)) {
		return nil
	}
	if r.EndTime.Before(r.StartTime) || r.RunTime != r.EndTime.Sub(r.StartTime) {
		return fmt.Errorf("it ran from %s to %s, in %s", r.StartTime, r.EndTime, r.RunTime)
	}
	return nil
}

// CanonReport renders a real report in the model's terms.
// TimelineSound says what is wrong with the timeline of a report.
func TimelineSound(r types.SpecReport) error {
	last := types.TimelineLocation{}
	for i, e := range r.Timeline() {
		l := e.GetTimelineLocation()
		if i > 0 && l.Order <= last.Order {
			return fmt.Errorf("two events of the timeline have order %d and %d", last.Order, l.Order)
		}
		if l.Offset < last.Offset || l.Offset > len(r.CapturedGinkgoWriterOutput) {
			return fmt.Errorf("an event (%T) of the timeline is at offset %d of %d bytes, after one at %d", e, l.Offset, len(r.CapturedGinkgoWriterOutput), last.Offset)
		}
		last = l
	}
	return nil
}

func CanonReport(r types.SpecReport) Out {
	o := Out{Type: r.LeafNodeType.String(), Line: r.LeafNodeLocation.LineNumber, State: r.State.String(), Attempts: r.NumAttempts,
		GW: r.CapturedGinkgoWriterOutput, StdOut: r.CapturedStdOutErr}
	o.Fail = CanonFailure(r.State, r.Failure)
	for _, a := range r.AdditionalFailures {
		o.Extra = append(o.Extra, CanonFailure(a.State, a.Failure))
	}
	for _, e := range r.ReportEntries {
		o.Entries = append(o.Entries, fmt.Sprintf("%s=%s/%s @%d", e.Name, e.StringRepresentation(), e.Visibility, e.TimelineLocation.Offset))
	}
	for _, e := range r.SpecEvents {
		switch {
		case e.SpecEventType.Is(types.SpecEventNodeStart), e.SpecEventType.Is(types.SpecEventNodeEnd):
			o.Events = append(o.Events, fmt.Sprintf("%s %s %s @%d", e.SpecEventType, e.NodeType, e.Message, e.TimelineLocation.Offset))
		case e.SpecEventType.Is(types.SpecEventSpecRepeat), e.SpecEventType.Is(types.SpecEventSpecRetry):
			o.Events = append(o.Events, fmt.Sprintf("%s %d @%d", e.SpecEventType, e.Attempt, e.TimelineLocation.Offset))
		default:
			o.Events = append(o.Events, fmt.Sprintf("%s %s @%d", e.SpecEventType, e.Message, e.TimelineLocation.Offset))
		}
	}
	return o
}

var stateName = map[string]types.SpecState{
	"passed": types.SpecStatePassed, "failed": types.SpecStateFailed, "skipped": types.SpecStateSkipped, "pending": types.SpecStatePending,
	"panicked": types.SpecStatePanicked, "aborted": types.SpecStateAborted, "interrupted": types.SpecStateInterrupted, "timedout": types.SpecStateTimedout,
}

func isFailure(s string) bool {
	switch s {
	case "failed", "panicked", "aborted", "interrupted", "timedout":
		return true
	}
	return false
}

// typeName maps a node kind to the name reports use.
func typeName(kind string) string {
	t := map[string]types.NodeType{"C": types.NodeTypeContainer, "It": types.NodeTypeIt, "BE": types.NodeTypeBeforeEach, "JBE": types.NodeTypeJustBeforeEach,
		"AE": types.NodeTypeAfterEach, "JAE": types.NodeTypeJustAfterEach, "BA": types.NodeTypeBeforeAll, "AA": types.NodeTypeAfterAll,
		"RBE": types.NodeTypeReportBeforeEach, "RAE": types.NodeTypeReportAfterEach, "BS": types.NodeTypeBeforeSuite, "AS": types.NodeTypeAfterSuite,
		"SBS": types.NodeTypeSynchronizedBeforeSuite, "SAS": types.NodeTypeSynchronizedAfterSuite, "RBS": types.NodeTypeReportBeforeSuite, "RAS": types.NodeTypeReportAfterSuite,
		"XE": types.NodeTypeCleanupAfterEach, "XA": types.NodeTypeCleanupAfterAll, "XS": types.NodeTypeCleanupAfterSuite}[kind]
	return t.String()
}

type mcleanup struct {
	act   Act
	scope string // XE, XA, XS
	gen   int    // id of the node whose body registered it
	level int
	order int
	group int // the execution group it was registered in
}

type model struct {
	on       Proc
	p        *Prog
	exp      *Expected
	count    map[int]int
	cleanups []mcleanup
	intLevel int
	skipAll  bool
	ok       bool
	cur      *Out // the report being built
	gwNode   string
	outBuf   string
	seq      int
	// spec in progress
	curSpec   *Spec
	curFail   *mfail
	specLate  bool // the spec's own deadline has passed
	suiteLate bool
}

func (m *model) tr(format string, args ...any) {
	m.exp.Trace = append(m.exp.Trace, fmt.Sprintf(format, args...))
}

// offset is where in the spec's GinkgoWriter output we are.
func (m *model) offset() int { return len(m.cur.GW) + len(m.gwNode) }

func (m *model) event(format string, args ...any) {
	m.cur.Events = append(m.cur.Events, fmt.Sprintf(format, args...)+fmt.Sprintf(" @%d", m.offset()))
}

// ModelFilters marks the specs the configuration and the programmatic focus filter out.
// labelOK and fileOK are independent evaluators the caller supplies for the two filter languages (nil: filter unused).
func ModelFilters(p *Prog, labelOK func(labels []string) bool, fileOK func(filters []string, s *Spec) bool) (specs []*Spec, hasFocus bool) {
	specs = p.Specs()
	// programmatic focus: a focused container counts only if nothing focused (and not pending) lives beneath it
	effective := map[*Node]bool{}
	var walk func(n *Node) bool
	walk = func(n *Node) bool {
		if n.Dec.Pending {
			if n.Dec.Focus {
				effective[n] = true
			}
			// nothing below a pending container influences the focus of what is above it
			return false
		}
		below := false
		for _, k := range n.Kids {
			if walk(k) {
				below = true
			}
		}
		if n.Dec.Focus && !below {
			effective[n] = true
		}
		return n.Dec.Focus || below
	}
	for _, n := range p.Top {
		walk(n)
	}
	for _, s := range specs {
		for _, n := range s.nodes() {
			if effective[n] {
				s.Focus = true
			}
		}
		// a focused spec under a pending container: never runs, never focuses
		if s.Focus && !s.Pending() {
			hasFocus = true
		}
	}
	c := p.Conf
	for _, s := range specs {
		text := p.desc() + " " + s.Text()
		switch {
		case s.Pending(), hasFocus && !s.Focus:
			s.Skip = true
		case labelOK != nil && c.LabelFilter != "" && !labelOK(s.Labels(c.SuiteLabels)):
			s.Skip = true
		case fileOK != nil && len(c.FocusFiles) > 0 && !fileOK(c.FocusFiles, s):
			s.Skip = true
		case fileOK != nil && len(c.SkipFiles) > 0 && fileOK(c.SkipFiles, s):
			s.Skip = true
		case len(c.Focus) > 0 && !anyMatch(c.Focus, text):
			s.Skip = true
		case len(c.Skip) > 0 && anyMatch(c.Skip, text):
			s.Skip = true
		}
	}
	return specs, hasFocus
}

func anyMatch(res []string, text string) bool {
	for _, r := range res {
		if regexp.MustCompile(r).MatchString(text) {
			return true
		}
	}
	return false
}

// Labels is the set of labels that apply to the spec.
func (s *Spec) Labels(suite []string) []string {
	seen := map[string]bool{}
	out := []string{}
	add := func(l string) {
		l = strings.TrimSpace(l)
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	for _, l := range suite {
		add(l)
	}
	for _, n := range s.nodes() {
		for _, l := range n.Dec.Labels {
			add(l)
		}
		if n.Dec.Serial {
			add("Serial")
		}
	}
	sort.Strings(out)
	return out
}

// Group is the key of the execution group of a spec: the outermost Ordered container, or the spec itself.
func (s *Spec) Group() int {
	if i := s.OrderedAt(); i >= 0 {
		return s.Path[i].ID
	}
	return s.It.ID
}

// Proc is what a process of a parallel run knows of the others (the zero value, with Proc 1, is a serial run).
type Proc struct {
	Proc, Total int
	RBSFailed   bool   // other procs: a ReportBeforeSuite node failed on process 1
	SBSState    string // other procs: the outcome of the first body of SynchronizedBeforeSuite on process 1
	OthersOK    bool   // process 1: no other process saw a failure
	OthersIts   int    // process 1: the specs the others reported
	OthersGone  bool   // process 1: another process disappeared
}

// Predict runs the model for a serial run.
func Predict(p *Prog, specs []*Spec, hasFocus bool, order []int) *Expected {
	return PredictProc(p, specs, hasFocus, order, Proc{Proc: 1, Total: 1, OthersOK: true})
}

// PredictProc runs the model. specs carries the Skip marks; order lists the spec (It) ids in the order they were started.
func PredictProc(p *Prog, specs []*Spec, hasFocus bool, order []int, on Proc) *Expected {
	m := &model{p: p, on: on, exp: &Expected{HasFocus: hasFocus}, count: map[int]int{}, ok: true}
	byID := map[int]*Spec{}
	willRun := 0
	anyPending := false
	for _, s := range specs {
		byID[s.It.ID] = s
		if !s.Skip {
			willRun++
		}
		anyPending = anyPending || s.Pending()
	}
	suiteNode := func(kinds ...string) []*Node {
		out := []*Node{}
		for _, n := range p.Suite {
			for _, k := range kinds {
				if n.Kind == k {
					out = append(out, n)
				}
			}
		}
		return out
	}
	if on.Proc > 1 && on.RBSFailed {
		m.ok = false
	}
	for _, n := range suiteNode("RBS") {
		if on.Proc > 1 {
			break
		}
		m.suiteReportNode(n, func() {
			m.tr("RBS%d sees 0 specs of %d/%d ok=%v", n.ID, willRun, len(specs), m.ok)
		}, true)
	}
	ran := m.ok
	m.exp.RBSFailed = !m.ok
	if m.ok && willRun > 0 {
		for _, n := range suiteNode("BS", "SBS") {
			m.suiteNode(n)
			if m.cur.State == "skipped" {
				m.exp.Special = append(m.exp.Special, "Suite skipped in BeforeSuite")
				m.skipAll = true
			}
			m.finish()
		}
	}
	m.exp.Looped = m.ok
	if m.ok {
		for i := 0; i < len(order); {
			s := byID[order[i]]
			if s == nil {
				m.tr("unknown spec %d", order[i])
				i++
				continue
			}
			j := i
			members := []*Spec{}
			for j < len(order) && byID[order[j]] != nil && byID[order[j]].Group() == s.Group() {
				members = append(members, byID[order[j]])
				j++
			}
			from := len(m.exp.Trace)
			m.group(members)
			if m.intLevel < 2 && m.exp.Known == "" {
				m.odd(members, m.exp.Trace[from:])
			}
			if m.exp.Known != "" {
				return m.exp
			}
			i = j
		}
		if p.Conf.FailOnPending && anyPending {
			m.ok = false
			m.exp.Special = append(m.exp.Special, "Detected pending specs and --fail-on-pending is set")
		}
		if p.Conf.FailOnEmpty && willRun == 0 {
			m.ok = false
			m.exp.Special = append(m.exp.Special, "Detected no specs ran and --fail-on-empty is set")
		}
	}
	if ran {
		if willRun > 0 {
			for _, n := range suiteNode("AS", "SAS") {
				m.suiteNode(n)
				m.finish()
			}
		}
		xs := []mcleanup{}
		for i := len(m.cleanups) - 1; i >= 0; i-- {
			if m.cleanups[i].scope == "XS" {
				xs = append(xs, m.cleanups[i])
			}
		}
		for _, x := range xs {
			m.begin("XS", x.act.ID, "")
			if !p.Conf.DryRun {
				m.gwNode, m.outBuf = "", ""
				m.drop(x)
				f := m.runCleanup(x, nil)
				m.settle(f)
				m.cur.GW += m.gwNode
				m.cur.StdOut += m.outBuf
			} else {
				m.cur.State = "passed"
			}
			m.finish()
		}
	}
	if m.intLevel > 0 {
		m.ok = false
		m.exp.Special = append(m.exp.Special, "Interrupted by User")
	}
	if m.suiteLate {
		m.ok = false
		m.exp.Special = append(m.exp.Special, "Suite Timeout Elapsed")
	}
	its := 0
	for _, r := range m.exp.Reports {
		if r.Type == typeName("It") {
			its++
		}
	}
	for _, n := range suiteNode("RAS") {
		if on.Proc > 1 {
			break
		}
		if on.OthersGone {
			m.begin("RAS", n.line(), "")
			m.settle(&mfail{state: "failed", node: fmt.Sprintf("%s@%d/leaf", typeName("RAS"), n.line()), msg: types.GinkgoErrors.AggregatedReportUnavailableDueToNodeDisappearing().Error()})
			m.finish()
			continue
		}
		m.suiteReportNode(n, func() { m.tr("RAS%d sees %d specs ok=%v", n.ID, its+on.OthersIts, m.ok && on.OthersOK) }, false)
	}
	m.exp.Success = m.ok
	return m.exp
}

func (m *model) begin(kind string, line int, will string) {
	m.cur = &Out{Type: typeName(kind), Line: line}
	if will == "" {
		will = types.SpecState(0).String()
	}
	m.tr("will %s %d %s", typeName(kind), line, will)
}

func (m *model) finish() {
	if m.cur.State == "" {
		m.cur.State = types.SpecState(0).String()
	}
	m.tr("did %s %d %s", m.cur.Type, m.cur.Line, m.cur.State)
	m.exp.Reports = append(m.exp.Reports, *m.cur)
	if isFailure(m.cur.State) {
		m.ok = false
		if m.p.Conf.FailFast || m.cur.State == "aborted" {
			m.skipAll = true
		}
	}
}

// settle makes the outcome of a node the outcome of the report.
func (m *model) settle(f *mfail) {
	m.cur.State = f.state
	m.cur.Fail = ""
	m.curFail = nil
	if f.state != "passed" && f.msg != "" {
		m.curFail = f
		m.cur.Fail = f.canon()
	}
}

func (m *model) suiteNode(n *Node) {
	m.begin(n.Kind, n.line(), "")
	if m.p.Conf.DryRun {
		m.cur.State = "passed"
		return
	}
	m.gwNode, m.outBuf = "", ""
	all := func() {
		m.settle(m.runNode(n, n.Kind, "leaf", "TOP-LEVEL", 0, func() {
			m.tr("SBSall%d data=%q", n.ID, n.SBSData())
		}, &second{"SBSall", -n.ID, n.Acts2}))
	}
	if n.Kind == "SBS" && m.on.Proc > 1 {
		switch st := m.on.SBSState; st {
		case "gone":
			m.settle(&mfail{state: "failed", node: fmt.Sprintf("%s@%d/leaf", typeName("SBS"), n.line()), msg: types.GinkgoErrors.SynchronizedBeforeSuiteDisappearedOnProc1().Error()})
		case "passed":
			all()
		case "failed", "panicked", "timedout":
			m.settle(&mfail{state: "failed", node: fmt.Sprintf("%s@%d/leaf", typeName("SBS"), n.line()), msg: types.GinkgoErrors.SynchronizedBeforeSuiteFailedOnProc1().Error()})
		default:
			m.cur.State = st
		}
		m.cur.GW += m.gwNode
		m.cur.StdOut += m.outBuf
		return
	}
	f := m.runNode(n, n.Kind, "leaf", "TOP-LEVEL", 0, nil, nil)
	m.settle(f)
	if n.Kind == "SBS" {
		m.exp.SBSState = f.state
	}
	switch n.Kind {
	case "SBS":
		if f.state == "passed" {
			all()
		}
	case "SAS":
		if m.on.Proc > 1 {
			break
		}
		f2 := m.runNode(n, n.Kind, "leaf", "TOP-LEVEL", 0, nil, &second{"SASone", -n.ID, n.Acts2})
		switch {
		case m.cur.State == "passed", isFailure(f2.state) && !isFailure(m.cur.State):
			m.settle(f2)
		case isFailure(f2.state):
			m.cur.Extra = append(m.cur.Extra, f2.canon())
		}
	}
	m.cur.GW += m.gwNode
	m.cur.StdOut += m.outBuf
}

func (m *model) suiteReportNode(n *Node, sees func(), before bool) {
	m.begin(n.Kind, n.line(), "")
	m.gwNode, m.outBuf = "", ""
	text := n.text()
	if n.Kind == "RBS" {
		text = ""
	}
	_ = text
	f := m.runNode(n, n.Kind, "leaf", "TOP-LEVEL", 0, sees, nil)
	m.settle(f)
	m.cur.GW += m.gwNode
	m.cur.StdOut += m.outBuf
	m.finish()
}

type second struct {
	tag  string
	id   int
	acts []Act
}

// allowed says whether a node of this kind still runs at the present interrupt level.
func (m *model) allowed(kind string) bool {
	report := kind == "RBE" || kind == "RAE" || kind == "RBS" || kind == "RAS"
	clean := kind == "AE" || kind == "JAE" || kind == "AA" || kind == "AS" || kind == "SAS" || kind == "XE" || kind == "XA" || kind == "XS"
	switch m.intLevel {
	case 0:
		return true
	case 1:
		return report || clean
	case 2:
		return report
	}
	return false
}

// runNode runs one node body. where places it ("leaf", "top", "in<k>").
func (m *model) runNode(n *Node, kind, where, text string, level int, pre func(), alt *second) *mfail {
	if !m.allowed(kind) {
		return &mfail{state: "skipped"}
	}
	node := fmt.Sprintf("%s@%d/%s", typeName(kind), n.line(), where)
	m.event("%s %s %s", types.SpecEventNodeStart, typeName(kind), text)
	if pre != nil {
		pre()
	}
	tag, id, acts := kind, n.ID, n.Acts
	if alt != nil {
		tag, id, acts = alt.tag, alt.id, alt.acts
	}
	scope := "XE"
	switch kind {
	case "BA", "AA":
		scope = "XA"
	case "BS", "AS", "SBS", "SAS":
		scope = "XS"
	}
	f := m.body(tag, id, acts, node, scope, n.ID, level, n.Dec)
	m.event("%s %s %s", types.SpecEventNodeEnd, typeName(kind), text)
	return f
}

func (m *model) drop(x mcleanup) {
	out := m.cleanups[:0:0]
	for _, c := range m.cleanups {
		if c.order != x.order {
			out = append(out, c)
		}
	}
	m.cleanups = out
}

func (m *model) runCleanup(x mcleanup, s *Spec) *mfail {
	if !m.allowed(x.scope) {
		return &mfail{state: "skipped"}
	}
	if s != nil && s.Group() != x.group {
		m.exp.Odd = append(m.exp.Odd, fmt.Sprintf("cleanup %d runs in an unrelated spec", x.act.ID))
		return &mfail{state: "passed"}
	}
	where, text := "top", "TOP-LEVEL"
	if x.scope == "XS" {
		where = "leaf"
	} else if x.level > 0 {
		where = fmt.Sprintf("in%d", x.level-1)
	}
	if s != nil && x.level > 0 {
		text = bestText(s.Path[x.level-1])
	}
	m.event("%s %s %s", types.SpecEventNodeStart, typeName(x.scope), text)
	d := Dec{}
	if x.act.Msg == "ctx" {
		d.Ctx = true
		d.NodeTimeoutMS = x.act.N
	}
	if x.act.Msg == "ctxargs" || x.act.Msg == "ctxboth" {
		d.Ctx = true
	}
	f := m.body("X", x.act.ID, x.act.Sub, fmt.Sprintf("%s@%d/%s", typeName(x.scope), x.act.ID, where), x.scope, 0, x.level, d)
	m.event("%s %s %s", types.SpecEventNodeEnd, typeName(x.scope), text)
	return f
}

func bestText(c *Node) string {
	if t := c.text(); t != "" {
		return t
	}
	return "TOP-LEVEL"
}

// body interprets the actions of one execution.
func (m *model) body(tag string, id int, acts []Act, node, scope string, gen, level int, d Dec) *mfail {
	var first *mfail // what the Failer holds
	var outer *mfail // a timeout or an interrupt, which decides the outcome
	set := func(state, msg string) {
		if first == nil {
			first = &mfail{state: state, node: node, msg: msg}
		}
	}
	what := ""
	stopped, lost := false, false
	var run func(tag string, id int, acts []Act)
	run = func(tag string, id int, acts []Act) {
		m.count[id]++
		n := m.count[id]
		m.tr("%s%d#%d", tag, id, n)
		reterr := false
		for _, a := range acts {
			if !a.Applies(n) || !a.OnProc(m.on.Proc) {
				continue
			}
			switch a.Op {
			case "fail":
				set("failed", a.Msg)
				stopped = true
			case "gofail":
				set("failed", a.Msg)
			case "skip":
				set("skipped", a.Msg)
				stopped = true
			case "abort":
				set("aborted", a.Msg)
				stopped = true
			case "panic":
				set("panicked", "Test Panicked|"+a.Msg)
				stopped = true
			case "goexit":
				set("panicked", "Test Panicked|<nil>")
				stopped = true
			case "cleanup":
				m.seq++
				grp := 0
				if m.curSpec != nil {
					grp = m.curSpec.Group()
				}
				m.cleanups = append(m.cleanups, mcleanup{act: a, scope: scope, gen: gen, level: level, order: m.seq, group: grp})
			case "entry":
				vis := []types.ReportEntryVisibility{types.ReportEntryVisibilityAlways, types.ReportEntryVisibilityFailureOrVerbose, types.ReportEntryVisibilityNever}[a.N%3]
				m.cur.Entries = append(m.cur.Entries, fmt.Sprintf("%s=v-%s/%s @%d", a.Msg, a.Msg, vis, m.offset()))
			case "by":
				m.event("%s %s", types.SpecEventByStart, a.Msg)
			case "bycb":
				m.event("%s %s", types.SpecEventByStart, a.Msg)
				run("B", a.ID, a.Sub)
				if !lost {
					m.event("%s %s", types.SpecEventByEnd, a.Msg)
				}
			case "gw":
				m.gwNode += a.Msg
			case "out":
				m.outBuf += a.Msg
			case "reterr":
				reterr = true
			case "wait":
				what = m.timeout(d)
				if outer == nil {
					outer = &mfail{state: "timedout", node: node, msg: "A " + what + " timeout occurred"}
				}
				if !d.Ctx {
					stopped, lost = true, true
				} else {
					m.tr("%s%d told:%s timeout occurred", tag, id, what)
				}
			case "int":
				m.intLevel++
				if outer == nil {
					outer = &mfail{state: "interrupted", node: node, msg: "Interrupted by User"}
				}
				if !d.Ctx {
					stopped, lost = true, true
				} else {
					m.tr("%s%d told:Interrupted by User", tag, id)
				}
			case "int2":
				m.intLevel++
				if outer == nil {
					outer = &mfail{state: "interrupted", node: node, msg: "Interrupted by User"}
				}
				if d.Ctx {
					m.intLevel++
				}
				stopped, lost = true, true
			case "hang":
				stopped, lost = true, true
				if outer == nil {
					what = m.timeout(d)
				}
				if outer == nil {
					outer = &mfail{state: "timedout", node: node, msg: "A " + what + " timeout occurred"}
				}
			}
			if stopped {
				return
			}
		}
		if reterr && (tag == "X") {
			set("failed", "DeferCleanup callback returned error: cleanup error")
		}
	}
	run(tag, id, acts)
	if outer != nil {
		if first != nil {
			prefix := "An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n"
			if outer.state == "timedout" {
				prefix = "A " + what + " timeout occurred and then the following failure was recorded in the timedout node before it exited:\n"
			}
			add := *first
			add.msg = prefix + add.msg
			outer.add = &add
		}
		return outer
	}
	if first != nil {
		return first
	}
	return &mfail{state: "passed"}
}

// timeout says which timeout ends a body that blocks.
func (m *model) timeout(d Dec) string {
	if m.specLate || m.suiteLate || m.intLevel > 0 {
		if d.NodeTimeoutMS > 0 {
			return "node"
		}
		return "grace period"
	}
	const never = 3600000
	suite, spec, node := m.p.Conf.TimeoutMS, m.curSpecTimeout(), d.NodeTimeoutMS
	if suite == 0 {
		suite = never
	}
	if spec == 0 {
		spec = never
	}
	if node == 0 {
		node = never
	}
	switch {
	case node < spec && node < suite:
		return "node"
	case spec < suite:
		m.specLate = true
		return "spec"
	}
	m.suiteLate = true
	return "suite"
}

func (m *model) curSpecTimeout() int {
	if m.curSpec == nil {
		return 0
	}
	return m.curSpec.It.Dec.SpecTimeoutMS
}

// group runs the specs of one execution group.
type groupState struct {
	all        []*Spec
	failed     bool // a spec of the group failed
	onceFailed bool // ... in a node that runs once for several specs
	cof        bool
	once       map[string]string // run-once key -> outcome
	owed       map[string]bool   // run-once after nodes of containers that were entered and not left
	skips      map[string]string
}

// onceKey is the key of the run-once scope of a setup node for a spec ("" if it runs for every spec).
func onceKey(s *Spec, n *Node, level int) string {
	switch n.Kind {
	case "BA", "AA":
		return fmt.Sprintf("%d/%d", n.ID, s.Path[level-1].ID)
	case "BE", "JBE", "AE", "JAE":
		if !n.Dec.Once {
			return ""
		}
		// once for the outermost Ordered container at or beneath the node's level; inside an Ordered container every
		// nested container is (implicitly) Ordered
		o := s.OrderedAt()
		if o < 0 {
			return ""
		}
		at := o
		if level > at {
			at = level
		}
		if at >= len(s.Path) {
			return ""
		}
		return fmt.Sprintf("%d/%d", n.ID, s.Path[at].ID)
	}
	return ""
}

func (m *model) group(members []*Spec) {
	g := &groupState{all: members, once: map[string]string{}, owed: map[string]bool{}}
	if o := members[0].OrderedAt(); o >= 0 {
		g.cof = members[0].Path[o].Dec.CoF
	}
	for _, s := range members {
		m.curSpec = s
		m.spec(g, s)
		m.curSpec = nil
	}
}

func (m *model) spec(g *groupState, s *Spec) {
	m.specLate = false
	m.cur = &Out{Type: typeName("It"), Line: s.It.line()}
	leaf := fmt.Sprintf("%s@%d/leaf", typeName("It"), s.It.line())
	state, why := types.SpecState(0).String(), ""
	switch {
	case s.Pending():
		state = "pending"
	case s.Skip, m.intLevel > 0, m.skipAll, m.suiteLate:
		state = "skipped"
	case g.failed && !g.cof:
		state, why = "skipped", "Spec skipped because an earlier spec in an ordered container failed"
	case g.onceFailed && g.cof:
		state, why = "skipped", "Spec skipped because a BeforeAll node failed"
	default:
		for lv, ns := range s.Level {
			for _, n := range ns {
				if k := onceKey(s, n, lv); k != "" && (n.Kind == "BA" || n.Kind == "BE" || n.Kind == "JBE") && g.once[k] == "skipped" {
					if why == "" || true {
						why2 := "Spec skipped because Skip() was called in " + typeName(n.Kind)
						if why == "" {
							state, why = "skipped", why2
						}
					}
				}
			}
		}
		if why == "" && m.p.Conf.DryRun {
			state = "passed"
		}
	}
	m.cur.State = state
	if why != "" {
		m.cur.Fail = (&mfail{state: state, node: leaf, msg: why}).canon()
	}
	m.tr("will %s %d %s", m.cur.Type, m.cur.Line, state)
	m.reportEach(s, "RBE")
	onceBefore := false
	if !(m.p.Conf.DryRun || isFailure(m.cur.State) || m.cur.State == "skipped" || m.cur.State == "pending") {
		onceBefore = m.attempts(g, s)
	}
	m.reportEach(s, "RAE")
	if isFailure(m.cur.State) {
		g.failed = true
		g.onceFailed = g.onceFailed || onceBefore
	}
	// what was left for a later spec of its container is done now if there won't be one
	if !m.p.Conf.DryRun {
		m.settleOwed(g, s)
	}
	m.finish()
}

// keyOf is the key of the run-once scope of a setup node of the spec.
func keyOf(s *Spec, id int) string {
	for lv, ns := range s.Level {
		for _, n := range ns {
			if n.ID == id {
				return onceKey(s, n, lv)
			}
		}
	}
	return ""
}

// settleOwed runs the run-once nodes and cleanup callbacks of containers that were entered and not left.
func (m *model) settleOwed(g *groupState, s *Spec) {
	m.gwNode, m.outBuf = "", ""
	awaited := func(is func(o *Spec, n *Node, lv int) bool) bool {
		for i, o := range g.all {
			if o != s {
				continue
			}
			for _, l := range g.all[i+1:] {
				if l.Skip || l.Pending() || m.intLevel > 0 || m.skipAll || m.suiteLate || (g.failed && !g.cof) || (g.onceFailed && g.cof) || g.onceSkipped(l) {
					continue
				}
				for lv, ns := range l.Level {
					for _, n := range ns {
						if is(l, n, lv) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for {
		n := 0
		for _, kinds := range [][]string{{"JAE"}, {"AE", "AA"}} {
			for lv := len(s.Level) - 1; lv >= 0; lv-- {
				for _, kind := range kinds {
					for _, nd := range s.Level[lv] {
						k := onceKey(s, nd, lv)
						if nd.Kind != kind || k == "" || !g.owed[k] || awaited(func(o *Spec, n *Node, lv int) bool { return onceKey(o, n, lv) == k }) {
							continue
						}
						delete(g.owed, k)
						n++
						where, text := "top", "TOP-LEVEL"
						if lv > 0 {
							where, text = fmt.Sprintf("in%d", lv-1), bestText(s.Path[lv-1])
						}
						m.merge(m.runNode(nd, nd.Kind, where, text, lv, nil, nil))
					}
				}
			}
		}
		if n == 0 {
			xs := []mcleanup{}
			for _, scope := range []string{"XE", "XA"} {
				for i := len(m.cleanups) - 1; i >= 0; i-- {
					x := m.cleanups[i]
					if x.scope == scope && !awaited(func(o *Spec, n *Node, lv int) bool {
						return n.ID == x.gen && onceKey(o, n, lv) != "" && onceKey(o, n, lv) == keyOf(s, n.ID)
					}) {
						xs = append(xs, m.cleanups[i])
					}
				}
			}
			for _, x := range xs {
				n++
				m.drop(x)
				m.merge(m.runCleanup(x, s))
			}
		}
		if n == 0 {
			break
		}
	}
	m.cur.GW += m.gwNode
	m.cur.StdOut += m.outBuf
}

// merge makes the outcome of a cleanup node part of that of the spec.
func (m *model) merge(f *mfail) {
	if m.cur.State == "passed" || f.state == "aborted" || (m.cur.State == "skipped" && isFailure(f.state)) {
		m.settle(f)
	} else if isFailure(f.state) {
		m.cur.Extra = append(m.cur.Extra, f.canon())
	}
}

// odd checks that what a group set up was cleaned up within it.
func (m *model) odd(members []*Spec, trace []string) {
	for _, x := range m.cleanups {
		if x.scope != "XS" {
			m.exp.Odd = append(m.exp.Odd, fmt.Sprintf("cleanup %d was not run", x.act.ID))
		}
	}
	runs := map[string]int{}
	entered := map[string]bool{}
	retried := false
	for _, l := range trace {
		if i := strings.IndexByte(l, '#'); i > 0 && !strings.Contains(l, " ") {
			runs[l[:i]]++
			entered[l[:i]] = true
		}
		if strings.HasSuffix(l, "#2") {
			retried = true
		}
	}
	for _, s := range members {
		for lv, ns := range s.Level {
			for _, n := range ns {
				if n.Kind != "AA" {
					continue
				}
				// the nodes at this level or beneath
				reached := false
				for l2 := lv; l2 < len(s.Level); l2++ {
					for _, o := range s.Level[l2] {
						if (o.Kind == "BA" || o.Kind == "BE" || o.Kind == "JBE") && !o.Dec.Once && entered[fmt.Sprintf("%s%d", o.Kind, o.ID)] {
							reached = true
						}
					}
				}
				reached = reached || entered[fmt.Sprintf("It%d", s.It.ID)]
				c := runs[fmt.Sprintf("AA%d", n.ID)]
				if reached && c == 0 || c > 1 && !retried {
					m.exp.Odd = append(m.exp.Odd, fmt.Sprintf("AfterAll %d ran %d times", n.ID, c))
				}
			}
		}
	}
}

// innermost is the value of a decorator that the innermost node carrying it decides.
func innermost(s *Spec, get func(d Dec) int) int {
	v := 0
	for _, n := range s.nodes() {
		if get(n.Dec) > 0 {
			v = get(n.Dec)
		}
	}
	return v
}

func (m *model) attempts(g *groupState, s *Spec) bool {
	flake, mpr := innermost(s, func(d Dec) int { return d.Flake }), innermost(s, func(d Dec) int { return d.MPR })
	max, retry, repeat := 1, false, false
	switch {
	case m.p.Conf.MPR > 0:
		max, repeat = m.p.Conf.MPR, true
	case mpr > 0:
		max, repeat = mpr, true
	case m.p.Conf.Flake > 0:
		max, retry = m.p.Conf.Flake, true
	case flake > 0:
		max, retry = flake, true
	}
	once := false
	for a := 1; a <= max; a++ {
		m.cur.Attempts = a
		m.gwNode, m.outBuf = "", ""
		m.specLate = false
		if a > 1 {
			if repeat {
				m.event("%s %d", types.SpecEventSpecRepeat, a-1)
			}
			if retry {
				m.event("%s %d", types.SpecEventSpecRetry, a-1)
			}
		}
		once = m.attempt(g, s, a == max, repeat)
		m.cur.GW += m.gwNode
		m.cur.StdOut += m.outBuf
		if m.intLevel > 0 || m.suiteLate {
			break
		}
		st := m.cur.State
		if repeat && (isFailure(st) || st == "skipped") {
			break
		}
		if retry {
			if st == "passed" || st == "skipped" || st == "aborted" || st == "interrupted" {
				break
			}
			if a < max {
				// the failure moves to the additional failures, marked with the attempt
				f := *m.curFail
				f.msg = fmt.Sprintf("Failure recorded during attempt %d:\n%s", a, f.msg)
				m.cur.Extra = append(m.cur.Extra, f.canon())
			}
		}
	}
	return once
}

type placed struct {
	n     *Node
	level int
}

// onceSkipped says whether Skip() was called in a run-once setup node of the spec.
func (g *groupState) onceSkipped(s *Spec) bool {
	for lv, ns := range s.Level {
		for _, n := range ns {
			if k := onceKey(s, n, lv); k != "" && (n.Kind == "BA" || n.Kind == "BE" || n.Kind == "JBE") && g.once[k] == "skipped" {
				return true
			}
		}
	}
	return false
}

func (m *model) attempt(g *groupState, s *Spec, final, repeat bool) (onceBefore bool) {
	where := func(level int) string {
		if level == 0 {
			return "top"
		}
		return fmt.Sprintf("in%d", level-1)
	}
	text := func(level int) string {
		if level == 0 {
			return "TOP-LEVEL"
		}
		return bestText(s.Path[level-1])
	}
	run := func(pl placed) *mfail {
		return m.runNode(pl.n, pl.n.Kind, where(pl.level), text(pl.level), pl.level, nil, nil)
	}
	// the way in: for every level from the outside BeforeAll then BeforeEach, then the JustBeforeEach, then the subject
	in := []placed{}
	for lv, ns := range s.Level {
		for _, kind := range []string{"BA", "BE"} {
			for _, n := range ns {
				if n.Kind == kind {
					in = append(in, placed{n, lv})
				}
			}
		}
	}
	for lv, ns := range s.Level {
		for _, n := range ns {
			if n.Kind == "JBE" {
				in = append(in, placed{n, lv})
			}
		}
	}
	deepest := len(s.Path) // how deep the spec got
	stopKey, stopLevel, stopID, stoppedEarly := "", 0, 0, false
	itRan := true
	for _, pl := range in {
		k := onceKey(s, pl.n, pl.level)
		if k != "" && g.once[k] == "passed" {
			continue
		}
		f := run(pl)
		m.settle(f)
		if k != "" {
			g.once[k] = f.state
		}
		if f.state != "passed" {
			stoppedEarly, stopKey, stopLevel, stopID = true, k, pl.level, pl.n.ID
			if pl.n.Kind != "JBE" { // JustBeforeEach nodes run when every container has been entered
				deepest = pl.level
			}
			onceBefore = k != ""
			itRan = false
			break
		}
	}
	if itRan {
		f := m.runNode(s.It, "It", "leaf", itText(s), len(s.Path), nil, nil)
		m.settle(f)
		if f.state != "passed" {
			stoppedEarly, stopLevel, stopID = true, len(s.Path), s.It.ID
		}
	}
	_ = stoppedEarly

	// the way out
	ranAfter := map[int]bool{}
	ranX := map[int]bool{}
	// is this spec the last of the group's specs (of those that are to run) in the scope of the key?
	last := func(key string, n *Node, level int) bool {
		var l *Spec
		for _, o := range g.all {
			if o.Skip || (o != s && g.onceSkipped(o)) {
				continue
			}
			if level < len(o.Level) {
				for _, on := range o.Level[level] {
					if on == n && onceKey(o, on, level) == key {
						l = o
					}
				}
			}
		}
		return l == s
	}
	due := func(key string, n *Node, keyLevel, level int, isX bool, gen int) bool {
		if key == "" {
			return true
		}
		if m.intLevel > 0 || m.suiteLate { // the run is over
			return true
		}
		isLast := last(key, n, keyLevel)
		switch st := m.cur.State; {
		case st == "passed":
			return isLast && (final || !repeat)
		case st == "skipped":
			return isLast || (stopKey != "" && stopLevel == level)
		case st == "failed" || st == "panicked" || st == "timedout":
			if final || repeat {
				if g.cof {
					return isLast || onceBefore || m.p.Conf.FailFast
				}
				return true
			}
			if stopKey != "" { // it will run again: undo what the run-once node did
				if isX {
					return stopID == gen
				}
				return stopLevel == level
			}
			return false
		default: // interrupted, aborted
			return true
		}
	}
	genNode := func(id int) (*Node, int) {
		for lv, ns := range s.Level {
			for _, n := range ns {
				if n.ID == id {
					return n, lv
				}
			}
		}
		return nil, 0
	}
	for withX := false; ; withX = true {
		type job struct {
			pl *placed
			x  *mcleanup
		}
		jobs := []job{}
		for lv, ns := range s.Level {
			for _, n := range ns {
				if k := onceKey(s, n, lv); k != "" && lv <= deepest && !ranAfter[n.ID] {
					switch n.Kind {
					case "AA", "AE", "JAE":
						g.owed[k] = true
					}
				}
			}
		}
		add := func(kinds ...string) {
			for lv := len(s.Level) - 1; lv >= 0; lv-- {
				for _, kind := range kinds {
					for _, n := range s.Level[lv] {
						if lv > deepest && !g.owed[onceKey(s, n, lv)] {
							continue
						}
						if n.Kind == kind && !ranAfter[n.ID] && due(onceKey(s, n, lv), n, lv, lv, false, 0) {
							jobs = append(jobs, job{pl: &placed{n, lv}})
						}
					}
				}
			}
		}
		add("JAE")
		add("AE", "AA")
		if withX {
			for _, scope := range []string{"XE", "XA"} {
				for i := len(m.cleanups) - 1; i >= 0; i-- {
					x := m.cleanups[i]
					if x.scope != scope || ranX[x.order] {
						continue
					}
					ok := ranAfter[x.gen]
					if !ok {
						gn, glv := genNode(x.gen)
						key := ""
						if gn != nil {
							key = onceKey(s, gn, glv)
						}
						ok = due(key, gn, glv, x.level, true, x.gen)
					}
					if ok {
						jobs = append(jobs, job{x: &x})
					}
				}
			}
		}
		if len(jobs) == 0 && withX {
			break
		}
		for _, j := range jobs {
			if j.pl != nil {
				ranAfter[j.pl.n.ID] = true
				delete(g.owed, onceKey(s, j.pl.n, j.pl.level))
				m.merge(run(*j.pl))
			} else {
				ranX[j.x.order] = true
				m.drop(*j.x)
				m.merge(m.runCleanup(*j.x, s))
			}
		}
	}
	return onceBefore
}

func itText(s *Spec) string {
	if t := s.It.text(); t != "" {
		return t
	}
	if len(s.Path) > 0 {
		return bestText(s.Path[len(s.Path)-1])
	}
	return "TOP-LEVEL"
}

func (m *model) reportEach(s *Spec, kind string) {
	levels := []int{}
	for lv := range s.Level {
		levels = append(levels, lv)
	}
	if kind == "RAE" {
		sort.Sort(sort.Reverse(sort.IntSlice(levels)))
	}
	for _, lv := range levels {
		for _, n := range s.Level[lv] {
			if n.Kind != kind {
				continue
			}
			m.gwNode, m.outBuf = "", ""
			where, text := "top", "TOP-LEVEL"
			if lv > 0 {
				where, text = fmt.Sprintf("in%d", lv-1), bestText(s.Path[lv-1])
			}
			f := m.runNode(n, kind, where, text, lv, func() {
				m.tr("%s%d sees %d:%s", kind, n.ID, s.It.line(), m.cur.State)
			}, nil)
			if (!isFailure(m.cur.State) && isFailure(f.state)) || f.state == "aborted" {
				m.settle(f)
			}
			m.cur.GW += m.gwNode
			m.cur.StdOut += m.outBuf
		}
	}
}
