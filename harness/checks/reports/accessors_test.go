package reports

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/config"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/lf"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// R08: what a report says when it is asked.
type accessCase struct {
	Rs     []rep.Report
	States int // which states, a bit for each of rep.States
	Types  int // which node types, a bit for each of rep.NodeTypes
	Events int // which events, a bit for each of rep.EventTypes
	Filter *lf.Expr
	Query  string
}

func same[T any](what string, got, want T) error {
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("%s is %#v, want %#v", what, got, want)
	}
	return nil
}

func all[T any, U any](xs []T, f func(T) U) []U {
	out := make([]U, 0, len(xs))
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

func only[T any](xs []T, f func(T) bool) []T {
	out := make([]T, 0, len(xs))
	for _, x := range xs {
		if f(x) {
			out = append(out, x)
		}
	}
	return out
}

func first(errs ...error) error {
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// spoil overwrites what a report gave away; the report must not notice.
func spoil[T any](xs []T) {
	var zero T
	for i := range xs {
		xs[i] = zero
	}
	_ = append(xs[:len(xs):cap(xs)], zero)
	for i := range xs[:cap(xs)] {
		xs[:cap(xs)][i] = zero
	}
}

func TestR08_accessors(t *testing.T) {
	vf.Run(t, vf.Prop[accessCase]{ID: "R08", Sub: "accessors", Rule: "a timeline has three events or more, or two reports have specs", Quick: 30000, Thorough: 1500000,
		Gen: func(t *rapid.T) accessCase {
			c := accessCase{States: vf.U(t, "states", 1<<len(rep.States)), Types: vf.U(t, "types", 1<<len(rep.NodeTypes)), Events: vf.U(t, "events", 1<<len(rep.EventTypes)), Filter: lf.Gen(t, 2)}
			c.Query = lf.Join(t, lf.Render(t, c.Filter))
			if vf.Pct(t, "failures", 30) {
				c.States = 1<<1 | 1<<4 | 1<<5 | 1<<6 | 1<<7
			}
			for n := vf.Range(t, "reports", 1, 4); n > 0; n-- {
				c.Rs = append(c.Rs, rep.GenReport(t, rep.Opt{MaxSpecs: 4}))
			}
			return c
		},
		Check: func(c accessCase) (o vf.Outcome) {
			built := all(c.Rs, rep.Report.Build)
			specs := 0
			for i, r := range c.Rs {
				if len(r.Specs) > 0 {
					specs++
				}
				for j := range r.Specs {
					n, err := askSpec(&r.Specs[j], built[i].SpecReports[j], c)
					if err != nil {
						return vf.Fail("spec %d of report %d: %v", j, i, err)
					}
					o.NonTrivial = o.NonTrivial || n > 2
				}
				if err := askSpecs(r.Specs, built[i].SpecReports, c); err != nil {
					return vf.Fail("report %d: %v", i, err)
				}
			}
			if err := askAdd(c.Rs, built); err != nil {
				return vf.Outcome{Err: err}
			}
			for i, r := range c.Rs {
				if err := rep.Equal(fmt.Sprintf("report %d, after it was asked", i), r.Build(), built[i]); err != nil {
					return vf.Outcome{Err: err}
				}
			}
			o.NonTrivial = o.NonTrivial || specs > 1
			return
		}})
}

func orderOf(e types.TimelineEvent) int { return e.GetTimelineLocation().Order }

// askSpec asks a spec for all it knows of itself and says how much is on its timeline.
func askSpec(s *rep.Spec, r types.SpecReport, c accessCase) (int, error) {
	combined := s.GW
	if s.Out != "" && s.GW != "" {
		combined = s.Out + "\n" + s.GW
	} else if s.Out != "" {
		combined = s.Out
	}
	var message string
	var at types.CodeLocation
	if s.Fail != nil {
		message, at = s.Fail.Msg, s.Fail.Loc.Build()
	}
	matches, err := r.MatchesLabelFilter(c.Query)
	if err != nil {
		return 0, fmt.Errorf("MatchesLabelFilter(%q): %v", c.Query, err)
	}
	texts := slices.Clone(s.Texts)
	if s.Leaf != "" {
		texts = append(texts, s.Leaf)
	}
	labels := r.Labels()
	if err := first(
		same("CombinedOutput", r.CombinedOutput(), combined),
		same("Failed", r.Failed(), s.Failed()),
		same("FullText", r.FullText(), strings.Join(texts, " ")),
		same("Labels", strings.Join(labels, "|"), strings.Join(s.AllLabels(), "|")),
		same("MatchesLabelFilter("+c.Query+")", matches, c.Filter.Eval(s.AllLabels())),
		same("FileName", r.FileName(), s.LeafLoc.File),
		same("LineNumber", r.LineNumber(), s.LeafLoc.Line),
		same("FailureMessage", r.FailureMessage(), message),
		same("FailureLocation", r.FailureLocation(), at),
	); err != nil {
		return 0, err
	}
	spoil(labels)
	if _, err := r.MatchesLabelFilter("(" + c.Query); err == nil {
		return 0, fmt.Errorf("MatchesLabelFilter takes %q", "("+c.Query)
	}

	// the timeline has all that happened, in order
	var want types.Timeline
	if s.Fail != nil {
		want = append(want, s.Fail.Build())
		if s.Fail.More != nil {
			want = append(want, s.Fail.More.BuildAdditional())
		}
	}
	for i := range s.Add {
		want = append(want, s.Add[i].BuildAdditional())
	}
	fresh := s.Build()
	for _, e := range fresh.ReportEntries {
		want = append(want, e)
	}
	for i := range s.Progress {
		want = append(want, s.Progress[i].Build())
	}
	for _, e := range fresh.SpecEvents {
		want = append(want, e)
	}
	slices.SortStableFunc(want, func(a, b types.TimelineEvent) int { return orderOf(a) - orderOf(b) })
	visible := types.Timeline(only(want, func(e types.TimelineEvent) bool {
		x, ok := e.(types.ReportEntry)
		return !ok || x.Visibility != types.ReportEntryVisibilityNever
	}))
	brief := types.Timeline(only(want, func(e types.TimelineEvent) bool {
		x, ok := e.(types.SpecEvent)
		return !ok || x.SpecEventType != types.SpecEventByEnd && x.SpecEventType != types.SpecEventNodeStart && x.SpecEventType != types.SpecEventNodeEnd
	}))
	both := types.Timeline(only(visible, func(e types.TimelineEvent) bool {
		x, ok := e.(types.SpecEvent)
		return !ok || x.SpecEventType == types.SpecEventByStart || x.SpecEventType == types.SpecEventSpecRetry || x.SpecEventType == types.SpecEventSpecRepeat
	}))
	got := r.Timeline()
	v, b := got.WithoutHiddenReportEntries(), got.WithoutVeryVerboseSpecEvents()
	vb, bv := v.WithoutVeryVerboseSpecEvents(), b.WithoutHiddenReportEntries()
	for _, x := range []struct {
		what string
		a, b types.Timeline
	}{{"Timeline", want, got}, {"WithoutHiddenReportEntries", visible, v}, {"WithoutVeryVerboseSpecEvents", brief, b}, {"both filters", both, vb}, {"both filters, the other way round", both, bv}} {
		if err := rep.Equal(x.what, x.a, x.b); err != nil {
			return 0, err
		}
	}
	spoil(vb)
	spoil(bv)
	if err := rep.Equal("a timeline, after its filtered forms were changed,", want, got); err != nil {
		return 0, err
	}
	spoil(got)
	if err := rep.Equal("a filtered timeline, after the timeline was changed,", visible, v); err != nil {
		return 0, err
	}

	// events
	var mask types.SpecEventType
	for i, e := range rep.EventTypes {
		if c.Events>>i&1 == 1 {
			mask |= e
		}
	}
	events := r.SpecEvents.WithType(mask)
	if err := rep.Equal("SpecEvents.WithType", types.SpecEvents(only(fresh.SpecEvents, func(e types.SpecEvent) bool {
		return c.Events>>slices.Index(rep.EventTypes, e.SpecEventType)&1 == 1
	})), events); err != nil {
		return 0, err
	}
	spoil(events)

	// entries
	for v := 0; v < 1<<3; v++ {
		var vis []types.ReportEntryVisibility
		for i := 0; i < 3; i++ {
			if v>>i&1 == 1 {
				vis = append(vis, types.ReportEntryVisibility(i))
			}
		}
		entries := r.ReportEntries.WithVisibility(vis...)
		w := types.ReportEntries(only(fresh.ReportEntries, func(e types.ReportEntry) bool { return v>>e.Visibility&1 == 1 }))
		if err := first(rep.Equal("WithVisibility", w, entries), same("HasVisibility", r.ReportEntries.HasVisibility(vis...), len(w) > 0)); err != nil {
			return 0, err
		}
		spoil(entries)
	}

	// progress reports
	for i := range r.ProgressReports {
		if err := askProgress(&s.Progress[i], r.ProgressReports[i]); err != nil {
			return 0, fmt.Errorf("progress report %d: %v", i, err)
		}
	}
	return len(want), nil
}

func askProgress(p *rep.Progress, r types.ProgressReport) error {
	fresh := p.Build()
	var spec types.Goroutine
	var high, other []types.Goroutine
	kept := []types.Goroutine{}
	for i, g := range p.Gs {
		h := slices.ContainsFunc(g.Stack, func(c rep.Call) bool { return c.High })
		if err := first(same("HasHighlights", r.Goroutines[i].HasHighlights(), h), same("IsZero of a goroutine", r.Goroutines[i].IsZero(), false)); err != nil {
			return err
		}
		switch {
		case g.Spec:
			if spec.IsZero() {
				spec = fresh.Goroutines[i]
			}
		case h:
			high = append(high, fresh.Goroutines[i])
		default:
			other = append(other, fresh.Goroutines[i])
		}
		if g.Spec || h {
			kept = append(kept, fresh.Goroutines[i])
		}
	}
	hg, og, wo, wc := r.HighlightedGoroutines(), r.OtherGoroutines(), r.WithoutOtherGoroutines(), r.WithoutCapturedGinkgoWriterOutput()
	less, quiet := p.Build(), p.Build()
	less.Goroutines, quiet.CapturedGinkgoWriterOutput = kept, ""
	err := first(
		rep.Equal("SpecGoroutine", spec, r.SpecGoroutine()),
		rep.Equal("HighlightedGoroutines", high, hg),
		rep.Equal("OtherGoroutines", other, og),
		rep.Equal("WithoutOtherGoroutines", less, wo),
		rep.Equal("WithoutCapturedGinkgoWriterOutput", quiet, wc),
		same("Time", r.Time(), r.TimelineLocation.Time),
		same("IsZero", r.IsZero(), false),
	)
	spoil(hg)
	spoil(og)
	spoil(wo.Goroutines)
	return err
}

func askSpecs(specs []rep.Spec, rs types.SpecReports, c accessCase) error {
	var states types.SpecState
	var nodes types.NodeType
	for i, s := range rep.States {
		if c.States>>i&1 == 1 {
			states |= s
		}
	}
	for i, n := range rep.NodeTypes {
		if c.Types>>i&1 == 1 {
			nodes |= n
		}
	}
	var inState, ofType types.SpecReports
	flaked, repeated := 0, 0
	for _, s := range specs {
		if c.States>>s.State&1 == 1 {
			inState = append(inState, s.Build())
		}
		if c.Types>>slices.Index(rep.NodeTypes, s.NodeType())&1 == 1 {
			ofType = append(ofType, s.Build())
		}
		if s.Flake > 1 && s.Attempts > 1 && rep.States[s.State] == types.SpecStatePassed {
			flaked++
		}
		if s.MPR > 1 && s.Attempts > 1 && s.Failed() {
			repeated++
		}
	}
	ws, wt := rs.WithState(states), rs.WithLeafNodeType(nodes)
	err := first(
		rep.Equal("WithState", inState, ws),
		same("CountWithState", rs.CountWithState(states), len(inState)),
		rep.Equal("WithLeafNodeType", ofType, wt),
		same("CountOfFlakedSpecs", rs.CountOfFlakedSpecs(), flaked),
		same("CountOfRepeatedSpecs", rs.CountOfRepeatedSpecs(), repeated),
	)
	spoil(ws)
	spoil(wt)
	return err
}

// askAdd adds the reports up, from the left and from the right.
func askAdd(plans []rep.Report, rs []types.Report) error {
	want := plans[0].Build()
	start, end := plans[0].Start, plans[0].Start+plans[0].Run
	want.SpecialSuiteFailureReasons = nil
	for i, p := range plans {
		if i > 0 {
			want.SpecReports = append(want.SpecReports, p.Build().SpecReports...)
		}
		want.SuiteSucceeded = want.SuiteSucceeded && p.OK
		start, end = min(start, p.Start), max(end, p.Start+p.Run)
		for _, s := range p.Special {
			if !slices.Contains(want.SpecialSuiteFailureReasons, s) {
				want.SpecialSuiteFailureReasons = append(want.SpecialSuiteFailureReasons, s)
			}
		}
	}
	base := rep.Report{}.Build().StartTime
	want.StartTime, want.EndTime, want.RunTime = base.Add(time.Duration(start)*time.Millisecond), base.Add(time.Duration(end)*time.Millisecond), time.Duration(end-start)*time.Millisecond
	if len(rs) == 1 {
		return nil
	}
	left := rs[0]
	for _, r := range rs[1:] {
		left = left.Add(r)
	}
	right := rs[len(rs)-1]
	for i := len(rs) - 2; i >= 0; i-- {
		right = rs[i].Add(right)
	}
	err := first(rep.Equal("the sum", want, left), rep.Equal("the sum from the right", want, right))
	spoil(left.SpecReports)
	spoil(left.SpecialSuiteFailureReasons)
	return err
}

// R08: names of states and types.
type enumCase struct {
	Which  int
	Member int    // of the names below
	Odd    uint   // a value that may be no member
	Text   string // that may be no name
}

type enum struct {
	name  string
	names map[uint]string
	str   func(uint) string
	enc   func(uint) ([]byte, error)
	dec   func([]byte) (uint, error)
	is    func(uint, uint) bool
}

func mk[T ~uint](name string, names map[T]string, is func(a, b T) bool) enum {
	e := enum{name: name, names: map[uint]string{}}
	for k, v := range names {
		e.names[uint(k)] = v
	}
	e.str = func(u uint) string { return any(T(u)).(fmt.Stringer).String() }
	e.enc = func(u uint) ([]byte, error) { return json.Marshal(T(u)) }
	e.dec = func(b []byte) (uint, error) {
		var x T
		err := json.Unmarshal(b, &x)
		return uint(x), err
	}
	if is != nil {
		e.is = func(a, b uint) bool { return is(T(a), T(b)) }
	}
	return e
}

var enums = []enum{
	mk("SpecState", map[types.SpecState]string{0: "INVALID SPEC STATE", types.SpecStatePending: "pending", types.SpecStateSkipped: "skipped", types.SpecStatePassed: "passed", types.SpecStateFailed: "failed", types.SpecStateAborted: "aborted",
		types.SpecStatePanicked: "panicked", types.SpecStateInterrupted: "interrupted", types.SpecStateTimedout: "timedout"}, types.SpecState.Is),
	mk("NodeType", map[types.NodeType]string{0: "INVALID NODE TYPE", types.NodeTypeContainer: "Container", types.NodeTypeIt: "It", types.NodeTypeBeforeEach: "BeforeEach", types.NodeTypeJustBeforeEach: "JustBeforeEach", types.NodeTypeAfterEach: "AfterEach",
		types.NodeTypeJustAfterEach: "JustAfterEach", types.NodeTypeBeforeAll: "BeforeAll", types.NodeTypeAfterAll: "AfterAll", types.NodeTypeBeforeSuite: "BeforeSuite", types.NodeTypeSynchronizedBeforeSuite: "SynchronizedBeforeSuite", types.NodeTypeAfterSuite: "AfterSuite",
		types.NodeTypeSynchronizedAfterSuite: "SynchronizedAfterSuite", types.NodeTypeReportBeforeEach: "ReportBeforeEach", types.NodeTypeReportAfterEach: "ReportAfterEach", types.NodeTypeReportBeforeSuite: "ReportBeforeSuite", types.NodeTypeReportAfterSuite: "ReportAfterSuite",
		types.NodeTypeCleanupInvalid: "DeferCleanup", types.NodeTypeCleanupAfterEach: "DeferCleanup (Each)", types.NodeTypeCleanupAfterAll: "DeferCleanup (All)", types.NodeTypeCleanupAfterSuite: "DeferCleanup (Suite)"}, types.NodeType.Is),
	mk("SpecEventType", map[types.SpecEventType]string{0: "INVALID SPEC EVENT", types.SpecEventByStart: "By", types.SpecEventByEnd: "By (End)", types.SpecEventNodeStart: "Node", types.SpecEventNodeEnd: "Node (End)", types.SpecEventSpecRepeat: "Repeat", types.SpecEventSpecRetry: "Retry"}, types.SpecEventType.Is),
	mk("FailureNodeContext", map[types.FailureNodeContext]string{0: "INVALID FAILURE NODE CONTEXT", types.FailureNodeIsLeafNode: "leaf-node", types.FailureNodeAtTopLevel: "top-level", types.FailureNodeInContainer: "in-container"}, nil),
	mk("ReportEntryVisibility", map[types.ReportEntryVisibility]string{types.ReportEntryVisibilityAlways: "always", types.ReportEntryVisibilityFailureOrVerbose: "failure-or-verbose", types.ReportEntryVisibilityNever: "never"}, nil),
}

func (e enum) members() []uint {
	var out []uint
	for k := range e.names {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func TestR08_enums(t *testing.T) {
	vf.Run(t, vf.Prop[enumCase]{ID: "R08", Sub: "enums", Rule: "always", Quick: 6000, Thorough: 200000,
		Gen: func(t *rapid.T) enumCase {
			c := enumCase{Which: vf.U(t, "which", len(enums)), Text: rep.Text(t, "text")}
			c.Member = vf.U(t, "member", len(enums[c.Which].names))
			c.Odd = uint(vf.U(t, "odd", 1<<24))
			return c
		},
		Check: func(c enumCase) vf.Outcome {
			e := enums[c.Which]
			ms := e.members()
			m := ms[c.Member]
			if err := same(e.name+".String", e.str(m), e.names[m]); err != nil {
				return vf.Outcome{Err: err}
			}
			data, err := e.enc(m)
			if err != nil {
				return vf.Fail("%s %v cannot be encoded: %v", e.name, e.names[m], err)
			}
			back, err := e.dec(data)
			if err != nil || back != m {
				return vf.Fail("%s %q became %s and then %d (%v)", e.name, e.names[m], data, back, err)
			}
			want, _ := json.Marshal(e.names[m])
			if m != 0 && string(data) != string(want) {
				return vf.Fail("%s %q is encoded as %s", e.name, e.names[m], data)
			}
			if top := ms[len(ms)-1]; c.Odd > top {
				if e.str(c.Odd) != e.names[0] {
					return vf.Fail("%s %d says it is %q", e.name, c.Odd, e.str(c.Odd))
				}
			}
			// what is not the name of any is none
			named := slices.ContainsFunc(ms, func(m uint) bool { return e.names[m] == c.Text })
			text, _ := json.Marshal(c.Text)
			if back, err := e.dec(text); err != nil || !named && back != 0 {
				return vf.Fail("%s %s was decoded to %d (%v)", e.name, text, back, err)
			}
			if _, err := e.dec([]byte("{}")); err == nil {
				return vf.Fail("%s takes {}", e.name)
			}
			if e.is != nil { // the members of a mask are those it was made of
				mask := uint(0)
				for i, m := range ms {
					if c.Odd>>i&1 == 1 {
						mask |= m
					}
				}
				for i, m := range ms {
					if m != 0 && e.is(m, mask) != (c.Odd>>i&1 == 1) {
						return vf.Fail("%s %s: Is(%b) is %v", e.name, e.names[m], mask, e.is(m, mask))
					}
				}
			}
			return vf.Outcome{NonTrivial: true}
		}})
}

// R08: the same account for a reporter of Ginkgo V1.
type v1Call struct {
	What string
	Conf config.GinkgoConfigType
	Sum  types.SuiteSummary
	Set  types.SetupSummary
	Spec types.SpecSummary
}

type v1Reporter struct{ calls []v1Call }

func (r *v1Reporter) SuiteWillBegin(c config.GinkgoConfigType, s *types.SuiteSummary) {
	r.calls = append(r.calls, v1Call{What: "SuiteWillBegin", Conf: c, Sum: *s})
}
func (r *v1Reporter) BeforeSuiteDidRun(s *types.SetupSummary) {
	r.calls = append(r.calls, v1Call{What: "BeforeSuiteDidRun", Set: *s})
}
func (r *v1Reporter) SpecWillRun(s *types.SpecSummary) {
	r.calls = append(r.calls, v1Call{What: "SpecWillRun", Spec: *s})
}
func (r *v1Reporter) SpecDidComplete(s *types.SpecSummary) {
	r.calls = append(r.calls, v1Call{What: "SpecDidComplete", Spec: *s})
}
func (r *v1Reporter) AfterSuiteDidRun(s *types.SetupSummary) {
	r.calls = append(r.calls, v1Call{What: "AfterSuiteDidRun", Set: *s})
}
func (r *v1Reporter) SuiteDidEnd(s *types.SuiteSummary) {
	r.calls = append(r.calls, v1Call{What: "SuiteDidEnd", Sum: *s})
}

func TestR08_v1(t *testing.T) {
	vf.Run(t, vf.Prop[rep.Report]{ID: "R08", Sub: "v1", Rule: "the report has specs", Quick: 12000, Thorough: 500000,
		Gen:   func(t *rapid.T) rep.Report { return rep.GenReport(t, rep.Opt{MaxSpecs: 5}) },
		Check: func(p rep.Report) vf.Outcome { return vf.Outcome{Err: checkV1(p), NonTrivial: len(p.Specs) > 0} }})
}

func checkV1(p rep.Report) error {
	r := p.Build()
	sc := &r.SuiteConfig
	sc.SkipStrings, sc.FlakeAttempts, sc.ParallelHost, sc.ParallelProcess = []string{p.Path}, p.Will, "host:1", 1
	sc.RandomizeAllSpecs, sc.FailOnPending, sc.FailFast, sc.DryRun = p.Seed&1 == 1, p.Seed&2 == 2, p.Seed&4 == 4, p.Seed&8 == 8
	var got v1Reporter
	reporters.ReportViaDeprecatedReporter(&got, r)
	sum := types.SuiteSummary{SuiteDescription: p.Desc, SuiteID: p.Path, NumberOfSpecsBeforeParallelization: p.Total, NumberOfTotalSpecs: p.Total, NumberOfSpecsThatWillBeRun: p.Will}
	want := []v1Call{{What: "SuiteWillBegin", Sum: sum, Conf: config.GinkgoConfigType{RandomSeed: int64(p.Seed), FocusStrings: p.FocusStr, ParallelTotal: p.Procs, ParallelNode: 1, SkipStrings: []string{p.Path}, FlakeAttempts: p.Will,
		SyncHost: "host:1", StreamHost: "host:1", RandomizeAllSpecs: p.Seed&1 == 1, FailOnPending: p.Seed&2 == 2, FailFast: p.Seed&4 == 4, DryRun: p.Seed&8 == 8}}}
	for _, s := range p.Specs {
		b := s.Build()
		out := s.GW
		if s.Out != "" && s.GW != "" {
			out = s.Out + "\n" + s.GW
		} else if s.Out != "" {
			out = s.Out
		}
		var f types.SpecFailure
		if s.Fail != nil {
			f = types.SpecFailure{Message: s.Fail.Msg, Location: s.Fail.Loc.Build(), ForwardedPanic: s.Fail.Panic, ComponentType: rep.NodeTypes[s.Fail.NodeType], ComponentCodeLocation: s.Fail.At.Build()}
			switch b.Failure.FailureNodeContext {
			case types.FailureNodeAtTopLevel:
				f.ComponentIndex = -1
			case types.FailureNodeInContainer:
				f.ComponentIndex = s.Fail.Index
			default: // the leaf, whose text is the last if it has one
				f.ComponentIndex = len(s.Texts)
				if s.Leaf == "" {
					f.ComponentIndex--
				}
			}
		}
		set := types.SetupSummary{ComponentType: s.NodeType(), CodeLocation: s.LeafLoc.Build(), State: rep.States[s.State], RunTime: b.RunTime, Failure: f, CapturedOutput: out, SuiteID: p.Path}
		switch s.NodeType() {
		case types.NodeTypeBeforeSuite, types.NodeTypeSynchronizedBeforeSuite:
			want = append(want, v1Call{What: "BeforeSuiteDidRun", Set: set})
		case types.NodeTypeAfterSuite, types.NodeTypeSynchronizedAfterSuite:
			want = append(want, v1Call{What: "AfterSuiteDidRun", Set: set})
		case types.NodeTypeIt:
			x := types.SpecSummary{ComponentTexts: append(slices.Clone(s.Texts), s.Leaf), State: rep.States[s.State], RunTime: b.RunTime, Failure: f, NumberOfSamples: s.Attempts, CapturedOutput: out, SuiteID: p.Path,
				ComponentCodeLocations: append(slices.Clone(b.ContainerHierarchyLocations), b.LeafNodeLocation)}
			want = append(want, v1Call{What: "SpecWillRun", Spec: x}, v1Call{What: "SpecDidComplete", Spec: x})
			switch {
			case s.Failed():
				sum.NumberOfFailedSpecs++
			case b.State == types.SpecStatePending:
				sum.NumberOfPendingSpecs++
			case b.State == types.SpecStateSkipped:
				sum.NumberOfSkippedSpecs++
			default:
				sum.NumberOfPassedSpecs++
				if s.Flake > 1 && s.Attempts > 1 {
					sum.NumberOfFlakedSpecs++
				}
			}
			if err := first(same("HasFailureState", x.HasFailureState(), s.Failed()), same("TimedOut", x.TimedOut(), b.State == types.SpecStateTimedout), same("Panicked", x.Panicked(), b.State == types.SpecStatePanicked),
				same("Failed", x.Failed(), b.State == types.SpecStateFailed), same("Passed", x.Passed(), b.State == types.SpecStatePassed), same("Skipped", x.Skipped(), b.State == types.SpecStateSkipped),
				same("Pending", x.Pending(), b.State == types.SpecStatePending)); err != nil {
				return err
			}
		}
	}
	sum.SuiteSucceeded, sum.RunTime = p.OK, r.RunTime
	want = append(want, v1Call{What: "SuiteDidEnd", Sum: sum})
	return rep.Equal("what the reporter was told", want, got.calls)
}

// R08: places and stacks.
type placeCase struct {
	Lines  []string
	Line   int
	Custom string
	Absent bool
	Header bool
	Skip   int
	Frames []frame
	Whole  bool
}

type frame struct{ Func, File string }

func TestR08_places(t *testing.T) {
	vf.Run(t, vf.Prop[placeCase]{ID: "R08", Sub: "places", Rule: "the line is there, or frames are left of the stack", Quick: 8000, Thorough: 200000,
		Gen: func(t *rapid.T) placeCase {
			c := placeCase{Line: vf.U(t, "line", 6), Absent: vf.Pct(t, "absent", 10), Header: vf.Pct(t, "header", 70), Skip: vf.U(t, "skip", 4), Whole: vf.Pct(t, "unpruned", 20)}
			for n := vf.U(t, "lines", 5); n > 0; n-- {
				c.Lines = append(c.Lines, vf.Pick(t, "text", "", "x := 1", "\tFail(\"é\")\r", "// a comment"))
			}
			if vf.Pct(t, "custom", 20) {
				c.Custom = rep.Text(t, "custom")
			}
			for n := c.Skip + 1 + vf.U(t, "frames", 8); n >= 0; n-- {
				c.Frames = append(c.Frames, frame{vf.Pick(t, "func", "main.f()", "a/b.(*T).G({0x1, 0x2})", "created by x.y in goroutine 7", "goroutine ()", "github.com/onsi/ginkgo/v2.It()", "panic({0x1, 0x2})"),
					vf.Pick(t, "file", "/home/me/a_test.go:12 +0x1d", "/home/me/ginkgo.go:1", "/go/pkg/mod/github.com/onsi/ginkgo/v2/core_dsl.go:20 +0x3", "/usr/lib/go/pkg/runtime/x.go:3", "/usr/lib/go/pkg/testing/testing.go:99 +0x1", "/home/me/testing/t.go:4", "/home/runtime.go:1")})
			}
			return c
		},
		Check: func(c placeCase) vf.Outcome {
			file := filepath.Join(scratchDir(t), "src.go")
			if err := os.WriteFile(file, []byte(strings.Join(c.Lines, "\n")), 0o600); err != nil {
				return vf.Outcome{Err: err}
			}
			if c.Absent {
				file += ".gone"
			}
			cl := types.CodeLocation{FileName: file, LineNumber: c.Line, CustomMessage: c.Custom}
			text, line := fmt.Sprintf("%s:%d", file, c.Line), ""
			if c.Custom != "" {
				text = c.Custom
			} else if !c.Absent && c.Line > 0 && c.Line <= len(c.Lines) {
				line = c.Lines[c.Line-1]
			}
			if err := first(same("String", cl.String(), text), same("ContentsOfLine", cl.ContentsOfLine(), line)); err != nil {
				return vf.Outcome{Err: err}
			}
			stack, kept := "", []string{}
			if c.Header {
				stack = "goroutine 5 [running]:\n"
			} else if strings.HasPrefix(c.Frames[0].Func, "goroutine ") {
				c.Frames[0].Func = "runtime/debug.Stack()"
			}
			internal := regexp.MustCompile(`^.*/(ginkgo|pkg/testing|pkg/runtime)/`)
			for i, f := range c.Frames {
				stack += f.Func + "\n\t" + f.File + "\n"
				if i > c.Skip && (c.Whole || !internal.MatchString(f.File)) {
					kept = append(kept, f.Func, "\t"+f.File)
				}
			}
			if c.Whole {
				os.Setenv("GINKGO_PRUNE_STACK", "FALSE")
				defer os.Unsetenv("GINKGO_PRUNE_STACK")
			}
			if got := strings.TrimSuffix(types.PruneStack(stack, c.Skip), "\n"); got != strings.Join(kept, "\n") {
				return vf.Fail("PruneStack(%q, %d) is %q, want %q", stack, c.Skip, got, strings.Join(kept, "\n"))
			}
			return vf.Outcome{NonTrivial: line != "" || len(kept) > 0}
		}})
}

var placeDir string

// scratchDir is one directory for all cases.
func scratchDir(t *testing.T) string {
	if placeDir == "" {
		placeDir = t.TempDir()
	}
	return placeDir
}
