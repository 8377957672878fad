// Package dsl checks what becomes of the calls with which a user builds a suite.
package dsl

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// arg is an argument of a node.
type arg struct {
	Kind string
	N    int      `json:",omitempty"`
	Text []string `json:",omitempty"`
	Sub  []arg    `json:",omitempty"`
}

type (
	namedBody    func()
	namedCtxBody func(internal.SpecContext)
	namedReport  func(types.SpecReport)
	myCtx        interface{ context.Context }
	bigCtx       interface {
		internal.SpecContext
		Extra()
	}
	some struct{ X int }
)

// called is what a body was called with.
type called struct {
	Body string
	Args []any
}

// body is a kind of function.
type body struct {
	name string
	make func(id string, log *[]called) any
	// the roles in which it is a body, and whether it then takes a context
	roles string
	ctx   bool
}

// roles: p plain, c container, e report each, s report suite, 1 first and 2 second of SynchronizedBeforeSuite
var bodies = []body{
	{"func()", func(id string, l *[]called) any { return func() { *l = append(*l, called{id, nil}) } }, "pc12", false},
	{"func(SpecContext)", func(id string, l *[]called) any {
		return func(c internal.SpecContext) { *l = append(*l, called{id, []any{c}}) }
	}, "p12", true},
	{"func(context.Context)", func(id string, l *[]called) any {
		return func(c context.Context) { *l = append(*l, called{id, []any{c}}) }
	}, "p12", true},
	{"func(myCtx)", func(id string, l *[]called) any {
		return func(c myCtx) { *l = append(*l, called{id, []any{c}}) }
	}, "p12", true},
	{"func(bigCtx)", func(id string, l *[]called) any { return func(c bigCtx) {} }, "", true},
	{"namedBody", func(id string, l *[]called) any {
		return namedBody(func() { *l = append(*l, called{id, nil}) })
	}, "pc12", false},
	{"namedCtxBody", func(id string, l *[]called) any {
		return namedCtxBody(func(c internal.SpecContext) { *l = append(*l, called{id, []any{c}}) })
	}, "p12", true},
	{"func(int)", func(id string, l *[]called) any { return func(int) {} }, "", false},
	{"func(...int)", func(id string, l *[]called) any { return func(...int) {} }, "", false},
	{"func() error", func(id string, l *[]called) any { return func() error { return nil } }, "", false},
	{"func() string", func(id string, l *[]called) any { return func() string { return "" } }, "", false},
	{"func(SpecContext, int)", func(id string, l *[]called) any { return func(internal.SpecContext, int) {} }, "", false},
	{"func() []byte", func(id string, l *[]called) any {
		return func() []byte { *l = append(*l, called{id, nil}); return []byte(id) }
	}, "1", false},
	{"func(SpecContext) []byte", func(id string, l *[]called) any {
		return func(c internal.SpecContext) []byte { *l = append(*l, called{id, []any{c}}); return []byte(id) }
	}, "1", true},
	{"func(context.Context) []byte", func(id string, l *[]called) any {
		return func(c context.Context) []byte { *l = append(*l, called{id, []any{c}}); return []byte(id) }
	}, "1", true},
	{"func([]byte)", func(id string, l *[]called) any {
		return func(b []byte) { *l = append(*l, called{id, []any{string(b)}}) }
	}, "2", false},
	{"func(SpecContext, []byte)", func(id string, l *[]called) any {
		return func(c internal.SpecContext, b []byte) { *l = append(*l, called{id, []any{c, string(b)}}) }
	}, "2", true},
	{"func(context.Context, []byte)", func(id string, l *[]called) any {
		return func(c context.Context, b []byte) { *l = append(*l, called{id, []any{c, string(b)}}) }
	}, "2", true},
	{"func(SpecReport)", func(id string, l *[]called) any {
		return func(r types.SpecReport) { *l = append(*l, called{id, []any{r.LeafNodeText}}) }
	}, "e", false},
	{"func(SpecContext, SpecReport)", func(id string, l *[]called) any {
		return func(c internal.SpecContext, r types.SpecReport) {
			*l = append(*l, called{id, []any{c, r.LeafNodeText}})
		}
	}, "e", true},
	{"namedReport", func(id string, l *[]called) any {
		return namedReport(func(r types.SpecReport) { *l = append(*l, called{id, []any{r.LeafNodeText}}) })
	}, "e", false},
	{"func(Report)", func(id string, l *[]called) any {
		return func(r types.Report) { *l = append(*l, called{id, []any{r.SuiteDescription}}) }
	}, "s", false},
	{"func(SpecContext, Report)", func(id string, l *[]called) any {
		return func(c internal.SpecContext, r types.Report) {
			*l = append(*l, called{id, []any{c, r.SuiteDescription}})
		}
	}, "s", true},
	{"func(Report) bool", func(id string, l *[]called) any { return func(types.Report) bool { return true } }, "", false},
}

// slots are the roles of the bodies of a node, in order.
func slots(n types.NodeType) string {
	switch {
	case n.Is(types.NodeTypeContainer):
		return "c"
	case n.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach):
		return "e"
	case n.Is(types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite):
		return "s"
	case n.Is(types.NodeTypeSynchronizedBeforeSuite):
		return "12"
	case n.Is(types.NodeTypeSynchronizedAfterSuite):
		return "pp"
	}
	return "p"
}

var nodeTypes = []types.NodeType{types.NodeTypeContainer, types.NodeTypeIt, types.NodeTypeIt, types.NodeTypeContainer,
	types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustAfterEach, types.NodeTypeBeforeAll, types.NodeTypeAfterAll,
	types.NodeTypeBeforeSuite, types.NodeTypeSynchronizedBeforeSuite, types.NodeTypeAfterSuite, types.NodeTypeSynchronizedAfterSuite,
	types.NodeTypeReportBeforeEach, types.NodeTypeReportAfterEach, types.NodeTypeReportBeforeSuite, types.NodeTypeReportAfterSuite, types.NodeTypeCleanupInvalid}

// allowed are the decorators and where they may be.
var allowed = map[string]types.NodeType{
	"Focus": types.NodeTypesForContainerAndIt, "Pending": types.NodeTypesForContainerAndIt, "Serial": types.NodeTypesForContainerAndIt,
	"FlakeAttempts": types.NodeTypesForContainerAndIt, "MustPassRepeatedly": types.NodeTypesForContainerAndIt, "Label": types.NodeTypesForContainerAndIt,
	"Ordered": types.NodeTypeContainer, "ContinueOnFailure": types.NodeTypeContainer,
	"OncePerOrdered":    types.NodeTypeBeforeEach | types.NodeTypeAfterEach | types.NodeTypeJustBeforeEach | types.NodeTypeJustAfterEach,
	"SpecTimeout":       types.NodeTypeIt,
	"PollProgressAfter": ^types.NodeTypeContainer, "PollProgressInterval": ^types.NodeTypeContainer, "NodeTimeout": ^types.NodeTypeContainer, "GracePeriod": ^types.NodeTypeContainer,
}

var decorators = []string{"Focus", "Pending", "Serial", "Ordered", "ContinueOnFailure", "OncePerOrdered", "Suppress", "FlakeAttempts", "MustPassRepeatedly", "Label", "Label",
	"PollProgressAfter", "PollProgressInterval", "NodeTimeout", "SpecTimeout", "GracePeriod", "Location", "Offset", "Float"}

func genArg(t *rapid.T, n types.NodeType, depth int) arg {
	k := vf.U(t, "argument", 100)
	switch {
	case k < 8 && depth > 0:
		a := arg{Kind: vf.Pick(t, "slice", "Slice", "Slice", "Labels", "Ints")}
		if a.Kind == "Ints" {
			a.N = vf.U(t, "n", 2)
			return a
		}
		for m := vf.U(t, "elements", 4); m > 0; m-- {
			if a.Kind == "Labels" {
				a.Sub = append(a.Sub, genLabel(t))
			} else {
				a.Sub = append(a.Sub, genArg(t, n, depth-1))
			}
		}
		return a
	case k < 12:
		return arg{Kind: vf.Pick(t, "unknown", "Nil", "Int", "String", "Struct", "Pointer")}
	}
	a := arg{Kind: decorators[vf.U(t, "decorator", len(decorators))]}
	if at, ok := allowed[a.Kind]; ok && !n.Is(at) && vf.Pct(t, "fitting", 80) { // mostly what is allowed
		a.Kind = vf.Pick(t, "other", "GracePeriod", "PollProgressAfter", "NodeTimeout", "PollProgressInterval")
		if n.Is(types.NodeTypeContainer) {
			a.Kind = vf.Pick(t, "other", "Ordered", "Label", "Serial", "Focus", "FlakeAttempts")
		}
	}
	if a.Kind == "Label" {
		return genLabel(t)
	}
	a.N = vf.U(t, "n", 4)
	return a
}

func genLabel(t *rapid.T) arg {
	a := arg{Kind: "Label"}
	for m := vf.U(t, "labels", 4); m > 0; m-- {
		if vf.Pct(t, "odd", 15) {
			a.Text = append(a.Text, vf.Pick(t, "label", "", " ", "a&b", "a|b", "!a", "a,b", "(a", "a)", "a/b", ":a", "a:", "a: ", "a:b", "a::", " a:b:c ", "a: b"))
		} else {
			a.Text = append(a.Text, vf.Pick(t, "label", "a", "b", " a", "a ", "b\t", "Serial", "dog cat", "A", "é", "a.b"))
		}
	}
	return a
}

// value is the argument itself.
func (a arg) value(log *[]called) any {
	d := time.Duration(a.N) * time.Second
	switch a.Kind {
	case "Focus":
		return internal.Focus
	case "Pending":
		return internal.Pending
	case "Serial":
		return internal.Serial
	case "Ordered":
		return internal.Ordered
	case "ContinueOnFailure":
		return internal.ContinueOnFailure
	case "OncePerOrdered":
		return internal.OncePerOrdered
	case "Suppress":
		return internal.SuppressProgressReporting
	case "FlakeAttempts":
		return internal.FlakeAttempts(a.N)
	case "MustPassRepeatedly":
		return internal.MustPassRepeatedly(a.N)
	case "Label":
		return internal.Labels(a.Text)
	case "PollProgressAfter":
		return internal.PollProgressAfter(d)
	case "PollProgressInterval":
		return internal.PollProgressInterval(d)
	case "NodeTimeout":
		return internal.NodeTimeout(d)
	case "SpecTimeout":
		return internal.SpecTimeout(d)
	case "GracePeriod":
		return internal.GracePeriod(d)
	case "Location":
		return types.NewCustomCodeLocation(fmt.Sprintf("location %d", a.N))
	case "Offset":
		return internal.Offset(0)
	case "Float":
		return float64(a.N)
	case "Nil":
		return nil
	case "Int":
		return 7
	case "String":
		return "seven"
	case "Struct":
		return some{7}
	case "Pointer":
		return &some{7}
	case "Ints":
		return make([]int, a.N)
	case "Slice":
		out := []any{}
		for _, s := range a.Sub {
			out = append(out, s.value(log))
		}
		return out
	case "Labels":
		out := []internal.Labels{}
		for _, s := range a.Sub {
			out = append(out, internal.Labels(s.Text))
		}
		return out
	case "Body":
		return bodies[a.N].make(a.Text[0], log)
	}
	panic(a.Kind)
}

func flatten(args []arg) (out []arg) {
	for _, a := range args {
		switch a.Kind {
		case "Slice", "Labels":
			out = append(out, flatten(a.Sub)...)
		case "Ints":
			for i := 0; i < a.N; i++ {
				out = append(out, arg{Kind: "Int"})
			}
		default:
			out = append(out, a)
		}
	}
	return
}

type nodeCase struct {
	Type types.NodeType
	Args []arg
}

func genNode(t *rapid.T, nt types.NodeType) nodeCase {
	c := nodeCase{Type: nt}
	for n := vf.U(t, "arguments", 6); n > 0; n-- {
		c.Args = append(c.Args, genArg(t, c.Type, 2))
	}
	// and bodies, mostly those that fit
	id := 0
	put := func(i int) {
		b := arg{Kind: "Body", N: i, Text: []string{fmt.Sprintf("body%d", id)}}
		id++
		if vf.Pct(t, "nested", 10) {
			b = arg{Kind: "Slice", Sub: []arg{b}}
		}
		c.Args = append(c.Args, b)
	}
	for _, r := range slots(c.Type) {
		switch k := vf.U(t, "body", 100); {
		case k < 88:
			var fit []int
			for i, b := range bodies {
				if strings.ContainsRune(b.roles, r) {
					fit = append(fit, i)
				}
			}
			put(fit[vf.U(t, "which", len(fit))])
		case k < 95:
			put(vf.U(t, "which", len(bodies)))
		}
	}
	if vf.Pct(t, "another", 5) {
		put(vf.U(t, "which", len(bodies)))
	}
	// bodies keep their order, the rest is anywhere
	for i := range c.Args {
		j := vf.Range(t, "place", i, len(c.Args)-1)
		isBody := func(a arg) bool { f := flatten([]arg{a}); return len(f) == 1 && f[0].Kind == "Body" }
		if !isBody(c.Args[j]) || !isBody(c.Args[i]) {
			ok := true
			for k := i; k < j; k++ {
				ok = ok && (!isBody(c.Args[k]) || !isBody(c.Args[j]))
			}
			if ok {
				c.Args[i], c.Args[j] = c.Args[j], c.Args[i]
			}
		}
	}
	return c
}

// want is what a node is to be.
type want struct {
	errs      map[string]bool
	maybe     map[string]bool // follow from other errors
	filled    []arg           // bodies by slot
	last      map[string]int
	has       map[string]bool
	labels    []string
	location  string
	usesFloat bool
}

func cleanLabel(s string) (string, string) {
	s = strings.TrimSpace(s)
	if s == "" {
		return "", "Invalid Empty Label"
	}
	if _, value, found := strings.Cut(s, ":"); strings.ContainsAny(s, "&|!,()/") || s[0] == ':' || found && value == "" {
		return "", "Invalid Label"
	}
	return s, ""
}

func expect(c nodeCase) want {
	w := want{errs: map[string]bool{}, maybe: map[string]bool{}, last: map[string]int{}, has: map[string]bool{}}
	roles := slots(c.Type)
	addLabel := func(l string) {
		for _, x := range w.labels {
			if x == l {
				return
			}
		}
		w.labels = append(w.labels, l)
	}
	invalid, many := false, false
	for _, a := range flatten(c.Args) {
		if at, ok := allowed[a.Kind]; ok {
			w.has[a.Kind], w.last[a.Kind] = true, a.N
			if !c.Type.Is(at) {
				w.errs["Invalid Decorator: "+a.Kind] = true
			}
		}
		switch a.Kind {
		case "Serial":
			addLabel("Serial")
		case "Label":
			for _, l := range a.Text {
				if l, e := cleanLabel(l); e != "" {
					w.errs[e] = true
				} else {
					addLabel(l)
				}
			}
		case "Location":
			w.location = fmt.Sprintf("location %d", a.N)
		case "Offset":
			w.location = ""
		case "Nil", "Int", "String", "Struct", "Pointer":
			w.errs["Unknown Decorator"] = true
		case "Body":
			switch {
			case len(w.filled) == len(roles):
				many = true
			case strings.IndexByte(bodies[a.N].roles, roles[len(w.filled)]) < 0:
				invalid = true
			default:
				w.filled = append(w.filled, a)
			}
		}
	}
	if invalid {
		w.errs["Invalid Function"] = true
		w.maybe["Multiple Functions"], w.maybe["Missing Functions"] = true, true
	} else {
		if many {
			w.errs["Multiple Functions"] = true
		}
		if len(w.filled) < len(roles) {
			switch {
			case w.has["Pending"] && c.Type.Is(types.NodeTypeIt):
			case w.has["Pending"] && !c.Type.Is(types.NodeTypeContainer):
				w.maybe["Missing Functions"] = true
			default:
				w.errs["Missing Functions"] = true
			}
		}
	}
	if w.has["Focus"] && w.has["Pending"] {
		w.errs["Invalid Combination of Decorators: Focused and Pending"] = true
	}
	if w.last["FlakeAttempts"] > 0 && w.last["MustPassRepeatedly"] > 0 {
		w.errs["Invalid Combination of Decorators: FlakeAttempts and MustPassRepeatedly"] = true
	}
	if w.has["ContinueOnFailure"] && !w.has["Ordered"] {
		w.errs["ContinueOnFailure not decorating an outermost Ordered Container"] = true
	}
	ctx := false
	for _, f := range w.filled {
		ctx = ctx || bodies[f.N].ctx
	}
	if (w.last["NodeTimeout"] > 0 || w.last["SpecTimeout"] > 0 || w.last["GracePeriod"] > 0) && !ctx {
		const e = "Invalid NodeTimeout SpecTimeout, or GracePeriod"
		if len(w.errs) > 0 || len(w.filled) < len(roles) {
			w.maybe[e] = true
		} else {
			w.errs[e] = true
		}
	}
	return w
}

func headings(errs []error) map[string]bool {
	out := map[string]bool{}
	for _, e := range errs {
		g, ok := e.(types.GinkgoError)
		if !ok {
			out[fmt.Sprintf("%T %v", e, e)] = true
			continue
		}
		if g.Heading == "Invalid Decorator" {
			if _, rest, ok := strings.Cut(g.Message, "a(n) '"); ok {
				g.Heading += ": " + strings.TrimSuffix(rest, "' decorator")
			}
		}
		out[g.Heading] = true
	}
	return out
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (w want) judge(errs []error) string {
	got := headings(errs)
	for k := range got {
		if !w.errs[k] && !w.maybe[k] {
			return fmt.Sprintf("rejected with %q, want %q", keys(got), keys(w.errs))
		}
	}
	for k := range w.errs {
		if !got[k] {
			return fmt.Sprintf("rejected with %q, want %q", keys(got), keys(w.errs))
		}
	}
	return ""
}

func (w want) fields(n internal.Node) string {
	secs := func(k string, def time.Duration) time.Duration {
		if !w.has[k] {
			return def
		}
		return time.Duration(w.last[k]) * time.Second
	}
	checks := []struct {
		name      string
		got, want any
	}{
		{"MarkedFocus", n.MarkedFocus, w.has["Focus"]}, {"MarkedPending", n.MarkedPending, w.has["Pending"]}, {"MarkedSerial", n.MarkedSerial, w.has["Serial"]},
		{"MarkedOrdered", n.MarkedOrdered, w.has["Ordered"]}, {"MarkedContinueOnFailure", n.MarkedContinueOnFailure, w.has["ContinueOnFailure"]},
		{"MarkedOncePerOrdered", n.MarkedOncePerOrdered, w.has["OncePerOrdered"]}, {"FlakeAttempts", n.FlakeAttempts, w.last["FlakeAttempts"]},
		{"MustPassRepeatedly", n.MustPassRepeatedly, w.last["MustPassRepeatedly"]},
		{"PollProgressAfter", n.PollProgressAfter, secs("PollProgressAfter", -1)}, {"PollProgressInterval", n.PollProgressInterval, secs("PollProgressInterval", -1)},
		{"GracePeriod", n.GracePeriod, secs("GracePeriod", -1)}, {"NodeTimeout", n.NodeTimeout, secs("NodeTimeout", 0)}, {"SpecTimeout", n.SpecTimeout, secs("SpecTimeout", 0)},
		{"Labels", strings.Join(n.Labels, "\x00"), strings.Join(w.labels, "\x00")}, {"location", n.CodeLocation.CustomMessage, w.location},
	}
	for _, c := range checks {
		if c.got != c.want {
			return fmt.Sprintf("%s is %#v, want %#v", c.name, c.got, c.want)
		}
	}
	if w.location == "" && (!strings.HasSuffix(n.CodeLocation.FileName, "nodes_test.go") || n.CodeLocation.LineNumber == 0) {
		return fmt.Sprintf("the location is %s", n.CodeLocation)
	}
	return ""
}

// newNode stands for a function of the DSL.
//
//go:noinline
func newNode(t types.NodeType, text string, args ...any) (internal.Node, []error) {
	return internal.NewNode(types.NewDeprecationTracker(), t, text, args...)
}

// C01: a node is what its arguments say, or it is rejected.
func TestC01_nodes(t *testing.T) {
	vf.Run(t, vf.Prop[nodeCase]{ID: "C01", Sub: "nodes", Rule: "at least two decorators", Quick: 400000, Thorough: 20000000,
		Gen:   func(t *rapid.T) nodeCase { return genNode(t, nodeTypes[vf.U(t, "type", len(nodeTypes))]) },
		Check: checkNode})
}

func checkNode(c nodeCase) (out vf.Outcome) {
	w := expect(c)
	var log []called
	var args []any
	for _, a := range c.Args {
		args = append(args, a.value(&log))
	}
	defer func() {
		if e := recover(); e != nil {
			out = vf.Fail("[%s] with %+v: panic: %v", c.Type, c.Args, e)
		}
	}()
	n, errs := newNode(c.Type, "text", args...)
	if d := w.judge(errs); d != "" {
		return vf.Fail("[%s] with %+v: %s", c.Type, c.Args, d)
	}
	decs := 0
	for _, a := range flatten(c.Args) {
		if a.Kind != "Body" {
			decs++
		}
	}
	out = vf.Outcome{NonTrivial: decs > 1, Classes: []string{c.Type.String()}}
	if len(errs) > 0 {
		if !n.IsZero() {
			return vf.Fail("[%s] with %+v is rejected, but there is a node", c.Type, c.Args)
		}
		out.Classes = append(out.Classes, "rejected")
		return
	}
	out.Classes = append(out.Classes, "accepted")
	if n.IsZero() || n.NodeType != c.Type || n.Text != "text" {
		return vf.Fail("[%s] with %+v is %+v", c.Type, c.Args, n)
	}
	if d := w.fields(n); d != "" {
		return vf.Fail("[%s] with %+v: %s", c.Type, c.Args, d)
	}
	if len(log) > 0 {
		return vf.Fail("[%s] with %+v: a body was called", c.Type, c.Args)
	}
	// every body is the one that was given
	sc := internal.NewSpecContext(nil)
	call := func(i int, hasCtx, flagged bool, f func(), extra ...any) string {
		log = nil
		f()
		id := w.filled[i].Text[0]
		if len(log) != 1 || log[0].Body != id {
			return fmt.Sprintf("body %d: called %v", i, log)
		}
		var want []any
		b := bodies[w.filled[i].N]
		if b.ctx {
			want = append(want, sc)
		}
		if flagged && hasCtx != b.ctx {
			return fmt.Sprintf("body %d (%s) is said to take a context: %v", i, b.name, hasCtx)
		}
		if strings.Contains(b.name, "Report") || strings.Contains(b.name, "[]byte)") {
			want = append(want, extra...)
		}
		if fmt.Sprint(len(want)) != fmt.Sprint(len(log[0].Args)) || !reflect.DeepEqual(append([]any{}, log[0].Args...), append([]any{}, want...)) {
			return fmt.Sprintf("body %d (%s) is called with %v", i, b.name, log[0].Args)
		}
		return ""
	}
	d := ""
	switch slots(c.Type) {
	case "c":
		d = call(0, false, false, func() { n.Body(nil) })
	case "p":
		if len(w.filled) == 0 {
			if n.Body != nil {
				d = "there is a body"
			}
			break
		}
		d = call(0, n.HasContext, true, func() { n.Body(sc) })
	case "e":
		d = call(0, n.HasContext, true, func() { n.ReportEachBody(sc, types.SpecReport{LeafNodeText: "leaf"}) }, "leaf")
	case "s":
		d = call(0, n.HasContext, true, func() { n.ReportSuiteBody(sc, types.Report{SuiteDescription: "suite"}) }, "suite")
	case "12":
		var got []byte
		d = call(0, n.SynchronizedBeforeSuiteProc1BodyHasContext, true, func() { got = n.SynchronizedBeforeSuiteProc1Body(sc) })
		wantData := ""
		if strings.HasSuffix(bodies[w.filled[0].N].name, " []byte") {
			wantData = w.filled[0].Text[0]
		}
		if d == "" && string(got) != wantData {
			d = fmt.Sprintf("the first body returns %q", got)
		}
		if d == "" {
			d = call(1, n.SynchronizedBeforeSuiteAllProcsBodyHasContext, true, func() { n.SynchronizedBeforeSuiteAllProcsBody(sc, []byte("data")) }, "data")
		}
	case "pp":
		if d = call(0, n.SynchronizedAfterSuiteAllProcsBodyHasContext, true, func() { n.SynchronizedAfterSuiteAllProcsBody(sc) }); d == "" {
			d = call(1, n.SynchronizedAfterSuiteProc1BodyHasContext, true, func() { n.SynchronizedAfterSuiteProc1Body(sc) })
		}
	}
	if d != "" {
		return vf.Fail("[%s] with %+v: %s", c.Type, c.Args, d)
	}
	return
}
