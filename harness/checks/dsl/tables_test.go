package dsl

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	ginkgo "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// param is a value in an entry: of a kind of parameter, or an own context.
type param struct {
	Kind, Value int
	Ctx         bool `json:",omitempty"`
}

func (p param) value() any {
	switch {
	case p.Ctx:
		return ownCtx
	case p.Value == 0:
		return nil
	}
	return params[p.Kind].vs[p.Value-1]
}

var ownCtx = context.WithValue(context.Background(), ownKey{}, 1)

type entry struct {
	Prefix string // "", F, P, X
	Desc   string // text, nil, format, func, badfunc, invalid
	Text   string
	Params []param
	Dec    []string
	At     []int // where the decorators are
	Group  bool  // in a slice with the next one
}

type table struct {
	Prefix   string
	Subtree  bool
	Ctx      int // 0 none, 1 SpecContext, 2 context.Context
	Kinds    []int
	Variadic int
	Desc     string // "", format, func
	Dec      []string
	Entries  []entry
	Order    int
	Leaves   int // of a subtree
}

type tableCase struct{ Tables []table }

func genEntry(t *rapid.T, tb table) entry {
	e := entry{Text: vf.Pick(t, "text", "entry", "", "%d %s", "a b", "x: é", "{{red}}")}
	e.Prefix = vf.Pick(t, "prefix", "", "", "", "", "", "F", "P", "X")
	e.Desc = vf.Pick(t, "description", "text", "text", "nil", "nil", "format", "func", "badfunc", "invalid")
	if tb.Ctx == 2 && vf.Pct(t, "own", 40) {
		e.Params = append(e.Params, param{Ctx: true})
	}
	for _, k := range tb.Kinds {
		e.Params = append(e.Params, param{Kind: k, Value: genValue(t, k)})
		if vf.Pct(t, "nil anyway", 5) {
			e.Params[len(e.Params)-1].Value = 0
		}
	}
	if tb.Variadic >= 0 {
		for n := vf.U(t, "more", 4); n > 0; n-- {
			e.Params = append(e.Params, param{Kind: tb.Variadic, Value: genValue(t, tb.Variadic)})
		}
	}
	if tb.Subtree {
		if e.Desc == "badfunc" || e.Desc == "invalid" {
			e.Desc = "text"
		}
	} else if vf.Pct(t, "wrong", 15) {
		switch i := vf.U(t, "where", len(e.Params)+1); vf.U(t, "how", 3) {
		case 0:
			if i < len(e.Params) {
				e.Params = append(e.Params[:i], e.Params[i+1:]...)
			}
		case 1:
			k := vf.U(t, "kind", len(params))
			e.Params = append(e.Params[:i:i], append([]param{{Kind: k, Value: genValue(t, k)}}, e.Params[i:]...)...)
		case 2:
			if i < len(e.Params) {
				k := vf.U(t, "kind", len(params))
				e.Params[i] = param{Kind: k, Value: genValue(t, k)}
			}
		}
	}
	for n := vf.U(t, "decorators", 3); n > 0; n-- {
		d := vf.Pick(t, "decorator", "label a", "label b c", "label a", "serial", "flake", "location 1", "location 2", "slice", "timeout")
		if d == "timeout" && (tb.Subtree || tb.Ctx == 0 || len(e.Params) > 0 && e.Params[0].Ctx) || d == "serial" && tb.Subtree {
			d = "label d"
		}
		if d == "serial" && has(tb.Dec, "ordered") {
			d = "label d"
		}
		e.Dec, e.At = append(e.Dec, d), append(e.At, vf.U(t, "place", 8))
	}
	if has(e.Dec, "timeout") && (tb.Ctx == 0 || takesOwn(tb, e.values())) {
		for i := range e.Dec {
			if e.Dec[i] == "timeout" {
				e.Dec[i] = "label d"
			}
		}
	}
	e.Group = vf.Pct(t, "group", 20)
	return e
}

func genTable(t *rapid.T) table {
	tb := table{Variadic: -1, Prefix: vf.Pick(t, "prefix", "", "", "", "", "F", "P", "X"), Order: vf.U(t, "order", 1000)}
	tb.Subtree = vf.Pct(t, "subtree", 30)
	if !tb.Subtree {
		tb.Ctx = vf.Pick(t, "context", 0, 0, 1, 2)
	} else {
		tb.Leaves = vf.Range(t, "leaves", 1, 3)
	}
	for n := vf.U(t, "parameters", 4); n > 0; n-- {
		tb.Kinds = append(tb.Kinds, vf.U(t, "kind", len(params)))
	}
	if vf.Pct(t, "variadic", 25) {
		tb.Variadic = vf.U(t, "kind", len(params))
	}
	tb.Desc = vf.Pick(t, "descriptions", "", "", "format", "func")
	for n := vf.U(t, "decorators", 3); n > 0; n-- {
		tb.Dec = append(tb.Dec, vf.Pick(t, "decorator", "label t", "label u", "serial", "ordered", "flake", "slice"))
	}
	for n := vf.U(t, "entries", 6); n > 0; n-- {
		tb.Entries = append(tb.Entries, genEntry(t, tb))
	}
	return tb
}

func (e entry) values() (out []any) {
	for _, p := range e.Params {
		out = append(out, p.value())
	}
	return
}

func decorator(d string) any {
	switch kind, rest, _ := strings.Cut(d, " "); kind {
	case "label":
		return ginkgo.Label(strings.Fields(rest)...)
	case "serial":
		return ginkgo.Serial
	case "ordered":
		return ginkgo.Ordered
	case "flake":
		return ginkgo.FlakeAttempts(2)
	case "location":
		return types.NewCustomCodeLocation(d)
	case "slice":
		return []any{ginkgo.Label("s"), ginkgo.FlakeAttempts(2)}
	case "timeout":
		return ginkgo.NodeTimeout(time.Hour)
	}
	panic(d)
}

// signature is the type of the body, or of a description function for values.
func (tb table) signature(ctx bool) (in []reflect.Type) {
	if ctx {
		in = append(in, [...]reflect.Type{nil, reflect.TypeOf((*internal.SpecContext)(nil)).Elem(), reflect.TypeOf((*context.Context)(nil)).Elem()}[tb.Ctx])
	}
	for _, k := range tb.Kinds {
		in = append(in, params[k].t)
	}
	if tb.Variadic >= 0 {
		in = append(in, reflect.SliceOf(params[tb.Variadic].t))
	}
	return
}

// accepts says what is wrong with the values for a function.
func accepts(in []reflect.Type, variadic bool, values []any, kind string) string {
	fixed := len(in)
	if variadic {
		fixed--
	}
	switch {
	case len(values) < fixed:
		return "Too few parameters passed in to " + kind
	case len(values) > fixed && !variadic:
		return "Too many parameters passed in to " + kind
	}
	for i, v := range values {
		var t reflect.Type
		if i < fixed {
			t = in[i]
		} else {
			t = in[fixed].Elem()
		}
		if v != nil && !reflect.TypeOf(v).AssignableTo(t) {
			return "Incorrect parameters type passed to " + kind
		}
	}
	return ""
}

// arrive are the values as the function sees them.
func arrive(in []reflect.Type, variadic bool, values []any) (out []any) {
	for i, v := range values {
		t := in[min(i, len(in)-1)]
		if variadic && i >= len(in)-1 {
			t = in[len(in)-1].Elem()
		}
		if v == nil {
			v = reflect.Zero(t).Interface()
		}
		out = append(out, v)
	}
	return
}

func takesOwn(tb table, values []any) bool {
	if tb.Ctx != 2 || len(values) == 0 || values[0] == nil {
		return tb.Ctx == 0
	}
	_, own := values[0].(context.Context)
	return own
}

func show(vs []any) string {
	var out []string
	for _, v := range vs {
		if reflect.TypeOf(v) != nil && reflect.TypeOf(v).Kind() == reflect.Func {
			v = reflect.ValueOf(v).Pointer()
		}
		if _, ok := v.(internal.SpecContext); ok {
			v = "SpecContext"
		} else if v == ownCtx {
			v = "own context"
		}
		out = append(out, fmt.Sprintf("%T:%#v", v, v))
	}
	return strings.Join(out, ", ")
}

var messages = []string{
	"Too few parameters passed in to Entry Description function", "Too few parameters passed in to Table Body function",
	"Too many parameters passed in to Entry Description function", "Too many parameters passed in to Table Body function",
	"Incorrect parameters type passed to Entry Description function", "Incorrect parameters type passed to Table Body function",
	"Invalid Entry description",
}

type tableLog struct{ calls []string }

func unpack(args []reflect.Value, variadic bool) (out []any) {
	for i, a := range args {
		if variadic && i == len(args)-1 {
			for j := 0; j < a.Len(); j++ {
				out = append(out, a.Index(j).Interface())
			}
			break
		}
		out = append(out, a.Interface())
	}
	return
}

// describer is a function that makes a description of values.
func describer(in []reflect.Type, variadic bool, prefix string) any {
	return reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf("")}, variadic), func(args []reflect.Value) []reflect.Value {
		return []reflect.Value{reflect.ValueOf(prefix + show(unpack(args, variadic)))}
	}).Interface()
}

func (tb table) build(i int, log *tableLog) {
	variadic := tb.Variadic >= 0
	body := reflect.MakeFunc(reflect.FuncOf(tb.signature(tb.Ctx > 0), nil, variadic), func(args []reflect.Value) []reflect.Value {
		s := fmt.Sprintf("table %d: %s", i, show(unpack(args, variadic)))
		if !tb.Subtree {
			log.calls = append(log.calls, s)
			return nil
		}
		for l := 0; l < tb.Leaves; l++ {
			ginkgo.It(fmt.Sprintf("leaf %d", l), func() { log.calls = append(log.calls, fmt.Sprintf("%s leaf %d", s, l)) })
		}
		return nil
	}).Interface()
	args := []any{body}
	var group []ginkgo.TableEntry
	for _, e := range tb.Entries {
		vs := e.values()
		var desc any
		switch e.Desc {
		case "text":
			desc = e.Text
		case "format":
			desc = ginkgo.EntryDescription(e.Text + " %v")
		case "func":
			desc = describer(typesOf(vs), false, "own: ")
		case "badfunc":
			desc = describer(append(typesOf(vs), reflect.TypeOf(0)), false, "own: ")
		case "invalid":
			desc = 17
		}
		for k, d := range e.Dec {
			at := e.At[k] % (len(vs) + 1)
			vs = append(vs[:at:at], append([]any{decoratorMark(d)}, vs[at:]...)...)
		}
		for k, v := range vs {
			if d, ok := v.(decoratorMark); ok {
				vs[k] = decorator(string(d))
			}
		}
		var te ginkgo.TableEntry
		switch e.Prefix {
		case "":
			te = ginkgo.Entry(desc, vs...)
		case "F":
			te = ginkgo.FEntry(desc, vs...)
		case "P":
			te = ginkgo.PEntry(desc, vs...)
		case "X":
			te = ginkgo.XEntry(desc, vs...)
		}
		if group = append(group, te); e.Group {
			continue
		}
		if len(group) == 1 {
			args = append(args, te)
		} else {
			args = append(args, group)
		}
		group = nil
	}
	if len(group) > 0 {
		args = append(args, group)
	}
	var others []any
	switch tb.Desc {
	case "format":
		others = append(others, ginkgo.EntryDescription("table: %v|%v"))
	case "func":
		in := tb.signature(false)
		others = append(others, describer(in, variadic, "by table: "))
	}
	for _, d := range tb.Dec {
		others = append(others, decorator(d))
	}
	last := -1
	for k, o := range others { // anywhere among the entries, in their order
		at := max(last+1, (tb.Order+7*k)%(len(args)+1))
		last = at
		args = append(args[:at:at], append([]any{o}, args[at:]...)...)
	}
	if len(args) == 1 {
		args = append(args, ginkgo.Label("lonely"))
	}
	fs := map[string]func(string, ...any) bool{"": ginkgo.DescribeTable, "F": ginkgo.FDescribeTable, "P": ginkgo.PDescribeTable, "X": ginkgo.XDescribeTable}
	if tb.Subtree {
		fs = map[string]func(string, ...any) bool{"": ginkgo.DescribeTableSubtree, "F": ginkgo.FDescribeTableSubtree, "P": ginkgo.PDescribeTableSubtree, "X": ginkgo.XDescribeTableSubtree}
	}
	fs[tb.Prefix](fmt.Sprintf("table %d", i), args...)
}

type decoratorMark string

func typesOf(vs []any) (out []reflect.Type) {
	for _, v := range vs {
		if v == nil {
			out = append(out, reflect.TypeOf((*any)(nil)).Elem())
		} else {
			out = append(out, reflect.TypeOf(v))
		}
	}
	return
}

// wantSpec is a spec that has to be.
type wantSpec struct {
	texts    []string
	labels   []string
	err      string
	focused  bool
	pending  bool
	serial   bool
	ordered  bool
	location string
	call     string
	flake    int
}

func (tb table) specs(i int) (out []wantSpec) {
	variadic := tb.Variadic >= 0
	anyFocus := false
	for _, e := range tb.Entries {
		anyFocus = anyFocus || e.Prefix == "F"
	}
	addTo := func(labels []string, decs []string) []string {
		add := func(l string) {
			if !has(labels, l) {
				labels = append(labels, l)
			}
		}
		for _, d := range decs {
			switch k, rest, _ := strings.Cut(d, " "); k {
			case "label":
				for _, l := range strings.Fields(rest) {
					add(l)
				}
			case "serial":
				add("Serial")
			case "slice":
				add("s")
			}
		}
		return labels
	}
	for _, e := range tb.Entries {
		vs := e.values()
		w := wantSpec{}
		w.pending = tb.Prefix == "P" || tb.Prefix == "X" || e.Prefix == "P" || e.Prefix == "X"
		w.focused = e.Prefix == "F" || tb.Prefix == "F" && !anyFocus
		w.serial = has(tb.Dec, "serial") || has(e.Dec, "serial")
		w.ordered = has(tb.Dec, "ordered")
		w.labels = addTo(addTo(nil, tb.Dec), orderOf(e))
		if has(tb.Dec, "flake") || has(tb.Dec, "slice") || has(e.Dec, "flake") || has(e.Dec, "slice") {
			w.flake = 2
		}
		for _, d := range orderOf(e) {
			if strings.HasPrefix(d, "location") {
				w.location = d
			}
		}
		desc := ""
		const kind = "Entry Description function"
		switch e.Desc {
		case "text":
			desc = e.Text
		case "format":
			desc = fmt.Sprintf(e.Text+" %v", vs...)
		case "func":
			desc = "own: " + show(arrive(typesOf(vs), false, vs))
		case "badfunc":
			w.err = "Too few parameters passed in to " + kind
		case "invalid":
			w.err = "Invalid Entry description"
		case "nil":
			switch tb.Desc {
			case "":
				ps := []string{}
				for _, v := range vs {
					ps = append(ps, fmt.Sprint(v))
				}
				desc = "Entry: " + strings.Join(ps, ", ")
			case "format":
				desc = fmt.Sprintf("table: %v|%v", vs...)
			case "func":
				in := tb.signature(false)
				if w.err = accepts(in, variadic, vs, kind); w.err == "" {
					desc = "by table: " + show(arrive(in, variadic, vs))
				}
			}
		}
		own := takesOwn(tb, vs)
		in := tb.signature(tb.Ctx > 0 && own)
		if w.err == "" {
			w.err = accepts(in, variadic, vs, "Table Body function")
		}
		if w.err == "" {
			got := arrive(in, variadic, vs)
			if !own {
				w.call = "string:\"SpecContext\""
				if len(got) > 0 {
					w.call += ", "
				}
			}
			w.call = fmt.Sprintf("table %d: %s%s", i, w.call, show(got))
		}
		w.texts = []string{"outer", fmt.Sprintf("table %d", i), desc}
		if !tb.Subtree {
			out = append(out, w)
			continue
		}
		for l := 0; l < tb.Leaves; l++ {
			x := w
			x.location = ""
			x.texts = append(append([]string{}, w.texts...), fmt.Sprintf("leaf %d", l))
			x.call += fmt.Sprintf(" leaf %d", l)
			out = append(out, x)
		}
	}
	return
}

// orderOf are the decorators of an entry in the order in which they are written.
func orderOf(e entry) []string {
	out := make([]any, len(e.Params))
	for k, d := range e.Dec {
		at := e.At[k] % (len(out) + 1)
		out = append(out[:at:at], append([]any{d}, out[at:]...)...)
	}
	var ds []string
	for _, x := range out {
		if d, ok := x.(string); ok {
			ds = append(ds, d)
		}
	}
	return ds
}

// C03: a table is the specs that its entries say.
func TestC03_tables(t *testing.T) {
	vf.Run(t, vf.Prop[tableCase]{ID: "C03", Sub: "tables", Rule: "two entries", Quick: 60000, Thorough: 3000000,
		Gen: func(t *rapid.T) tableCase {
			var c tableCase
			for n := vf.Range(t, "tables", 1, 3); n > 0; n-- {
				c.Tables = append(c.Tables, genTable(t))
			}
			return c
		},
		Check: checkTables})
}

func checkTables(c tableCase) (out vf.Outcome) {
	defer func() {
		if e := recover(); e != nil {
			out = vf.Fail("panic: %v", e)
		}
	}()
	suite, failer := internal.NewSuite(), internal.NewFailer()
	log := &tableLog{}
	var rec *recorder
	var err error
	with(suite, failer, func() {
		ginkgo.Describe("outer", func() {
			for i, tb := range c.Tables {
				tb.build(i, log)
			}
		})
		if err = suite.BuildTree(); err == nil {
			rec, _, _ = run(suite, failer, config())
		}
	})
	if err != nil {
		return vf.Fail("the tree is not built: %v", err)
	}
	var want []wantSpec
	entries, focus := 0, false
	for i, tb := range c.Tables {
		entries += len(tb.Entries)
		for _, s := range tb.specs(i) {
			focus = focus || s.focused && !s.pending
			want = append(want, s)
		}
	}
	if len(rec.specs) != len(want) {
		return vf.Fail("%d specs, want %d", len(rec.specs), len(want))
	}
	for i, tb := range c.Tables {
		name := fmt.Sprintf("table %d", i)
		var ws, gs, calls, made []string
		failed := false // the ordered table has failed
		for _, w := range want {
			if w.texts[1] != name {
				continue
			}
			state, flake, failure := types.SpecStatePassed, w.flake, ""
			switch {
			case w.pending:
				state = types.SpecStatePending
			case focus && !w.focused, w.ordered && failed:
				state = types.SpecStateSkipped
			case w.err != "":
				state, failed, failure = types.SpecStatePanicked, true, w.err
			}
			if state == types.SpecStatePassed {
				calls = append(calls, w.call)
			} else {
				flake = 0
			}
			if len(w.labels) == 0 && len(tb.Dec)+len(tb.Entries) == 0 {
				w.labels = []string{"lonely"}
			}
			ws = append(ws, fmt.Sprintf("%q %s labels %q serial %v ordered %v flake %d at %q %s", w.texts, state, w.labels, w.serial, w.ordered, flake, w.location, failure))
		}
		for _, s := range rec.specs {
			if s.ContainerHierarchyTexts[1] != name {
				continue
			}
			failure, flake := s.Failure.ForwardedPanic, s.MaxFlakeAttempts
			for _, m := range messages {
				if strings.Contains(failure, m) {
					failure = m
				}
			}
			if s.State != types.SpecStatePassed {
				flake = 0
			}
			if loc := s.LeafNodeLocation; loc.CustomMessage == "" && !strings.HasSuffix(loc.FileName, "tables_test.go") {
				return vf.Fail("spec %q is at %s", s.FullText(), loc)
			}
			texts := append(append([]string{}, s.ContainerHierarchyTexts...), s.LeafNodeText)
			gs = append(gs, fmt.Sprintf("%q %s labels %q serial %v ordered %v flake %d at %q %s", texts, s.State, s.Labels(), s.IsSerial, s.IsInOrderedContainer, flake, s.LeafNodeLocation.CustomMessage, failure))
		}
		for _, c := range log.calls {
			if strings.HasPrefix(c, name+":") {
				made = append(made, c)
			}
		}
		if !has(tb.Dec, "ordered") { // the specs may come in any order
			for _, x := range [][]string{ws, gs, calls, made} {
				sort.Strings(x)
			}
		}
		if w, g := strings.Join(ws, "\n"), strings.Join(gs, "\n"); w != g {
			return vf.Fail("specs\n%s\nwant\n%s", g, w)
		}
		if w, g := strings.Join(calls, "\n"), strings.Join(made, "\n"); w != g {
			return vf.Fail("calls\n%s\nwant\n%s", g, w)
		}
	}
	return vf.Outcome{NonTrivial: entries > 1, Classes: []string{fmt.Sprintf("%d entries", min(entries, 6))}}
}
