package dsl

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// cleanupCase is a call of DeferCleanup.
type cleanupCase struct {
	Ctx      int // the callback takes no context, a SpecContext, a context.Context
	Own      bool
	Params   []int // kinds of parameters
	Values   []int // which value is given for each (0: nil)
	Variadic int   // -1: not; else the kind
	More     []int // values for the variadic part
	Outs     []int // kinds of results
	Fails    bool
	Args     []arg // decorators
	At       []int // before which parameter they are
	Bad      int   // 1: no function, 2: no argument at all
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

type valErr string

func (e valErr) Error() string { return string(e) }

// parameters: a type and values for it
// mixed is no slice of decorators, although one is in it.
var mixed = []any{internal.FlakeAttempts(3), 1}

var params = []struct {
	t  reflect.Type
	vs []any
}{
	{reflect.TypeOf(0), []any{1, -3}},
	{reflect.TypeOf(""), []any{"", "text"}},
	{reflect.TypeOf((*some)(nil)), []any{&some{1}, (*some)(nil)}},
	{errType, []any{errors.New("x"), &ptrErr{"y"}}},
	{reflect.TypeOf((*any)(nil)).Elem(), []any{1, "a", some{2}, []int{}, mixed}},
	{reflect.TypeOf([]string{}), []any{[]string{"a"}, []string{}, []string(nil)}},
	{reflect.TypeOf(map[string]int{}), []any{map[string]int{"a": 1}}},
	{reflect.TypeOf(func() {}), []any{func() {}}},
	{reflect.TypeOf(time.Second), []any{time.Minute}},
	{reflect.TypeOf(some{}), []any{some{1}}},
}

func nilable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
		return true
	}
	return false
}

func genValue(t *rapid.T, kind int) int {
	p := params[kind]
	if nilable(p.t) && vf.Pct(t, "nil", 25) {
		return 0
	}
	return 1 + vf.U(t, "value", len(p.vs))
}

// results: int, string, error, *ptrErr, valErr
var outs = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), errType, reflect.TypeOf((*ptrErr)(nil)), reflect.TypeOf(valErr(""))}

// C01: DeferCleanup defers the call it is given.
func TestC01_cleanup(t *testing.T) {
	vf.Run(t, vf.Prop[cleanupCase]{ID: "C01", Sub: "cleanup", Rule: "two parameters or a result", Quick: 200000, Thorough: 10000000,
		Gen: func(t *rapid.T) cleanupCase {
			c := cleanupCase{Variadic: -1, Ctx: vf.Pick(t, "context", 0, 0, 1, 2, 2)}
			c.Own = c.Ctx == 2 && vf.Pct(t, "own context", 40)
			for n := vf.U(t, "parameters", 4); n > 0; n-- {
				k := vf.U(t, "kind", len(params))
				c.Params = append(c.Params, k)
				c.Values = append(c.Values, genValue(t, k))
			}
			if vf.Pct(t, "variadic", 25) {
				c.Variadic = vf.U(t, "kind", len(params))
				for n := vf.U(t, "more", 4); n > 0; n-- {
					c.More = append(c.More, genValue(t, c.Variadic))
				}
			}
			for n := vf.U(t, "results", 3); n > 0; n-- {
				c.Outs = append(c.Outs, vf.U(t, "result", len(outs)))
			}
			c.Fails = vf.Pct(t, "fails", 50)
			for n := vf.U(t, "decorators", 3); n > 0; n-- {
				c.Args = append(c.Args, arg{Kind: vf.Pick(t, "decorator", "NodeTimeout", "GracePeriod", "PollProgressAfter", "PollProgressInterval", "Location", "Offset", "Focus", "SpecTimeout"), N: vf.U(t, "n", 3)})
				c.At = append(c.At, vf.U(t, "place", 8))
			}
			if vf.Pct(t, "bad", 5) {
				c.Bad = vf.Range(t, "how", 1, 2)
			}
			return c
		},
		Check: checkCleanup})
}

type ownKey struct{}

func checkCleanup(c cleanupCase) (out vf.Outcome) {
	defer func() {
		if e := recover(); e != nil {
			out = vf.Fail("%+v: panic: %v", c, e)
		}
	}()
	var in, res []reflect.Type
	var given []any // what is passed
	var want []any  // what must arrive
	own := context.WithValue(context.Background(), ownKey{}, 1)
	sc := internal.NewSpecContext(nil)
	switch c.Ctx {
	case 1:
		in = append(in, reflect.TypeOf((*internal.SpecContext)(nil)).Elem())
		want = append(want, sc)
	case 2:
		in = append(in, reflect.TypeOf((*context.Context)(nil)).Elem())
		if c.Own {
			given = append(given, own)
			want = append(want, own)
		} else {
			want = append(want, sc)
		}
	}
	put := func(kind, v int) {
		var x any
		if v > 0 {
			x = params[kind].vs[v-1]
		}
		given = append(given, x)
		if x == nil {
			x = reflect.Zero(params[kind].t).Interface()
		}
		want = append(want, x)
	}
	for i, k := range c.Params {
		in = append(in, params[k].t)
		put(k, c.Values[i])
	}
	if c.Variadic >= 0 {
		in = append(in, reflect.SliceOf(params[c.Variadic].t))
		for _, v := range c.More {
			put(c.Variadic, v)
		}
	}
	results := []reflect.Value{}
	failure := ""
	for i, o := range c.Outs {
		v := reflect.Zero(outs[o])
		if c.Fails {
			switch o {
			case 2:
				v = reflect.ValueOf(fmt.Errorf("failure %d", i))
			case 3:
				v = reflect.ValueOf(&ptrErr{fmt.Sprintf("failure %d", i)})
			case 4:
				v = reflect.ValueOf(valErr(fmt.Sprintf("failure %d", i)))
			}
		}
		res = append(res, outs[o])
		if o == 2 {
			i := reflect.New(errType).Elem()
			if c.Fails {
				i.Set(v)
			}
			v = i
		}
		results = append(results, v)
		failure = ""
		if o >= 2 && c.Fails {
			failure = fmt.Sprintf("failure %d", i)
		}
		if o == 4 && !c.Fails {
			failure = "any"
		}
	}
	var got [][]any
	callback := reflect.MakeFunc(reflect.FuncOf(in, res, c.Variadic >= 0), func(args []reflect.Value) []reflect.Value {
		g := []any{}
		for i, a := range args {
			if c.Variadic >= 0 && i == len(args)-1 {
				for j := 0; j < a.Len(); j++ {
					g = append(g, a.Index(j).Interface())
				}
				break
			}
			g = append(g, a.Interface())
		}
		got = append(got, g)
		return results
	}).Interface()
	all := append([]any{callback}, given...)
	switch c.Bad {
	case 1:
		all = append([]any{"not a function"}, given...)
	case 2:
		all = nil
	}
	for i, d := range c.Args { // decorators may be anywhere
		at := c.At[i] % (len(all) + 1)
		all = append(all[:at:at], append([]any{d}, all[at:]...)...)
	}
	var decs []arg
	for i, a := range all {
		if d, ok := a.(arg); ok {
			decs, all[i] = append(decs, d), d.value(nil)
		}
	}
	type fail struct {
		m  string
		cl types.CodeLocation
	}
	var fails []fail
	n, errs := newCleanup(func(m string, cl types.CodeLocation) { fails = append(fails, fail{m, cl}) }, all...)
	hasCtx := c.Ctx == 1 || c.Ctx == 2 && !c.Own
	// the decorators count as for any other node
	ref := nodeCase{Type: types.NodeTypeCleanupInvalid, Args: append([]arg{{Kind: "Body", N: 0, Text: []string{""}}}, decs...)}
	if hasCtx {
		ref.Args[0].N = 1
	}
	w := expect(ref)
	if c.Bad > 0 {
		if h := headings(errs); len(h) != 1 || !h["DeferCleanup requires a valid function"] || !n.IsZero() {
			return vf.Fail("%+v: rejected with %q", c, keys(h))
		}
		return vf.Outcome{Classes: []string{"no function"}}
	}
	if d := w.judge(errs); d != "" {
		return vf.Fail("%+v: %s", c, d)
	}
	if len(errs) > 0 {
		return vf.Outcome{Classes: []string{"rejected"}, NonTrivial: true}
	}
	if w.location == "" {
		if !strings.HasSuffix(n.CodeLocation.FileName, "cleanup_test.go") {
			return vf.Fail("%+v: the location is %s", c, n.CodeLocation)
		}
	} else if n.CodeLocation.CustomMessage != w.location {
		return vf.Fail("%+v: the location is %s", c, n.CodeLocation)
	}
	w.location = n.CodeLocation.CustomMessage
	if w.location != "" {
		if d := w.fields(n); d != "" {
			return vf.Fail("%+v: %s", c, d)
		}
	}
	if n.HasContext != hasCtx || len(got) > 0 {
		return vf.Fail("%+v: takes a context: %v, called: %v", c, n.HasContext, got)
	}
	n.Body(sc)
	if len(got) != 1 || len(got[0]) != len(want) {
		return vf.Fail("%+v: called with %v, want %v", c, got, want)
	}
	for i, x := range got[0] {
		if reflect.TypeOf(x) != nil && reflect.TypeOf(x).Kind() == reflect.Func {
			if reflect.ValueOf(x).Pointer() != reflect.ValueOf(want[i]).Pointer() {
				return vf.Fail("%+v: called with another function", c)
			}
			continue
		}
		if !reflect.DeepEqual(x, want[i]) {
			return vf.Fail("%+v: called with %v, want %v", c, got, want)
		}
	}
	switch {
	case failure == "" && len(fails) > 0:
		return vf.Fail("%+v: fails with %v", c, fails)
	case failure != "" && (len(fails) != 1 || failure != "any" && !strings.Contains(fails[0].m, failure) || fails[0].cl.String() != n.CodeLocation.String()):
		return vf.Fail("%+v: fails with %v, want %s at %s", c, fails, failure, n.CodeLocation)
	}
	return vf.Outcome{NonTrivial: len(c.Params) > 1 || len(c.Outs) > 0, Classes: []string{"accepted"}}
}

//go:noinline
func newCleanup(fail func(string, types.CodeLocation), args ...any) (internal.Node, []error) {
	return internal.NewCleanupNode(types.NewDeprecationTracker(), fail, args...)
}
