// Package lf is an independent evaluator of the label-filter language: expressions are data, rendered to the
// concrete syntax for Ginkgo and evaluated here from their tree.
package lf

import (
	"regexp"
	"slices"
	"strings"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

// Expr is an expression: Op is and, or, not, label, re, or one of the set operations.
type Expr struct {
	Op   string
	L, R *Expr    `json:",omitempty"`
	Val  string   `json:",omitempty"`
	Key  string   `json:",omitempty"`
	Vals []string `json:",omitempty"`
}

var SetOps = []string{"isEmpty", "containsAny", "containsAll", "consistsOf", "isSubsetOf"}

func low(s string) string { return strings.ToLower(strings.TrimSpace(s)) }

// Eval says whether a spec with these labels is selected.
func (e *Expr) Eval(labels []string) bool {
	switch e.Op {
	case "and":
		l, r := e.L.Eval(labels), e.R.Eval(labels)
		return l && r
	case "or":
		l, r := e.L.Eval(labels), e.R.Eval(labels)
		return l || r
	case "not":
		return !e.L.Eval(labels)
	case "label":
		for _, l := range labels {
			if low(l) == low(e.Val) {
				return true
			}
		}
		return false
	case "re":
		re := regexp.MustCompile(e.Val)
		for _, l := range labels {
			if re.MatchString(l) {
				return true
			}
		}
		return false
	}
	have := map[string]bool{}
	for _, l := range labels {
		if i := strings.IndexByte(l, ':'); i >= 0 && low(l[:i]) == low(e.Key) {
			have[low(l[i+1:])] = true
		}
	}
	want := map[string]bool{}
	for _, v := range e.Vals {
		want[low(v)] = true
	}
	common := 0
	for v := range want {
		if have[v] {
			common++
		}
	}
	switch e.Op {
	case "isEmpty":
		return len(have) == 0
	case "containsAny":
		return common > 0
	case "containsAll":
		return common == len(want)
	case "consistsOf":
		return common == len(want) && common == len(have)
	case "isSubsetOf":
		return common == len(have)
	}
	panic("unknown operation " + e.Op)
}

// LabelPool are labels nodes carry.
var LabelPool = []string{"a", "b", "slow", "Fast", "lib one", "x-y_z.1", "Ünï", "api:one", "API:two", "api:Three", "ready:beta", "Ready: rc", "integration", "api : Four", "api:one:two", "ready:v1.2:rc:x", "api:x=y"}

func recase(t *rapid.T, s string) string {
	switch vf.U(t, "case", 4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

// Gen draws an expression.
func Gen(t *rapid.T, depth int) *Expr {
	if depth > 0 {
		switch vf.U(t, "op", 6) {
		case 0, 1:
			return &Expr{Op: "and", L: Gen(t, depth-1), R: Gen(t, depth-1)}
		case 2, 3:
			return &Expr{Op: "or", L: Gen(t, depth-1), R: Gen(t, depth-1)}
		case 4:
			return &Expr{Op: "not", L: Gen(t, depth-1)}
		}
	}
	switch vf.U(t, "leaf", 6) {
	case 0:
		return &Expr{Op: "re", Val: vf.Pick(t, "re", "a", "^a", "b|slow", "lib.*", "^api:", "One$", "[ab]+", "(?i)FAST", "\\d", "nothing", "o{2}", " ")}
	case 1, 2:
		e := &Expr{Op: vf.Pick(t, "setop", SetOps...), Key: recase(t, vf.Pick(t, "key", "api", "ready", "none", "lib one"))}
		if e.Op != "isEmpty" {
			n := 1 + vf.U(t, "vals", 3)
			for i := 0; i < n; i++ {
				e.Vals = append(e.Vals, recase(t, vf.Pick(t, "val", "one", "two", "three", "four", "beta", "rc", "x y", "one:two", "v1.2:rc:x", "v1.2", "x=y")))
			}
		}
		return e
	}
	return &Expr{Op: "label", Val: recase(t, vf.Pick(t, "label", append([]string{"nothing"}, without(LabelPool, "Ready: rc", "api : Four")...)...))}
}

func without(xs []string, no ...string) []string {
	out := []string{}
	for _, x := range xs {
		if !slices.Contains(no, x) {
			out = append(out, x)
		}
	}
	return out
}

func prec(e *Expr) int {
	switch e.Op {
	case "or":
		return 1
	case "and":
		return 2
	case "not":
		return 3
	}
	return 4
}

// Tok is a token of a rendering; operands are marked so that malformed variants can be made.
type Tok struct {
	S       string
	Operand bool
}

// Render draws a concrete form: parentheses where needed and sometimes where not, either spelling of OR.
func Render(t *rapid.T, e *Expr) []Tok {
	var rec func(e *Expr, need int) []Tok
	rec = func(e *Expr, need int) []Tok {
		out := []Tok{}
		paren := prec(e) < need || vf.Pct(t, "paren", 12)
		if paren {
			out = append(out, Tok{S: "("})
		}
		switch e.Op {
		case "and":
			out = append(out, rec(e.L, 2)...)
			out = append(out, Tok{S: "&&"})
			out = append(out, rec(e.R, 3)...) // a && (b && c) keeps its parentheses
		case "or":
			out = append(out, rec(e.L, 1)...)
			out = append(out, Tok{S: vf.Pick(t, "or", "||", ",")})
			out = append(out, rec(e.R, 2)...)
		case "not":
			out = append(out, Tok{S: "!"})
			out = append(out, rec(e.L, 3)...)
		case "label":
			out = append(out, Tok{e.Val, true})
		case "re":
			out = append(out, Tok{"/" + e.Val + "/", true})
		default:
			s := e.Key + ": " + e.Op
			if e.Op != "isEmpty" {
				if len(e.Vals) == 1 && vf.Pct(t, "bare", 50) {
					s += " " + e.Vals[0]
				} else {
					s += vf.Pick(t, "open", " {", " { ") + strings.Join(e.Vals, vf.Pick(t, "sep", ", ", ",", " , ")) + vf.Pick(t, "close", "}", " }")
				}
			}
			out = append(out, Tok{s, true})
		}
		if paren {
			out = append(out, Tok{S: ")"})
		}
		return out
	}
	return rec(e, 0)
}

// Join writes the tokens with varying space. Operands keep a space after a set operation.
func Join(t *rapid.T, toks []Tok) string {
	var b strings.Builder
	for _, tok := range toks {
		b.WriteString(vf.Pick(t, "ws", "", "", " ", "  "))
		b.WriteString(tok.S)
		if strings.HasSuffix(tok.S, "isEmpty") { // the operation's name ends at a space
			b.WriteString(" ")
		}
	}
	b.WriteString(vf.Pick(t, "ws", "", " "))
	return b.String()
}

// Size counts operators.
func (e *Expr) Size() int {
	if e == nil {
		return 0
	}
	n := e.L.Size() + e.R.Size()
	if e.L != nil {
		n++
	}
	return n
}
