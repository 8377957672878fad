package engine

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/lf"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// fileFilter is a location filter as data.
type fileFilter struct {
	Re    string
	Lines [][2]int `json:",omitempty"` // [from, to); to == 0: the single line
}

func (f fileFilter) String() string {
	ls := []string{}
	for _, l := range f.Lines {
		if l[1] == 0 {
			ls = append(ls, fmt.Sprint(l[0]))
		} else {
			ls = append(ls, fmt.Sprintf("%d-%d", l[0], l[1]))
		}
	}
	if len(ls) == 0 {
		return f.Re
	}
	return f.Re + ":" + strings.Join(ls, ",")
}

func (f fileFilter) matches(file string, line int) bool {
	if !regexp.MustCompile(f.Re).MatchString(file) {
		return false
	}
	for _, l := range f.Lines {
		if line == l[0] && l[1] == 0 || l[0] <= line && line < l[1] {
			return true
		}
	}
	return len(f.Lines) == 0
}

type selCase struct {
	P                     *P
	Expr                  *lf.Expr `json:",omitempty"`
	FocusFiles, SkipFiles []fileFilter
}

var files = []string{"/prog/a_test.go", "/prog/b_test.go", "/prog/sub/a_test.go", "/prog/sub/extra.go"}
var words = []string{"dogs", "cats", "fish", "likes dogs", "purple", "x.y", "-", "Dogs", "FISH", "CATS\ndogs"}

func genFiles(t *rapid.T, n int, maxLine int) []fileFilter {
	out := []fileFilter{}
	for i := 0; i < n; i++ {
		f := fileFilter{Re: vf.Pick(t, "re", "a_test", "/sub/", "b_test\\.go$", "go", "extra|b_", "nothing")}
		for j := vf.U(t, "lines", 4); j > 0; j-- {
			l := vf.Range(t, "line", 1, maxLine)
			if vf.Pct(t, "range", 60) {
				f.Lines = append(f.Lines, [2]int{l, l + vf.U(t, "len", 12)})
			} else {
				f.Lines = append(f.Lines, [2]int{l, 0})
			}
		}
		out = append(out, f)
	}
	return out
}

// decorate gives nodes of the program texts, files and labels of their own.
func decorate(t *rapid.T, p *P) (last int) {
	dup := map[string]bool{}
	p.Walk(func(n *prog.Node, path []*prog.Node) {
		if n.ID > last {
			last = n.ID
		}
		if vf.Pct(t, "file", 50) {
			n.File = vf.Pick(t, "filename", files...)
		}
		if n.Kind != "C" && n.Kind != "It" {
			return
		}
		if vf.Pct(t, "text", 50) {
			n.Text = vf.Pick(t, "word", words...)
			if n.Text == "-" && n.Kind == "It" && vf.Pct(t, "keep", 50) {
				n.Text = "fish"
			}
		}
		for vf.Pct(t, "labelled", 40) {
			n.Dec.Labels = append(n.Dec.Labels, vf.Pick(t, "label", lf.LabelPool...))
		}
		_ = dup
	})
	return last
}

var selProfile = prog.Profile{MaxTop: 5, MaxKids: 4, MaxDepth: 3, MaxSpecs: 10, Ordered: 15, CoF: 25, AllNodes: 30, Setup: 25, Report: 10, Suite: 15, Focus: 0, Pending: 8, Serial: 8, Flags: 15, Bad: 6, Skips: 1, Panics: 1, Cleanup: 10}

func genSel(t *rapid.T) *selCase {
	pf := selProfile
	if vf.Pct(t, "focussed", 35) {
		pf.Focus = 25
	}
	c := &selCase{P: prog.Gen(t, pf)}
	last := decorate(t, c.P)
	if vf.Pct(t, "desc", 30) {
		c.P.Conf.Desc = vf.Pick(t, "desctext", "My Suite", "about dogs")
	}
	for vf.Pct(t, "suitelabel", 20) {
		c.P.Conf.SuiteLabels = append(c.P.Conf.SuiteLabels, vf.Pick(t, "slabel", lf.LabelPool...))
	}
	if vf.Pct(t, "uselabels", 45) {
		c.Expr = lf.Gen(t, vf.U(t, "depth", 4))
		c.P.Conf.LabelFilter = lf.Join(t, lf.Render(t, c.Expr))
	}
	if vf.Pct(t, "usefiles", 35) {
		c.FocusFiles = genFiles(t, 1+vf.U(t, "ff", 2), last)
	}
	if vf.Pct(t, "useskipfiles", 25) {
		c.SkipFiles = genFiles(t, 1+vf.U(t, "sf", 2), last)
	}
	pats := []string{"dogs", "cats", "fish$", "^Suite", "likes dogs", "s[0-9]", "c\\d+ ", "x\\.y", "purple|cats", "about", "(?i)DOGS", "(?i)X", "cats.dogs|(?i)x", "(?i:CATS)", "(?s)s.l", "(?P<a>fish)", "(?P<a>cats)$"}
	if vf.Pct(t, "usefocus", 35) {
		for i := 1 + vf.U(t, "fs", 2); i > 0; i-- {
			c.P.Conf.Focus = append(c.P.Conf.Focus, vf.Pick(t, "focus", pats...))
		}
	}
	if vf.Pct(t, "useskip", 25) {
		for i := 1 + vf.U(t, "ss", 2); i > 0; i-- {
			c.P.Conf.Skip = append(c.P.Conf.Skip, vf.Pick(t, "skip", pats...))
		}
	}
	for _, f := range c.FocusFiles {
		c.P.Conf.FocusFiles = append(c.P.Conf.FocusFiles, f.String())
	}
	for _, f := range c.SkipFiles {
		c.P.Conf.SkipFiles = append(c.P.Conf.SkipFiles, f.String())
	}
	return c
}

func (c *selCase) filters() (specs []*prog.Spec, hasFocus bool) {
	labelOK := func(labels []string) bool { return c.Expr == nil || c.Expr.Eval(labels) }
	fileOK := func(which []string, s *prog.Spec) bool {
		fs := c.FocusFiles
		if len(which) > 0 && len(c.P.Conf.SkipFiles) > 0 && &which[0] == &c.P.Conf.SkipFiles[0] {
			fs = c.SkipFiles
		}
		nodes := append(append([]*prog.Node{}, s.Path...), s.It)
		for _, ns := range s.Level {
			nodes = append(nodes, ns...)
		}
		for _, f := range fs {
			for _, n := range nodes {
				if f.matches(n.FileName(), n.LineNumber()) {
					return true
				}
			}
		}
		return false
	}
	return prog.ModelFilters(c.P, labelOK, fileOK)
}

// S01: which specs run.
func TestS01_filters(t *testing.T) {
	vf.Run(t, vf.Prop[*selCase]{ID: "S01", Sub: "filters", Rule: "filters or focus exclude some specs and select others", Quick: 40000, Thorough: 1200000,
		Gen: genSel,
		Check: func(c *selCase) vf.Outcome {
			specs, hasFocus := c.filters()
			res, exp, err := prog.CheckWith(c.P, specs, hasFocus, prog.AllAspects)
			out := vf.Outcome{Err: err}
			if exp != nil {
				out.Known = exp.Known
			}
			_ = res
			run, skip, pend := 0, 0, 0
			for _, s := range specs {
				switch {
				case s.Pending():
					pend++
				case s.Skip:
					skip++
				default:
					run++
				}
			}
			out.NonTrivial = run > 0 && skip > 0
			for k, on := range map[string]bool{"focus": hasFocus, "labels": c.Expr != nil, "focus-file": len(c.FocusFiles) > 0, "skip-file": len(c.SkipFiles) > 0, "focus-text": len(c.P.Conf.Focus) > 0, "skip-text": len(c.P.Conf.Skip) > 0, "pending": pend > 0} {
				if on {
					out.Classes = append(out.Classes, k)
				}
			}
			sort.Strings(out.Classes)
			return out
		}})
}

// S01: programmatic focus on its own, densely.
func TestS01_focus(t *testing.T) {
	p := prog.Profile{MaxTop: 4, MaxKids: 4, MaxDepth: 4, MaxSpecs: 10, Ordered: 5, Focus: 25, Pending: 12, Setup: 5, Suite: 10, Bad: 3, DryRun: 5}
	serial(t, "S01", "focus", "focus excludes some specs and selects others", 20000, 600000, p, prog.Aspect{Trace: true, Success: true}, func(s stats) (bool, []string) {
		specs, hasFocus := prog.ModelFilters(s.p, nil, nil)
		run, skip := 0, 0
		for _, sp := range specs {
			if sp.Skip {
				skip++
			} else {
				run++
			}
		}
		return hasFocus && run > 0 && skip > 0, nil
	})
}

// S02: the label-filter language against an independent evaluator.
type lfCase struct {
	Expr   *lf.Expr
	Text   string
	Labels [][]string
}

func TestS02_language(t *testing.T) {
	vf.Run(t, vf.Prop[*lfCase]{ID: "S02", Sub: "language", Rule: "at least two operators, and the filter selects some label sets and not others", Quick: 60000, Thorough: 2000000,
		Gen: func(t *rapid.T) *lfCase {
			c := &lfCase{Expr: lf.Gen(t, 1+vf.U(t, "depth", 4))}
			c.Text = lf.Join(t, lf.Render(t, c.Expr))
			for i := 0; i < 6; i++ {
				ls := []string{}
				for j := vf.U(t, "nlabels", 5); j > 0; j-- {
					ls = append(ls, vf.Pick(t, "label", lf.LabelPool...))
				}
				c.Labels = append(c.Labels, ls)
			}
			return c
		},
		Check: func(c *lfCase) vf.Outcome {
			f, err := types.ParseLabelFilter(c.Text)
			if err != nil {
				return vf.Fail("the filter %q is well-formed, but is rejected: %s", c.Text, err)
			}
			yes, no := false, false
			for _, ls := range c.Labels {
				got, want := f(ls), c.Expr.Eval(ls)
				if got != want {
					return vf.Fail("filter %q on labels %q: got %v, expected %v", c.Text, ls, got, want)
				}
				if viaDSL := ginkgo.Label(ls...).MatchesLabelFilter(c.Text); viaDSL != want {
					return vf.Fail("Label(%q).MatchesLabelFilter(%q) is %v, expected %v", ls, c.Text, viaDSL, want)
				}
				yes, no = yes || want, no || !want
			}
			return vf.Outcome{NonTrivial: c.Expr.Size() >= 2 && yes && no, Evals: len(c.Labels)}
		}})
}

type badCase struct {
	How, Text string
}

// S02: what is malformed is rejected with an error.
func TestS02_malformed(t *testing.T) {
	vf.Run(t, vf.Prop[*badCase]{ID: "S02", Sub: "malformed", Rule: "every case (malformed by construction)", Quick: 20000, Thorough: 500000,
		Gen: func(t *rapid.T) *badCase {
			toks := lf.Render(t, lf.Gen(t, 1+vf.U(t, "depth", 3)))
			ops := []int{}
			for i, k := range toks {
				if k.Operand {
					ops = append(ops, i)
				}
			}
			at := ops[vf.U(t, "at", len(ops))]
			ins := func(i int, s ...string) []lf.Tok {
				out := append([]lf.Tok{}, toks[:i]...)
				for _, x := range s {
					out = append(out, lf.Tok{S: x})
				}
				return append(out, toks[i:]...)
			}
			c := &badCase{How: vf.Pick(t, "how", "open", "close", "empty", "operand", "adjacent", "double", "lead", "trail", "single", "regex", "setop", "argument")}
			switch c.How {
			case "open":
				toks = ins(at, "(")
			case "close":
				toks = ins(at+1, ")")
			case "empty":
				toks[at].S = "( )"
			case "operand":
				toks = append(append([]lf.Tok{}, toks[:at]...), toks[at+1:]...)
				if len(toks) == 0 {
					toks = []lf.Tok{{S: "!"}}
				}
			case "adjacent":
				toks = ins(at, "/re/", "/other/", "&&")
			case "double":
				toks = ins(at, "a", "&&", "||")
			case "lead":
				toks = ins(0, vf.Pick(t, "op", "&&", "||", ","))
			case "trail":
				toks = append(toks, lf.Tok{S: vf.Pick(t, "op", "&&", "||", ",", "!")})
			case "single":
				toks = ins(at, "a", vf.Pick(t, "op", "& ", "| "))
			case "regex":
				toks[at].S = "/[a/"
			case "setop":
				toks[at].S = "api: " + vf.Pick(t, "op", "is", "contains", "one", "containsEach x")
			case "argument":
				toks[at].S = "api: " + vf.Pick(t, "op", "containsAny {one", "containsAll {}", "consistsOf {one,}", "isEmpty one ", "isSubsetOf /re/", "containsAny {a(b}")
				toks = toks[:at+1]
			}
			c.Text = lf.Join(t, toks)
			return c
		},
		Check: func(c *badCase) vf.Outcome {
			if _, err := types.ParseLabelFilter(c.Text); err == nil {
				return vf.Fail("the malformed filter %q (%s) is accepted", c.Text, c.How)
			}
			return vf.Outcome{NonTrivial: true, Classes: []string{c.How}}
		}})
}

type rawCase struct {
	Text   string
	Labels []string
}

// S02: any text is handled, and accepted text composes.
func TestS02_anytext(t *testing.T) {
	vf.Run(t, vf.Prop[*rawCase]{ID: "S02", Sub: "anytext", Rule: "the text is accepted and has an operator", Quick: 60000, Thorough: 2000000,
		Gen: func(t *rapid.T) *rawCase {
			c := &rawCase{}
			n := vf.Range(t, "n", 1, 9)
			for i := 0; i < n; i++ {
				c.Text += vf.Pick(t, "tok", "a", "b", "(", ")", "!", "&&", "||", ",", " ", "slow", "/a/", "/", "api: ", "isEmpty ", "containsAny ", "{one}", "{one, two}", "containsAll", "consistsOf ", "one", ":", "api:one", "&", "|", "{", "}", "é", "\t", "isSubsetOf two", "/[/", "\xff")
			}
			for j := vf.U(t, "nlabels", 5); j > 0; j-- {
				c.Labels = append(c.Labels, vf.Pick(t, "label", lf.LabelPool...))
			}
			return c
		},
		Check: func(c *rawCase) vf.Outcome {
			f, err := types.ParseLabelFilter(c.Text)
			g, err2 := types.ParseLabelFilter(c.Text)
			if (err == nil) != (err2 == nil) {
				return vf.Fail("%q is accepted once and rejected once", c.Text)
			}
			if err != nil {
				return vf.Outcome{Classes: []string{"rejected"}}
			}
			v := f(c.Labels)
			if g(c.Labels) != v || f(c.Labels) != v {
				return vf.Fail("%q gives different answers on %q", c.Text, c.Labels)
			}
			out := vf.Outcome{Classes: []string{"accepted"}, NonTrivial: strings.ContainsAny(c.Text, "&|,!")}
			if strings.Count(c.Text, "/")%2 != 0 || strings.TrimSpace(c.Text) == "" {
				return out
			}
			for text, want := range map[string]bool{"!(" + c.Text + ")": !v, "(" + c.Text + ") && a": v && has(c.Labels, "a"), "b || (" + c.Text + ")": v || has(c.Labels, "b"), "((" + c.Text + "))": v} {
				h, err := types.ParseLabelFilter(text)
				if err != nil {
					return vf.Fail("%q is accepted, but %q is not: %s", c.Text, text, err)
				}
				if h(c.Labels) != want {
					return vf.Fail("%q on %q is %v, but %q is %v", c.Text, c.Labels, v, text, h(c.Labels))
				}
			}
			return out
		}})
}

func has(ls []string, s string) bool {
	for _, l := range ls {
		if l == s {
			return true
		}
	}
	return false
}

type labelCase struct{ Label string }

// S02: which labels are accepted; an accepted one selects itself.
func TestS02_labels(t *testing.T) {
	vf.Run(t, vf.Prop[*labelCase]{ID: "S02", Sub: "labels", Rule: "the label is accepted", Quick: 20000, Thorough: 300000,
		Gen: func(t *rapid.T) *labelCase {
			c := &labelCase{}
			for i := vf.U(t, "n", 6); i > 0; i-- {
				c.Label += vf.Pick(t, "c", "a", "B", " ", "k:v", ":", "é", "1", "-", "{", "}", "&", "|", "!", ",", "(", ")", "/", "a", "x y", "\t")
			}
			return c
		},
		Check: func(c *labelCase) vf.Outcome {
			l := strings.TrimSpace(c.Label)
			wantOK := l != "" && !strings.ContainsAny(l, "&|!,()/") && !strings.HasPrefix(l, ":")
			if i := strings.IndexByte(l, ':'); i >= 0 && i == len(l)-1 {
				wantOK = false
			}
			p := &P{Top: []*prog.Node{{Kind: "It", ID: 1, Dec: prog.Dec{Labels: []string{c.Label}}}}}
			_, errs := internal.NewNode(types.NewDeprecationTracker(), types.NodeTypeIt, "text", ginkgo.Label(c.Label), func() {})
			if wantOK != (len(errs) == 0) {
				return vf.Fail("label %q: accepted=%v (%v), expected %v", c.Label, len(errs) == 0, errs, wantOK)
			}
			if !wantOK {
				return vf.Outcome{Classes: []string{"rejected"}}
			}
			res := prog.RunSerial(p)
			if got := res.Reports[0].LeafNodeLabels; len(got) != 1 || got[0] != l {
				return vf.Fail("label %q is reported as %q", c.Label, got)
			}
			out := vf.Outcome{NonTrivial: true, Classes: []string{"accepted"}}
			if strings.Contains(l, ": ") || strings.Contains(l, " :") || strings.Contains(l, "\t") {
				return out
			}
			for _, text := range []string{l, " " + strings.ToUpper(l) + " ", "(" + l + ")", "zzz || " + l} {
				p.Conf.LabelFilter = text
				if r := prog.RunSerial(p); r.Reports[0].State != types.SpecStatePassed {
					return vf.Fail("a spec labelled %q is not selected by the filter %q", c.Label, text)
				}
			}
			return out
		}})
}
