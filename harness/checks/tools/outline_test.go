package tools

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/labels"
	"github.com/onsi/ginkgo/v2/ginkgo/outline"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

// onode is a node of the source file that is outlined.
type onode struct {
	Kind   string  // C container, S spec, B By, N setup node, D no node
	Fn     string  // without F, P or X
	Pre    string  // F, P, X
	Text   string  // of the first argument, unless it is no literal
	Lit    int     // how it is written
	Deco   []odeco // decorators
	In     int     // what the children are in
	Kids   []onode
	Far    bool // written over several lines
	After  int  `json:",omitempty"` // how many of its decorators are after the body (if there are more)
	Bare   bool `json:",omitempty"` // it has no body
	Scoped bool `json:",omitempty"` // by its qualified name, where there are two
}

type odeco struct {
	Name   string // Focus, Pending, Label, Serial
	Labels []string
	Call   bool `json:",omitempty"`
}

type ocase struct {
	Import int
	Others int
	Top    []onode
}

var setups = []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach"}
var labelPool = []string{"a", "b", " padded ", "two words", "é", "comma,", "slash/", "key: v", "", "a"}

func genOnode(t *rapid.T, depth int, inSpec bool) onode {
	if inSpec {
		n := onode{Kind: "B", Fn: "By", Text: vf.Pick(t, "text", otexts...), Lit: vf.U(t, "lit", 5), In: vf.U(t, "in", 4)}
		if vf.Pct(t, "none", 25) {
			n = onode{Kind: "D", Fn: vf.Pick(t, "decoy", odecoys...)}
		}
		if depth > 0 && vf.Pct(t, "nested", 20) && n.Kind == "B" {
			n.Kids = append(n.Kids, genOnode(t, depth-1, true))
		}
		return n
	}
	n := onode{Kind: vf.Pick(t, "kind", "C", "C", "S", "S", "S", "N", "D"), Text: vf.Pick(t, "text", otexts...), Lit: vf.U(t, "lit", 5), In: vf.U(t, "in", 4), Far: vf.Pct(t, "far", 30), Scoped: vf.Pct(t, "scoped", 50)}
	switch n.Kind {
	case "D":
		return onode{Kind: "D", Fn: vf.Pick(t, "decoy", odecoys...)}
	case "N":
		n.Fn = vf.Pick(t, "fn", setups...)
	case "C":
		n.Fn = vf.Pick(t, "fn", "Describe", "Context", "When", "DescribeTable", "DescribeTableSubtree")
	case "S":
		n.Fn = vf.Pick(t, "fn", "It", "Specify", "Entry")
	}
	if n.Kind == "C" || n.Kind == "S" {
		n.Pre = vf.Pick(t, "pre", "", "", "", "", "F", "F", "P", "X")
		for vf.Pct(t, "deco", 35) {
			d := odeco{Name: vf.Pick(t, "deco", "Focus", "Pending", "Label", "Label", "Serial")}
			if n.Pre != "" && (d.Name == "Focus" || d.Name == "Pending") {
				continue
			}
			if d.Name == "Focus" && n.marked("Pending") || d.Name == "Pending" && n.marked("Focus") { // is an error
				continue
			}
			if d.Name == "Label" {
				for i := vf.Range(t, "labels", 0, 3); i > 0; i-- {
					d.Labels = append(d.Labels, vf.Pick(t, "label", labelPool...))
				}
			}
			n.Deco = append(n.Deco, d)
		}
	}
	n.After = vf.U(t, "after the body", 4)
	if n.Fn == "Entry" || n.Kind == "S" && (n.Pre == "P" || n.Pre == "X" || n.marked("Pending")) { // these need no body
		n.Bare = vf.Pct(t, "no body", 50)
		if n.Bare {
			return n
		}
	}
	k := 0
	switch n.Kind {
	case "C":
		k = vf.Range(t, "kids", 0, 4)
	case "S", "N":
		k = vf.Range(t, "bys", 0, 2)
	}
	for ; k > 0 && depth > 0; k-- {
		n.Kids = append(n.Kids, genOnode(t, depth-1, n.Kind != "C"))
	}
	return n
}

func (n onode) marked(name string) bool {
	for _, d := range n.Deco {
		if d.Name == name {
			return true
		}
	}
	return false
}

var otexts = []string{"plain", "", "with, comma", `with "quotes"`, "é 世界", "two\nlines", "tab\tbed", "FIt(", "`", "  spaces  ", "42"}
var odecoys = []string{"fmt.Println(\"It\")", "helper.It(\"x\", func() {})", "x := Its(1)\n\t_ = x", "// It(\"no\", func() {})", "s.Describe().It(\"x\")", "Expect(1).To(Equal(1))", "_ = \"It()\""}

// row is what the outline is to say of a node.
type row struct {
	Name, Text string
	Start, End int
	Spec       bool
	Focused    bool
	Pending    bool
	Labels     []string
	Nodes      []*row
}

type owriter struct {
	strings.Builder
	imp int
}

func (w *owriter) pre(scoped bool) string {
	switch w.imp {
	case 1:
		return "ginkgo."
	case 2:
		return "gk."
	}
	return ""
}

func literal(text string, lit int) (string, string) {
	switch lit {
	case 1:
		if !strings.Contains(text, "`") {
			return "`" + text + "`", text
		}
	case 2:
		return "name", "undefined"
	case 3:
		return strconv.Quote(text) + " + \"more\"", "undefined"
	case 4:
		if text == "42" {
			return "42", "42"
		}
	}
	return strconv.Quote(text), text
}

func (w *owriter) node(n onode, ind string) *row {
	w.WriteString(ind)
	if n.Kind == "D" {
		w.WriteString(n.Fn + "\n")
		return nil
	}
	r := &row{Name: n.Pre + n.Fn, Start: w.Len()}
	sep := ", "
	if n.Far {
		sep = ",\n" + ind + "\t"
	}
	var args []string
	w.WriteString(w.pre(n.Scoped) + n.Pre + n.Fn + "(")
	if n.Kind != "N" {
		src, text := literal(n.Text, n.Lit)
		args = append(args, src)
		r.Text = text
	}
	r.Spec = n.Kind == "S"
	r.Focused, r.Pending = n.Pre == "F" || n.marked("Focus"), n.Pre == "P" || n.Pre == "X" || n.marked("Pending")
	for _, d := range n.Deco {
		a := w.pre(false) + d.Name
		if d.Name == "Label" {
			var ls []string
			for _, l := range d.Labels {
				ls = append(ls, strconv.Quote(l))
				if x := strings.TrimSpace(l); x != "" && !strings.ContainsAny(x, "&|!,()/") && !strings.HasPrefix(x, ":") {
					r.Labels = append(r.Labels, x)
				}
			}
			a += "(" + strings.Join(ls, ", ") + ")"
		}
		args = append(args, a)
	}
	var after []string
	if k := len(args) - n.After; n.After > 0 && k > 0 && !n.Bare && n.Kind != "N" {
		args, after = args[:k], args[k:]
	}
	w.WriteString(strings.Join(args, sep))
	body := !n.Bare && (len(n.Kids) > 0 || n.Kind != "B")
	if len(args) > 0 && body {
		w.WriteString(sep)
	}
	if body {
		entries := n.Fn == "DescribeTable" || n.Fn == "DescribeTableSubtree"
		w.WriteString("func(")
		if entries {
			w.WriteString("n int")
		}
		w.WriteString(") {\n")
		in, out := "", ""
		switch n.In {
		case 1:
			in, out = ind+"\tfor i := range 3 {\n", ind+"\t}\n"
		case 2:
			in, out = ind+"\tif debug {\n", ind+"\t}\n"
		case 3:
			in, out = ind+"\tf := func() {\n", ind+"\t}\n"+ind+"\tf()\n"
		}
		w.WriteString(in)
		for _, k := range n.Kids {
			if c := w.node(k, ind+"\t"); c != nil {
				r.Nodes = append(r.Nodes, c)
				if k.Kind != "D" {
					w.WriteString("\n")
				}
			}
		}
		w.WriteString(out)
		w.WriteString(ind + "}")
	}
	for _, a := range after {
		w.WriteString(sep + a)
	}
	if n.Far {
		w.WriteString(",\n" + ind)
	}
	w.WriteString(")")
	r.End = w.Len()
	return r
}

// focus applies the documented rules: a node in a pending one is pending; a focused node in which no node is focused
// focuses all in it; else it is not focused.
func (r *row) focus(focused, pending bool) {
	r.Pending = r.Pending || pending
	if r.Pending {
		r.Focused = false
	} else {
		own := r.Focused
		for _, k := range r.Nodes {
			own = own && !k.anyFocus()
		}
		r.Focused = own || focused
	}
	for _, k := range r.Nodes {
		k.focus(r.Focused, r.Pending)
	}
}

func (r *row) anyFocus() bool {
	if r.Pending {
		return false
	}
	if r.Focused {
		return true
	}
	for _, k := range r.Nodes {
		if k.anyFocus() {
			return true
		}
	}
	return false
}

func (c ocase) render() (string, []*row) {
	w := &owriter{imp: c.Import}
	w.WriteString("package p_test\n\nimport (\n")
	imp := []string{`. "github.com/onsi/ginkgo/v2"`, `"github.com/onsi/ginkgo/v2"`, `gk "github.com/onsi/ginkgo/v2"`, `. "github.com/onsi/ginkgo/v2/dsl/core"`}[c.Import]
	other := []string{"", `"fmt"`, `"github.com/onsi/ginkgo/v2/types"`, `. "github.com/onsi/gomega"`}
	if c.Others >= 4 {
		w.WriteString("\t" + imp + "\n\t" + other[c.Others%4] + "\n")
	} else {
		w.WriteString("\t" + other[c.Others] + "\n\n\t" + imp + "\n")
	}
	w.WriteString(")\n\n")
	var rows []*row
	for i, n := range c.Top {
		if n.Kind == "D" {
			continue
		}
		if i%2 == 0 {
			w.WriteString("var _ = ")
			rows = append(rows, w.node(n, ""))
			w.WriteString("\n\n")
		} else {
			w.WriteString("func init() {\n")
			rows = append(rows, w.node(n, "\t"))
			w.WriteString("\n}\n\n")
		}
	}
	for _, r := range rows {
		r.focus(false, false)
	}
	return w.String(), rows
}

func sameRow(path string, got, want *row) error {
	if got.Name != want.Name || got.Text != want.Text || got.Start != want.Start || got.End != want.End || got.Spec != want.Spec || got.Focused != want.Focused || got.Pending != want.Pending || strings.Join(got.Labels, "\x00") != strings.Join(want.Labels, "\x00") {
		g, w := *got, *want
		g.Nodes, w.Nodes = nil, nil
		return fmt.Errorf("%s: %+v, want %+v", path, g, w)
	}
	return sameRows(path+"/"+want.Name+" "+want.Text, got.Nodes, want.Nodes)
}

func sameRows(path string, got, want []*row) error {
	for i := range want {
		if i < len(got) {
			if err := sameRow(fmt.Sprintf("%s[%d]", path, i), got[i], want[i]); err != nil {
				return err
			}
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s has %d nodes, want %d", path, len(got), len(want))
	}
	return nil
}

// T03: the outline lists every container, spec and setup node of a file, as it will be when the suite runs.
func TestT03_outline(t *testing.T) {
	vf.Run(t, vf.Prop[ocase]{ID: "T03", Sub: "outline", Rule: "a container with children, and focus or pending", Quick: 80000, Thorough: 2500000,
		Gen: func(t *rapid.T) ocase {
			c := ocase{Import: vf.U(t, "import", 4), Others: vf.U(t, "others", 8)}
			for i := vf.Range(t, "top", 1, 3); i > 0; i-- {
				c.Top = append(c.Top, genOnode(t, 3, false))
			}
			return c
		},
		Check: func(c ocase) vf.Outcome {
			src, want := c.render()
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, "x_test.go", src, 0)
			if err != nil {
				return vf.Outcome{Err: fmt.Errorf("HARNESS: %v in\n%s", err, src)}
			}
			o, err := outline.FromASTFile(fset, file)
			if err != nil {
				return vf.Fail("%v for\n%s", err, src)
			}
			data, err := json.Marshal(o)
			if err != nil {
				return vf.Outcome{Err: err}
			}
			var got []*row
			if err := json.Unmarshal(data, &got); err != nil {
				return vf.Outcome{Err: err}
			}
			if err := sameRows("", got, want); err != nil {
				return vf.Fail("%v for\n%s", err, src)
			}
			// the other formats list the same, in order of appearance
			out := vf.Outcome{}
			var flat []*row
			var indents []int
			var walk func(rs []*row, depth int)
			walk = func(rs []*row, depth int) {
				for _, r := range rs {
					flat, indents = append(flat, r), append(indents, depth)
					if len(r.Nodes) > 0 && (r.Focused || r.Pending) && depth == 0 {
						out.NonTrivial = true
					}
					walk(r.Nodes, depth+1)
				}
			}
			walk(want, 0)
			text := o.String()
			recs, err := csv.NewReader(strings.NewReader(text)).ReadAll()
			if err != nil {
				return vf.Fail("the CSV outline cannot be read: %v:\n%s", err, text)
			}
			if len(recs) != len(flat)+1 {
				return vf.Fail("the CSV outline has %d lines, want %d", len(recs), len(flat)+1)
			}
			for i, r := range flat {
				w := []string{r.Name, r.Text, strconv.Itoa(r.Start), strconv.Itoa(r.End), strconv.FormatBool(r.Spec), strconv.FormatBool(r.Focused), strconv.FormatBool(r.Pending), strings.Join(r.Labels, ", ")}
				g := recs[i+1]
				for k := range w {
					if strings.ReplaceAll(g[k], "\r", "") != w[k] {
						return vf.Fail("line %d of the CSV outline is %q, want %q", i+1, g, w)
					}
				}
			}
			lines := strings.Split(o.StringIndent(2), "\n")
			plain := strings.Split(text, "\n")
			if len(lines) != len(plain) {
				return vf.Fail("the indented outline has %d lines, want %d", len(lines), len(plain))
			}
			k := 0
			for i, l := range lines {
				if i == 0 || plain[i] == "" {
					continue
				}
				n := len(l) - len(plain[i])
				if n < 0 || strings.Repeat(" ", n)+plain[i] != l {
					return vf.Fail("line %d of the indented outline is %q, want some indentation and %q", i, l, plain[i])
				}
				if k < len(flat) && strings.HasPrefix(plain[i], flat[k].Name+",") {
					if n != 2*indents[k] {
						return vf.Fail("line %d of the indented outline is indented by %d, want %d", i, n, 2*indents[k])
					}
					k++
				}
			}
			return out
		}})
}

// T03: the labels command lists every label once, sorted.
type lfile struct {
	Calls    [][]string
	Odd      []int
	Internal bool // belongs to the package, not to its external test package
}

func TestT03_labels(t *testing.T) {
	vf.Run(t, vf.Prop[[]lfile]{ID: "T03", Sub: "labels", Rule: "a label is used twice", Quick: 16000, Thorough: 400000,
		Gen: func(t *rapid.T) []lfile {
			var out []lfile
			for i := vf.Range(t, "files", 1, 3); i > 0; i-- {
				f := lfile{Internal: vf.Pct(t, "internal", 30)}
				for k := vf.Range(t, "calls", 0, 4); k > 0; k-- {
					var ls []string
					for j := vf.Range(t, "labels", 0, 3); j > 0; j-- {
						ls = append(ls, vf.Pick(t, "label", labelPool...))
					}
					f.Calls, f.Odd = append(f.Calls, ls), append(f.Odd, vf.U(t, "odd", 6))
				}
				out = append(out, f)
			}
			return out
		},
		Check: func(fs []lfile) vf.Outcome {
			dir := scratch()
			defer os.RemoveAll(dir)
			count := map[string]int{}
			for i, f := range fs {
				pkg := "p_test"
				if f.Internal {
					pkg = "p"
				}
				src := "package " + pkg + "\n\nimport . \"github.com/onsi/ginkgo/v2\"\n\nfunc f() {\n"
				for k, ls := range f.Calls {
					var qs []string
					for _, l := range ls {
						q := strconv.Quote(l)
						if f.Odd[k] == 1 {
							q = "`" + l + "`"
						}
						qs = append(qs, q)
						if x := strings.TrimSpace(l); x != "" && !strings.ContainsAny(x, "&|!,()/") && f.Odd[k] != 5 {
							count[x]++
						}
					}
					switch fn := "Label(" + strings.Join(qs, ", ") + ")"; f.Odd[k] {
					case 2:
						src += "\tx := ginkgo." + fn + "\n"
					case 3:
						src += "\tDescribe(\"Label\", Serial, " + fn + ", func() {})\n"
					case 4:
						src += "\treturn []any{" + fn + ", name}\n"
					case 5:
						src += "\tLabels(" + strings.Join(qs, ", ") + ") // Label(\"q\")\n"
					default:
						src += "\tIt(\"x\", func() { f() }, " + fn + ")\n"
					}
				}
				write(filepath.Join(dir, "p", fmt.Sprintf("f%d_test.go", i)), src+"}\n")
			}
			out := vf.Outcome{}
			var want []string
			for l, n := range count {
				want = append(want, strconv.Quote(l))
				out.NonTrivial = out.NonTrivial || n > 1
			}
			sort.Strings(want)
			text := "p: [" + strings.Join(want, ", ") + "]\n"
			if len(want) == 0 {
				text = "p: No labels found\n"
			}
			var got string
			if e := inside(dir, func() {
				f, err := os.Create("out")
				if err != nil {
					panic(err)
				}
				defer f.Close()
				os.Stdout = f
				labels.BuildLabelsCommand().Command([]string{"p"}, nil)
				data, _ := os.ReadFile("out")
				got = string(data)
			}); e != nil {
				return vf.Fail("labels ended with %v", e)
			}
			if got != text {
				return vf.Fail("printed %q, want %q", got, text)
			}
			return out
		}})
}
