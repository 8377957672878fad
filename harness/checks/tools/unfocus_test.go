package tools

import (
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/unfocus"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

// a piece of a source file, with and without focus
type ucall struct {
	Fn      string
	F       bool // F in front
	Args    []string
	Deco    []int // where Focus stands among the arguments: before argument i
	Odd     int   // how it is written
	Kids    []ucall
	Decoy   string `json:",omitempty"`
	Padding int
}

type ufile struct {
	Path   string
	Import int // 0 dot, 1 plain, 2 alias, 3 dot and alias
	Top    []ucall
	Broken bool `json:",omitempty"`
}

var ufns = []string{"Describe", "Context", "When", "It", "Specify", "DescribeTable", "DescribeTableSubtree", "Entry"}
var uargs = []string{`Label("Focus", "x")`, `Label("FIt(")`, "Serial", "`raw, Focus, `", "func() {}", "1", "x.y", `[]any{1, 2}`}
var decoys = []string{
	"camera.Focus()", "camera.Focus = true", "p := Lens{Focus: 1, Blur: 2}", "_ = p.Focus", "s := \"FIt(Focus, \"", "// FIt(\"x\", Focus, 1)", "/* Focus, */", "helper.FIt(1)", "FItem(1)", "foo(focus, 1)",
	"FDescribed := 1", "var it = FDescribeLater{}", "t.Run(`FIt`, nil)", "m[\"Focus\"] = Lens{}",
}

func genUcall(t *rapid.T, depth int) ucall {
	if vf.Pct(t, "decoy", 20) {
		return ucall{Decoy: vf.Pick(t, "decoy", decoys...)}
	}
	c := ucall{Fn: vf.Pick(t, "fn", ufns...), F: vf.Pct(t, "F", 35), Odd: vf.U(t, "odd", 8), Padding: vf.U(t, "padding", 4)}
	for i := vf.Range(t, "args", 0, 3); i > 0; i-- {
		c.Args = append(c.Args, vf.Pick(t, "arg", uargs...))
	}
	for vf.Pct(t, "focus", 30) {
		c.Deco = append(c.Deco, vf.U(t, "at", len(c.Args)+3)) // before an argument, before or after the function
	}
	sort.Ints(c.Deco)
	if depth > 0 {
		for i := vf.Range(t, "kids", 0, 3); i > 0; i-- {
			c.Kids = append(c.Kids, genUcall(t, depth-1))
		}
	}
	return c
}

func (c ucall) render(imp int, focus bool, ind string) string {
	if c.Decoy != "" {
		return ind + c.Decoy + "\n"
	}
	pre := []string{"", "ginkgo.", "gk.", ""}[imp]
	dec := pre
	if imp == 3 && c.Odd%2 == 1 {
		pre = "gk."
	}
	if imp == 3 && c.Odd >= 4 {
		dec = "gk."
	}
	fn := c.Fn
	if c.F && focus {
		fn = "F" + fn
	}
	body := "func() {\n"
	for _, k := range c.Kids {
		body += k.render(imp, focus, ind+"\t")
	}
	body += ind + "}"
	list := append([]string{}, c.Args...)
	list = append(list, body)
	var args []string
	d := 0
	args = append(args, `"té, Focus"`)
	for i := 0; i <= len(list); i++ {
		for d < len(c.Deco) && (c.Deco[d] == i || i == len(list)) {
			if focus {
				args = append(args, dec+"Focus")
			}
			d++
		}
		if i < len(list) {
			args = append(args, list[i])
		}
	}
	sep, end := ", ", ""
	switch c.Padding {
	case 1:
		sep, end = ",\n\t"+ind, ",\n"+ind
	case 2:
		sep = " , "
	case 3:
		sep, end = ",", " "
	}
	text := pre + fn + "(" + strings.Join(args, sep) + end + ")"
	if c.Odd == 2 {
		inner := ""
		if focus {
			inner = dec + "Focus, "
		}
		text = "opts := []any{" + inner + "1}\n" + ind + text
	}
	return ind + text + "\n"
}

func (f ufile) render(focus bool) string {
	s := "// Focus, FIt(\npackage p_test\n\nimport (\n"
	switch f.Import {
	case 0:
		s += "\t. \"github.com/onsi/ginkgo/v2\"\n"
	case 1:
		s += "\t\"github.com/onsi/ginkgo/v2\"\n"
	case 2:
		s += "\tgk \"github.com/onsi/ginkgo/v2\"\n"
	case 3:
		s += "\t. \"github.com/onsi/ginkgo/v2/dsl/core\"\n\tgk \"github.com/onsi/ginkgo/v2\"\n"
	}
	s += "\t. \"github.com/onsi/gomega\"\n)\n\nfunc init() {\n"
	for _, c := range f.Top {
		s += c.render(f.Import, focus, "\t")
	}
	s += "}\n"
	if f.Broken {
		s += "func {\n"
	}
	return s
}

// tokens are those of the source, without line breaks and commas that change nothing.
func tokens(src string) []string {
	var s scanner.Scanner
	fs := token.NewFileSet()
	s.Init(fs.AddFile("x", -1, len(src)), []byte(src), nil, scanner.ScanComments)
	var out []string
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			return out
		}
		if tok == token.SEMICOLON && lit == "\n" {
			continue
		}
		if tok == token.RPAREN || tok == token.RBRACE {
			if len(out) > 0 && out[len(out)-1] == "," {
				out = out[:len(out)-1]
			}
		}
		if lit == "" || tok == token.SEMICOLON {
			lit = tok.String()
		}
		out = append(out, lit)
	}
}

// leftAlone is true of what is in a vendor directory, or in a hidden one.
func leftAlone(path string) bool {
	dirs := strings.Split(path, "/")
	for _, d := range dirs[:len(dirs)-1] {
		if d == "vendor" || strings.HasPrefix(d, ".") {
			return true
		}
	}
	return false
}

// T02: unfocus removes all programmatic focus and nothing else.
func TestT02_unfocus(t *testing.T) {
	vf.Run(t, vf.Prop[[]ufile]{ID: "T02", Sub: "unfocus", Rule: "a file has focus", Quick: 40000, Thorough: 1000000,
		Gen: func(t *rapid.T) []ufile {
			var out []ufile
			for i := vf.Range(t, "files", 1, 3); i > 0; i-- {
				f := ufile{Path: vf.Pick(t, "path", "a_test.go", "b.go", "sub/a_test.go", "sub/deep/c_test.go", "vendor/a_test.go", "sub/vendor/x.go", ".git/a_test.go", ".cache/a_test.go", "sub/.tmp/x/b.go", ".c.go", "vendors/a_test.go", "sub/a.vendor/b.go", "sub/vendor.go", "_x/a_test.go", "notes.txt", "sub/FIt.go.bak"), Import: vf.U(t, "import", 4), Broken: vf.Pct(t, "broken", 4)}
				for k := vf.Range(t, "top", 0, 3); k > 0; k-- {
					f.Top = append(f.Top, genUcall(t, 2))
				}
				out = append(out, f)
			}
			return out
		},
		Check: func(fs []ufile) vf.Outcome {
			dir := scratch()
			defer os.RemoveAll(dir)
			files := map[string]ufile{}
			for _, f := range fs {
				files[f.Path] = f
				write(filepath.Join(dir, f.Path), f.render(true))
			}
			if e := inside(dir, func() { unfocus.BuildUnfocusCommand().Command(nil, nil) }); e != nil {
				return vf.Fail("unfocus ended with %v", e)
			}
			out := vf.Outcome{}
			n := 0
			err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
				if err != nil || info.IsDir() {
					return err
				}
				rel, _ := filepath.Rel(dir, path)
				f, ok := files[filepath.ToSlash(rel)]
				if !ok {
					return fmt.Errorf("%s is new", rel)
				}
				n++
				data, err := os.ReadFile(path)
				if err != nil {
					return err
				}
				before, after := f.render(true), f.render(false)
				skipped := f.Broken || !strings.HasSuffix(f.Path, ".go") || leftAlone(f.Path)
				if skipped || before == after {
					if string(data) != before {
						return fmt.Errorf("%s was changed to\n%s", rel, data)
					}
					return nil
				}
				out.NonTrivial = true
				got, want := tokens(string(data)), tokens(after)
				for i := 0; i < len(got) || i < len(want); i++ {
					if i >= len(got) || i >= len(want) || got[i] != want[i] {
						return fmt.Errorf("%s: token %d is not as expected: it is now\n%s\nwant\n%s", rel, i, data, after)
					}
				}
				return nil
			})
			if err != nil {
				return vf.Outcome{Err: err}
			}
			if n != len(files) {
				return vf.Fail("%d files, want %d", n, len(files))
			}
			return out
		}})
}
