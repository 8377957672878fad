package tools

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"unicode"

	"github.com/onsi/ginkgo/v2/ginkgo/command"
	"github.com/onsi/ginkgo/v2/ginkgo/generators"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

type genCase struct {
	Module   string // "": no go.mod
	GoMod    int    // how go.mod is written
	Dirs     []string
	Existing []int // what is in the directory already
	Nodot    bool
	Internal bool
	Agouti   bool
	Tags     string
	Template int // 0 none, 1 fields, 2 with data, 3 does not parse, 4 missing key, 5 data is no JSON
	Subjects []string
	Again    bool
}

var dirNames = []string{"foo", "foo-bar", "foo_bar", "foo.bar", "v2", "2fast", "type", "func", "src", "FooBar", "my app", "c++", "x~y", "a", "b", "foo-bar.v3", "world9", "main", "go", "test", "interface"}
var subjectNames = []string{"foo", "foo.go", "foo_test.go", "foo_test", "foo-bar", "foo bar.go", "my_test_utils", "my_test_utils.go", "x.gopher", "x.gopher.go", "v1.go.bak", "Foo_Bar-baz", "contest.go", "a_test_b_test.go", "godoc", "7up"}

func genGenCase(t *rapid.T) genCase {
	c := genCase{Nodot: vf.Pct(t, "nodot", 30), Internal: vf.Pct(t, "internal", 40), Agouti: vf.Pct(t, "agouti", 15), Again: vf.Pct(t, "again", 15)}
	if vf.Pct(t, "module", 85) {
		c.Module = vf.Pick(t, "path", "example.com/m", "m", "github.com/someone/some-thing/v3", "foo/src/foo", "example.com/"+strings.Repeat("long/", 30)+"path")
		c.GoMod = vf.U(t, "gomod", 8)
	}
	for i := vf.Range(t, "dirs", 1, 4); i > 0; i-- {
		d := vf.Pick(t, "dir", dirNames...)
		if n := len(c.Dirs); n > 0 && d == "src" && c.Dirs[n-1] == "src" {
			d = "foo" // which of them is that of a GOPATH is anyone's guess
		}
		c.Dirs = append(c.Dirs, d)
	}
	if vf.Pct(t, "existing", 50) {
		for i := vf.Range(t, "files", 1, 3); i > 0; i-- {
			c.Existing = append(c.Existing, vf.U(t, "file", 6))
		}
	}
	if vf.Pct(t, "tags", 30) {
		c.Tags = vf.Pick(t, "tags", "e2e", "e2e && !unit", "linux || darwin")
	}
	if vf.Pct(t, "template", 30) {
		c.Template = vf.Range(t, "which", 1, 5)
	}
	for i := vf.U(t, "subjects", 4); i > 0; i-- {
		c.Subjects = append(c.Subjects, vf.Pick(t, "subject", subjectNames...))
	}
	if strings.Contains(strings.Join(c.Dirs, "/"), " ") && len(c.Subjects) > 1 {
		c.Subjects = c.Subjects[:1] // Go has no import path for it, and cannot say what the package is once a file imports it
	}
	return c
}

// lay makes the module and the directory, and says where it is, what its import path is, and which package is there already.
func (c genCase) lay(top string) (dir, importPath, pkg string) {
	root := filepath.Join(top, "src", "here")
	dir = filepath.Join(append([]string{root}, c.Dirs...)...)
	os.MkdirAll(dir, 0o777)
	slash := strings.Join(c.Dirs, "/")
	if c.Module == "" {
		all := append([]string{"here"}, c.Dirs...)
		importPath = strings.Join(all, "/")
		for i, d := range all { // what comes after the last src, as in a GOPATH
			if d == "src" && i > 0 && i < len(all)-1 {
				importPath = strings.Join(all[i+1:], "/")
			}
		}
	} else {
		importPath = c.Module + "/" + slash
		text := map[int]string{
			0: "module %s\n\ngo 1.22\n",
			1: "module %s",
			2: "module \"%s\"\n",
			3: "module %s // module x\n",
			4: "// module y\n//\n\n\tmodule   %s\t\r\ngo 1.22\n",
			5: "// " + strings.Repeat("a long header ", 20) + "\nmodule %s\n\nrequire x.y/z v1.0.0\n",
			6: "go 1.22\n\nrequire x.y/module v1.0.0\n\nmodule `%s`\n",
			7: "\n\n// Deprecated: use\n// modules instead.\nmodule %s\n",
		}[c.GoMod]
		write(filepath.Join(root, "go.mod"), fmt.Sprintf(text, c.Module))
	}
	for i, k := range c.Existing {
		f := filepath.Join(dir, fmt.Sprintf("have%d", i))
		switch k {
		case 0:
			write(f+".go", "// Package real is there.\npackage real\n")
			pkg = "real"
		case 1:
			write(f+"_test.go", "package real_test\n")
			pkg = "real"
		case 2:
			write(f+"_test.go", "package real\n")
			pkg = "real"
		case 3:
			write(f+".go", "//go:build ignore\n\npackage main\n")
		case 4:
			write(f+".txt", "package nothing\n")
		case 5:
			write(filepath.Join(dir, "_have.go"), "package hidden\n")
		}
	}
	return dir, importPath, pkg
}

func identWords(s string) string { // the words of a name, run together
	out, up := "", true
	for _, r := range s {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			up = true
			continue
		}
		if up {
			r = unicode.ToUpper(r)
		}
		up = false
		out += string(r)
	}
	return out
}

func legalIdent(s string) bool { return token.IsIdentifier(s) && s != "_" }

// onPath puts a go command that does nothing in front.
func stubGo(dir string) (undo func()) {
	write(filepath.Join(dir, "go"), "#!/bin/sh\nexit 0\n")
	os.Chmod(filepath.Join(dir, "go"), 0o777)
	was := os.Getenv("PATH")
	os.Setenv("PATH", dir+string(filepath.ListSeparator)+was)
	return func() { os.Setenv("PATH", was) }
}

const fieldsTemplate = `package {{.Package}} //|%s|{{.GinkgoImport}}|{{.GomegaImport}}|{{.GinkgoPackage}}|{{.GomegaPackage}}`

func (c genCase) template(dir, field string) (args []string, fails bool) {
	if c.Template == 0 {
		return nil, false
	}
	text := fmt.Sprintf(fieldsTemplate, field)
	if c.Template != 1 {
		text += `|{{ index .CustomData.things 1 | upper }}`
	}
	if c.Template == 3 {
		text += `{{if}`
	}
	if c.Template == 4 {
		text += `{{.CustomData.nothing}}`
	}
	write(filepath.Join(dir, "tpl"), text)
	args = []string{"--template", filepath.Join(dir, "tpl")}
	if c.Template != 1 {
		data := `{"things": ["a", "b"]}`
		if c.Template == 5 {
			data = "{"
		}
		write(filepath.Join(dir, "data"), data)
		args = append(args, "--template-data", filepath.Join(dir, "data"))
	}
	return args, c.Template >= 3
}

func (c genCase) flags() (fs []string) {
	for f, on := range map[string]bool{"--nodot": c.Nodot, "--internal": c.Internal, "--agouti": c.Agouti} {
		if on {
			fs = append(fs, f)
		}
	}
	return
}

func (c genCase) check(boot bool) vf.Outcome {
	top := scratch()
	defer os.RemoveAll(top)
	defer stubGo(filepath.Join(top, "bin"))()
	dir, importPath, pkg := c.lay(top)
	field := "{{.FormattedName}}"
	if !boot {
		field = "{{.Subject}}|{{.PackageImportPath}}|{{.ImportPackage}}"
	}
	args, fails := c.template(top, field)
	args = append(c.flags(), args...)
	subjects := []string{""}
	cmd := generators.BuildBootstrapCommand()
	if !boot {
		cmd = generators.BuildGenerateCommand()
		if c.Tags != "" {
			args = append(args, "--tags", c.Tags)
		}
		if len(c.Subjects) > 0 {
			subjects = c.Subjects
			args = append(args, subjects...)
		}
	}
	last := c.Dirs[len(c.Dirs)-1]
	under := strings.NewReplacer("-", "_", " ", "_")
	files := map[string]string{} // the files that are to be there, and what they are about
	var order []string
	clash := false
	for _, s := range subjects {
		name, about := under.Replace(last), last
		if s != "" {
			name = under.Replace(strings.TrimSuffix(strings.TrimSuffix(s, ".go"), "_test"))
			about = name
		}
		switch {
		case boot:
			name += "_suite"
		case c.Internal:
			name += "_internal"
		}
		name += "_test.go"
		if files[name] != "" {
			clash = true
			break
		}
		files[name] = about
		order = append(order, name)
		if fails {
			break
		}
	}
	before := listing(dir)
	ended := inside(dir, func() { cmd.Run(args, nil) })
	d, aborted := ended.(command.AbortDetails)
	if ended != nil && !aborted {
		return vf.Fail("ended with %v", ended)
	}
	if bad := aborted && d.ExitCode != 0; bad != (fails || clash) {
		return vf.Fail("aborted: %v, want failure %v (%v)", aborted, fails || clash, d.Error)
	}
	after := listing(dir)
	for f, text := range before {
		if after[f] != text {
			return vf.Fail("%s was changed to\n%s", f, after[f])
		}
	}
	if fails {
		if len(after) != len(before) {
			return vf.Fail("a failing template leaves a file behind: %v", keys(after))
		}
		return vf.Outcome{}
	}
	if len(after) != len(before)+len(files) {
		return vf.Fail("the directory has %v, want %v besides %v", keys(after), order, keys(before))
	}
	for _, f := range order {
		text, ok := after[f]
		if !ok {
			return vf.Fail("the directory has %v, want %v", keys(after), order)
		}
		if err := c.file(boot, f, text, files[f], importPath, pkg, last); err != nil {
			return vf.Fail("%s: %s\n%s", f, err, text)
		}
	}
	if c.Again {
		ended := inside(dir, func() { cmd.Run(args, nil) })
		if d, ok := ended.(command.AbortDetails); !ok || d.ExitCode == 0 {
			return vf.Fail("generating again ends with %v", ended)
		}
		for f, text := range listing(dir) {
			if after[f] != text {
				return vf.Fail("generating again changes %s to\n%s", f, text)
			}
		}
	}
	return vf.Outcome{NonTrivial: len(c.Dirs) > 1 || c.GoMod > 0 || pkg != "" || c.Template > 0 || len(files) > 1}
}

func keys(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func listing(dir string) map[string]string {
	out := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		out[e.Name()] = string(b)
	}
	return out
}

func (c genCase) file(boot bool, name, text, about, importPath, pkg, last string) error {
	dot, gp := ". ", [2]string{"", ""}
	if c.Nodot {
		dot, gp = "", [2]string{"ginkgo.", "gomega."}
	}
	subject := identWords(about)
	okPkg := func(got string) error {
		base := got
		if !c.Internal {
			if !strings.HasSuffix(got, "_test") {
				return fmt.Errorf("package %s is not external", got)
			}
			base = strings.TrimSuffix(got, "_test")
		}
		if !legalIdent(got) {
			return fmt.Errorf("package %s is no legal name", got)
		}
		if pkg != "" {
			if base != pkg {
				return fmt.Errorf("package %s, want %s", base, pkg)
			}
			return nil
		}
		plain := strings.NewReplacer("-", "_", " ", "_").Replace(last)
		if (legalIdent(plain) || token.IsKeyword(plain) && !c.Internal) && base != plain {
			return fmt.Errorf("package %s, want %s", base, plain)
		}
		return nil
	}
	okSubject := func(got string) error {
		if boot && !legalIdent("Test"+got) {
			return fmt.Errorf("Test%s is no legal name", got)
		}
		if identWords(got) != subject {
			return fmt.Errorf("named after %q, want %q", got, subject)
		}
		return nil
	}
	if c.Template > 0 {
		want := []string{"", "", dot + `"github.com/onsi/ginkgo/v2"`, dot + `"github.com/onsi/gomega"`, gp[0], gp[1]}
		if !boot {
			want = append([]string{"", "", importPath, fmt.Sprint(!c.Internal)}, want[2:]...)
		}
		if c.Template > 1 {
			want = append(want, "B")
		}
		got := strings.Split(text, "|")
		if len(got) != len(want) {
			return fmt.Errorf("template rendered %d fields, want %d", len(got), len(want))
		}
		for i := range got {
			if i > 1 && got[i] != want[i] {
				return fmt.Errorf("template field %d is %q, want %q", i, got[i], want[i])
			}
		}
		if err := okPkg(strings.TrimSuffix(strings.TrimPrefix(got[0], "package "), " //")); err != nil {
			return err
		}
		return okSubject(got[1])
	}
	f, err := parser.ParseFile(token.NewFileSet(), name, text, parser.ParseComments)
	if err != nil {
		return err
	}
	if err := okPkg(f.Name.Name); err != nil {
		return err
	}
	imports := map[string]string{"github.com/onsi/ginkgo/v2": strings.TrimSpace(dot), "github.com/onsi/gomega": strings.TrimSpace(dot)}
	if boot {
		imports["testing"] = ""
	} else if !c.Internal {
		imports[importPath] = ""
	}
	if c.Agouti {
		imports["github.com/sclevine/agouti"] = ""
		if !boot {
			imports["github.com/sclevine/agouti/matchers"] = "."
		}
	}
	for _, i := range f.Imports {
		var p string
		json.Unmarshal([]byte(i.Path.Value), &p)
		as, ok := imports[p]
		if !ok {
			return fmt.Errorf("import %q, want %v", p, imports)
		}
		if i.Name != nil && i.Name.Name != as || i.Name == nil && as != "" {
			return fmt.Errorf("import %q is named otherwise", p)
		}
		delete(imports, p)
	}
	if len(imports) > 0 {
		return fmt.Errorf("does not import %v", imports)
	}
	tag := ""
	if len(f.Comments) > 0 && f.Comments[0].Pos() < f.Package {
		tag = f.Comments[0].List[0].Text
	}
	want := ""
	if c.Tags != "" && !boot {
		want = "//go:build " + c.Tags
	}
	if tag != want {
		return fmt.Errorf("build constraint %q, want %q", tag, want)
	}
	found := 0
	var bad error
	ast.Inspect(f, func(n ast.Node) bool {
		if fd, ok := n.(*ast.FuncDecl); ok && boot {
			found++
			bad = okSubject(strings.TrimPrefix(fd.Name.Name, "Test"))
			if !strings.HasPrefix(fd.Name.Name, "Test") {
				bad = fmt.Errorf("func %s", fd.Name.Name)
			}
		}
		if call, ok := n.(*ast.CallExpr); ok && !boot && exprText(call.Fun) == gp[0]+"Describe" {
			found++
			var s string
			if err := json.Unmarshal([]byte(call.Args[0].(*ast.BasicLit).Value), &s); err != nil {
				bad = err
			} else {
				bad = okSubject(s)
			}
		}
		if call, ok := n.(*ast.CallExpr); ok && boot && exprText(call.Fun) == gp[0]+"RunSpecs" {
			found += 10
		}
		if call, ok := n.(*ast.CallExpr); ok && boot && exprText(call.Fun) == gp[1]+"RegisterFailHandler" && exprText(call.Args[0]) == gp[0]+"Fail" {
			found += 100
		}
		return true
	})
	if bad != nil {
		return bad
	}
	if boot && found != 111 || !boot && found != 1 {
		return fmt.Errorf("not what is to be generated (%d)", found)
	}
	return nil
}

func exprText(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return exprText(e.X) + "." + e.Sel.Name
	}
	return ""
}

// T05: what the generators write is a suite, or a spec file, of the package they are run in.
func TestT05_bootstrap(t *testing.T) {
	vf.Run(t, vf.Prop[genCase]{ID: "T05", Sub: "bootstrap", Rule: "not the plain case of one new directory", Quick: 6000, Thorough: 200000, Gen: genGenCase,
		Check: func(c genCase) vf.Outcome { return c.check(true) }})
}

func TestT05_generate(t *testing.T) {
	vf.Run(t, vf.Prop[genCase]{ID: "T05", Sub: "generate", Rule: "not the plain case of one new directory", Quick: 10000, Thorough: 300000, Gen: genGenCase,
		Check: func(c genCase) vf.Outcome { return c.check(false) }})
}

// with the real go command: the file ends up formatted
func TestT05_format(t *testing.T) {
	vf.Run(t, vf.Prop[genCase]{ID: "T05", Sub: "format", Rule: "a file is generated", Quick: 40, Thorough: 2000, Gen: genGenCase,
		Check: func(c genCase) vf.Outcome {
			c.Template, c.Module, c.GoMod, c.Subjects = 0, "m", 0, nil
			for i := range c.Dirs {
				c.Dirs[i] = strings.ReplaceAll(c.Dirs[i], " ", "-")
			}
			top := scratch()
			defer os.RemoveAll(top)
			dir, _, _ := c.lay(top)
			before := listing(dir)
			for _, cmd := range []command.Command{generators.BuildBootstrapCommand(), generators.BuildGenerateCommand()} {
				if e := inside(dir, func() { cmd.Run(c.flags(), nil) }); e != nil {
					return vf.Fail("ended with %v", e)
				}
			}
			for f, text := range listing(dir) {
				if _, ok := before[f]; ok {
					continue
				}
				nice, err := format.Source([]byte(text))
				if err != nil || string(nice) != text {
					return vf.Fail("%s is not formatted (%v):\n%s", f, err, text)
				}
			}
			return vf.Outcome{NonTrivial: true}
		}})
}
