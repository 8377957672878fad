package tools

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/internal"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type sdir struct {
	Path  string
	Files []int // which of sfiles are in it
}

type suitesCase struct {
	Dirs        []sdir
	Cwd         string
	Args        []string
	Recurse     bool
	Precompiled bool
	Skip        string
	Seed        int64
}

type sfile struct {
	name, text   string
	test, ginkgo bool // a test file (one that go test would take) of a Ginkgo suite
	mode         os.FileMode
}

var sfiles = []sfile{
	{name: "a_test.go", text: "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n", test: true, ginkgo: true},
	{name: "b_test.go", text: "package p_test\n\nimport \"testing\"\n\nfunc TestX(t *testing.T) {}\n", test: true},
	{name: "c_test.go", text: "package p_test\n\nimport (\n\t\"testing\"\n\tgk \"github.com/onsi/ginkgo/v2\"\n)\n", test: true, ginkgo: true},
	{name: "d_test.go", text: "package p_test\n\nimport . \"github.com/onsi/ginkgo/v2/dsl/core\"\n", test: true, ginkgo: true},
	{name: "e_test.go", text: "package p_test\n\nimport . \"github.com/onsi/gomega\"\n", test: true},
	{name: "_f_test.go", text: "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"},
	{name: ".g_test.go", text: "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"},
	{name: "h.go", text: "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"},
	{name: "i_test.go.bak", text: "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"},
	{name: "jtest.go", text: "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"},
	{name: "_test.go", text: "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"},
	{name: "k.test", text: "binary", mode: 0o755},
	{name: "l.test", text: "no binary", mode: 0o644},
	{name: "m.exe", text: "binary", mode: 0o644},
	{name: "n_test.go/", text: ""}, // a directory of that name
	{name: "o_test.go", text: "package p_test // uses /ginkgo\n\n// or github.com/onsi/ginkgo/v2\n", test: true},
}

var spaths = []string{".", "a", "a/b", "a/b/c", "b", "vendor", "vendor/x", "a/vendor/y", ".hidden", ".hidden/z", "_skip", "_skip/z", "a b", "avendor", "a.b", "testdata/t", "internal", "a/b_c"}

func genSuitesCase(t *rapid.T) suitesCase {
	c := suitesCase{Recurse: vf.Pct(t, "recurse", 55), Precompiled: vf.Pct(t, "precompiled", 70), Seed: int64(vf.U(t, "seed", 1000)), Cwd: vf.Pick(t, "cwd", ".", ".", ".", "a", "b", "a/b")}
	for i := vf.Range(t, "dirs", 1, 8); i > 0; i-- {
		d := sdir{Path: vf.Pick(t, "path", spaths...)}
		for k := vf.U(t, "files", 4); k > 0; k-- {
			f := vf.U(t, "file", len(sfiles))
			if vf.Pct(t, "suite", 50) {
				f = vf.U(t, "suite", 4)
			}
			d.Files = append(d.Files, f)
		}
		c.Dirs = append(c.Dirs, d)
	}
	if vf.Pct(t, "args", 65) {
		for i := vf.Range(t, "n", 1, 3); i > 0; i-- {
			a := vf.Pick(t, "arg", spaths...)
			if vf.Pct(t, "known", 60) {
				a = c.Dirs[vf.U(t, "which", len(c.Dirs))].Path
			}
			switch vf.U(t, "form", 9) {
			case 0:
				a += "/..."
			case 1:
				a = "./" + a
			case 2:
				a += "/"
			case 3:
				a = "/" + a // made absolute later
			case 4:
				a += "/" + strings.TrimSuffix(vf.Pick(t, "file", sfiles...).name, "/")
			case 5:
				a = "/" + a + "/..."
			case 6:
				k := vf.Range(t, "binary", 11, 13)
				if vf.Pct(t, "present", 80) {
					c.Dirs = append(c.Dirs, sdir{Path: filepath.Join(c.Cwd, a), Files: []int{k}})
				}
				a += "/" + sfiles[k].name
			}
			c.Args = append(c.Args, a)
		}
	}
	if vf.Pct(t, "skip", 35) {
		for i := vf.Range(t, "n", 1, 3); i > 0; i-- {
			c.Skip += vf.Pick(t, "filter", "a", "b", "/b", "c", "vendor", "internal", "nothing", "a/b", ".hidden", "")
			if i > 1 {
				c.Skip += ","
			}
		}
	}
	return c
}

// T04: a run finds the suites there are in the places it is told to look at.
func TestT04_find(t *testing.T) {
	vf.Run(t, vf.Prop[suitesCase]{ID: "T04", Sub: "find", Rule: "two suites are found, or one is skipped or compiled already", Quick: 48000, Thorough: 800000, Gen: genSuitesCase,
		Check: func(c suitesCase) vf.Outcome {
			top := scratch()
			defer os.RemoveAll(top)
			root := filepath.Join(top, "root")
			for _, d := range append(c.Dirs, sdir{Path: c.Cwd}) {
				os.MkdirAll(filepath.Join(root, d.Path), 0o777)
				for _, k := range d.Files {
					f := sfiles[k]
					p := filepath.Join(root, d.Path, f.name)
					if strings.HasSuffix(f.name, "/") {
						os.MkdirAll(p, 0o777)
						continue
					}
					write(p, f.text)
					if f.mode != 0 {
						os.Chmod(p, f.mode)
					}
				}
			}
			// the oracle knows the tree from the case
			has := map[string]map[int]bool{}
			add := func(p string) {
				for {
					if has[p] == nil {
						has[p] = map[int]bool{}
					}
					if p == "." {
						return
					}
					p = filepath.Dir(p)
				}
			}
			add(c.Cwd)
			for _, d := range c.Dirs {
				add(d.Path)
				for _, k := range d.Files {
					has[d.Path][k] = true
					if strings.HasSuffix(sfiles[k].name, "/") {
						add(filepath.Join(d.Path, sfiles[k].name))
					}
				}
			}
			var want []internal.TestSuite
			fromCwd := func(p string) string {
				r, _ := filepath.Rel(filepath.Join("/", c.Cwd), filepath.Join("/", p))
				if !strings.HasPrefix(r, ".") {
					r = "./" + r
				}
				return r
			}
			name := func(p string) string { return filepath.Base(filepath.Join(root, p)) }
			var look func(p string, recurse bool)
			look = func(p string, recurse bool) {
				if name(p) == "vendor" || has[p] == nil {
					return
				}
				suite := internal.TestSuite{Path: fromCwd(p), PackageName: name(p), State: internal.TestSuiteStateUncompiled}
				found := false
				for k := range has[p] {
					found = found || sfiles[k].test
					suite.IsGinkgo = suite.IsGinkgo || sfiles[k].test && sfiles[k].ginkgo
				}
				if found {
					want = append(want, suite)
				}
				if recurse {
					var kids []string
					for k := range has {
						if k != p && filepath.Dir(k) == p && !strings.HasPrefix(filepath.Base(k), ".") && !strings.HasPrefix(filepath.Base(k), "_") {
							kids = append(kids, k)
						}
					}
					sort.Strings(kids)
					for _, k := range kids {
						look(k, true)
					}
				}
			}
			if len(c.Args) == 0 {
				look(c.Cwd, c.Recurse)
			}
			var args []string
			classes := []string{}
			for _, a := range c.Args {
				abs := strings.HasPrefix(a, "/")
				base, all := strings.CutSuffix(strings.TrimPrefix(a, "/"), "/...")
				p := filepath.Join(c.Cwd, base)
				if abs {
					p = filepath.Clean(base)
					a = filepath.Join(root, base)
					if all {
						a += "/..."
					}
				}
				args = append(args, a)
				if c.Precompiled && !all && has[filepath.Dir(p)] != nil {
					hit := false
					for k := range has[filepath.Dir(p)] {
						f := sfiles[k]
						if f.name == filepath.Base(p) && (f.name == "k.test" || f.name == "m.exe") && !strings.HasSuffix(base, "/") {
							want = append(want, internal.TestSuite{Path: fromCwd(filepath.Dir(p)), PackageName: f.name[:1], IsGinkgo: true, Precompiled: true, PathToCompiledTest: filepath.Join(root, p), State: internal.TestSuiteStateCompiled})
							hit = true
							classes = append(classes, "precompiled")
						}
					}
					if hit {
						continue
					}
				}
				look(p, c.Recurse || all)
			}
			skipped := 0
			for i := range want {
				for _, f := range strings.Split(c.Skip, ",") {
					if f != "" && strings.Contains(want[i].Path, f) {
						want[i].State = internal.TestSuiteStateSkippedByFilter
						skipped++
						break
					}
				}
			}
			var got internal.TestSuites
			var shuffled [2]internal.TestSuites
			cli := types.NewDefaultCLIConfig()
			cli.Recurse, cli.SkipPackage = c.Recurse, c.Skip
			if e := inside(filepath.Join(root, c.Cwd), func() {
				got = internal.FindSuites(args, cli, c.Precompiled)
				shuffled = [2]internal.TestSuites{got.ShuffledCopy(c.Seed), got.ShuffledCopy(c.Seed)}
			}); e != nil {
				return vf.Fail("ended with %v", e)
			}
			show := func(ss []internal.TestSuite) (out string) {
				for _, s := range ss {
					out += fmt.Sprintf("%+v\n", s)
				}
				return
			}
			known := ""
			if show(got) != show(want) {
				// two recorded findings: are these what makes the difference?
				other := append([]internal.TestSuite{}, want...)
				for i := range other {
					p := filepath.Join(c.Cwd, other[i].Path)
					if !other[i].Precompiled && !other[i].IsGinkgo {
						for k := range has[p] {
							if f := sfiles[k]; strings.HasSuffix(f.name, "_test.go") && !f.test {
								other[i].IsGinkgo, known = true, "ignored-file-with-ginkgo"
							}
						}
					}
					if c.Skip != "" && other[i].State != internal.TestSuiteStateSkippedByFilter && slices.Contains(strings.Split(c.Skip, ","), "") {
						other[i].State, known = internal.TestSuiteStateSkippedByFilter, "empty-skip-package"
					}
				}
				if show(got) != show(other) {
					known = ""
				}
			}
			if show(got) != show(want) && known == "" {
				return vf.Fail("found\n%swant\n%s", show(got), show(want))
			}
			if show(shuffled[0]) != show(shuffled[1]) {
				return vf.Fail("the same seed gives two orders")
			}
			a, b := strings.Split(show(shuffled[0]), "\n"), strings.Split(show(got), "\n")
			sort.Strings(a)
			sort.Strings(b)
			if fmt.Sprint(a) != fmt.Sprint(b) {
				return vf.Fail("shuffling\n%sgives\n%s", show(got), show(shuffled[0]))
			}
			return vf.Outcome{Known: known, NonTrivial: len(want) > 1 || skipped > 0 || len(classes) > 0, Classes: classes}
		}})
}
