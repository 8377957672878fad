// Package watch checks what ginkgo watch runs again.
package watch

import (
	"fmt"
	"go/build"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/internal"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/ginkgo/watch"
	"pgregory.net/rapid"
)

// file names: 0-2 are code, 3 is test code, 4 external test code, the others do not count
var names = []string{"a.go", "b.go", "c.tmpl", "x_test.go", "y_test.go", "notes.txt", ".hidden.go", "_unused.go", "go", "x_test.go.orig"}

type file struct {
	Name    int
	Imports []int // packages
	Broken  bool  // the imports do not parse
	When    int   // 0 now, 1 an hour ago, 2 in an hour
}

type pkg struct{ Files []file }

type op struct {
	Kind string // write, delete, remove (the directory), create (it), tick
	Pkg  int
	File file
	Pos  int  // within a tick: before this suite is run
	Mid  []op // what happens while the suites run
	Pk   pkg  // what is created
}

type watchCase struct {
	Pkgs  []pkg
	Depth int
	Tmpl  bool // templates are watched too
	Ops   []op
}

func genFile(t *rapid.T, n int, code bool) file {
	f := file{Name: vf.U(t, "name", len(names)), When: vf.Pick(t, "when", 0, 0, 0, 0, 1, 1, 2)}
	if vf.Pct(t, "common", 50) {
		f.Name = vf.Pick(t, "name", 0, 0, 1, 3, 3, 4)
	}
	if code {
		f.Name = 0
	}
	if strings.HasSuffix(names[f.Name], ".go") {
		for k := vf.Pick(t, "imports", 0, 1, 1, 2); k > 0; k-- {
			f.Imports = append(f.Imports, vf.U(t, "import", n+1)) // n does not exist
		}
		f.Broken = vf.Pct(t, "broken", 6)
	}
	return f
}

func genPkg(t *rapid.T, n int) pkg {
	p := pkg{}
	for k := vf.Range(t, "files", 0, 4); k > 0; k-- {
		f := genFile(t, n, false)
		for i, g := range p.Files {
			if g.Name == f.Name {
				p.Files = append(p.Files[:i], p.Files[i+1:]...)
				break
			}
		}
		p.Files = append(p.Files, f)
	}
	return p
}

func genOp(t *rapid.T, n int, tick bool) op {
	o := op{Kind: vf.Pick(t, "kind", "write", "write", "write", "write", "delete", "delete", "remove", "create"), Pkg: vf.U(t, "pkg", n), Pos: vf.U(t, "pos", n)}
	switch {
	case tick && vf.Pct(t, "tick", 45):
		o = op{Kind: "tick"}
		for vf.Pct(t, "mid", 25) && len(o.Mid) < 3 {
			o.Mid = append(o.Mid, genOp(t, n, false))
		}
		sort.SliceStable(o.Mid, func(i, j int) bool { return o.Mid[i].Pos < o.Mid[j].Pos })
	case o.Kind == "create":
		o.Pk = genPkg(t, n)
	case o.Kind == "write" || o.Kind == "delete":
		o.File = genFile(t, n, false)
	}
	return o
}

func genWatch(t *rapid.T) watchCase {
	c := watchCase{Depth: vf.Pick(t, "depth", 0, 1, 1, 1, 2, 3, 9), Tmpl: vf.Pct(t, "templates", 30)}
	n := vf.Range(t, "packages", 1, 6)
	for i := 0; i < n; i++ {
		c.Pkgs = append(c.Pkgs, genPkg(t, n))
	}
	for k := vf.Range(t, "ops", 2, 16); k > 0; k-- {
		c.Ops = append(c.Ops, genOp(t, n, true))
	}
	c.Ops = append(c.Ops, op{Kind: "tick"})
	return c
}

// T08: ginkgo watch runs a suite again when, and only when, what it is made of has changed.
func TestT08_watch(t *testing.T) {
	vf.Run(t, vf.Prop[watchCase]{ID: "T08", Sub: "watch", Rule: "a suite is run again for a change of a dependency, and one is not", Quick: 24000, Thorough: 600000, Gen: genWatch, Check: checkWatch})
}

type world struct {
	c     watchCase
	src   string
	pkgs  []*pkg // nil: no directory
	clock int    // makes every write another size or time
	start time.Time
	stamp map[[2]int]string
}

func (w *world) dir(i int) string { return filepath.Join(w.src, "p", fmt.Sprintf("q%d", i)) }

func (w *world) write(i int, f file) {
	p := w.pkgs[i]
	if p == nil {
		return
	}
	for k, g := range p.Files {
		if g.Name == f.Name {
			p.Files = append(p.Files[:k:k], p.Files[k+1:]...)
			break
		}
	}
	p.Files = append(p.Files, f)
	text := ""
	if strings.HasSuffix(names[f.Name], ".go") {
		text = fmt.Sprintf("package q%d\n", i)
		if f.Name == 4 {
			text = fmt.Sprintf("package q%d_test\n", i)
		}
		if f.Broken {
			text += "import (\n"
		}
		for _, d := range f.Imports {
			text += fmt.Sprintf("import _ \"p/q%d\"\n", d)
		}
	}
	w.clock++
	// a write changes the size or the time of the file, never both: noticing one of them does not do
	pad := 600 - len(text)
	if f.When == 1 {
		pad += w.clock
	}
	if pad < 0 {
		panic("that file is too big")
	}
	text += "//" + strings.Repeat("x", pad) + "\n"
	path := filepath.Join(w.dir(i), names[f.Name])
	if err := os.WriteFile(path, []byte(text), 0o666); err != nil {
		panic(err)
	}
	when := w.start.Add([]time.Duration{time.Duration(w.clock) * time.Millisecond, -time.Hour, time.Hour + time.Duration(w.clock)*time.Millisecond}[f.When])
	if err := os.Chtimes(path, when, when); err != nil {
		panic(err)
	}
	w.stamp[[2]int{i, f.Name}] = fmt.Sprint(w.clock)
}

func (w *world) do(o op) {
	switch o.Kind {
	case "write":
		w.write(o.Pkg, o.File)
	case "delete":
		if p := w.pkgs[o.Pkg]; p != nil {
			for k, g := range p.Files {
				if g.Name == o.File.Name {
					p.Files = append(p.Files[:k:k], p.Files[k+1:]...)
					os.Remove(filepath.Join(w.dir(o.Pkg), names[g.Name]))
					break
				}
			}
		}
	case "remove":
		w.pkgs[o.Pkg] = nil
		if !strings.HasPrefix(w.dir(o.Pkg), w.src+"/p/q") {
			panic("where is that?")
		}
		os.RemoveAll(w.dir(o.Pkg))
	case "create":
		if w.pkgs[o.Pkg] == nil {
			w.create(o.Pkg, o.Pk)
		}
	}
}

func (w *world) create(i int, p pkg) {
	if err := os.MkdirAll(w.dir(i), 0o777); err != nil {
		panic(err)
	}
	w.pkgs[i] = &pkg{}
	for _, f := range p.Files {
		w.write(i, f)
	}
}

// state is what of a package counts: its code, and its tests if asked for
func (w *world) state(i int, tests bool) string {
	if w.pkgs[i] == nil {
		return "none"
	}
	out := []string{}
	for _, f := range w.pkgs[i].Files {
		if f.Name < 2 || f.Name == 2 && w.c.Tmpl || tests && (f.Name == 3 || f.Name == 4) {
			out = append(out, names[f.Name]+w.stamp[[2]int{i, f.Name}])
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (w *world) isSuite(i int) bool {
	if w.pkgs[i] != nil {
		for _, f := range w.pkgs[i].Files {
			if f.Name == 3 || f.Name == 4 {
				return true
			}
		}
	}
	return false
}

// imports are those of a package; ok is false if they cannot be told
func (w *world) imports(i int, tests bool) (out []int, ok bool) {
	if w.pkgs[i] == nil {
		return nil, false
	}
	ok = true
	for _, f := range w.pkgs[i].Files {
		if f.Name > 4 || f.Name == 2 {
			continue
		}
		ok = ok && !f.Broken
		if f.Name < 2 || tests {
			out = append(out, f.Imports...)
		}
	}
	return out, ok
}

// deps are the packages that suite i depends on, down to the depth
func (w *world) deps(i int) (map[int]bool, bool) {
	out := map[int]bool{}
	if w.c.Depth == 0 {
		return out, true
	}
	next, ok := w.imports(i, true)
	if !ok {
		return nil, false
	}
	for depth := 1; ; depth++ {
		var found []int
		for _, d := range next {
			if d < len(w.pkgs) && w.pkgs[d] != nil && !out[d] {
				out[d] = true
				found = append(found, d)
			}
		}
		if len(found) == 0 || depth >= w.c.Depth {
			return out, true
		}
		next = nil
		for _, d := range found {
			if is, ok := w.imports(d, false); ok {
				next = append(next, is...)
			}
		}
	}
}

type watched struct {
	deps map[int]bool
	ran  map[int]string // the state of what is watched when it last ran
}

func checkWatch(c watchCase) (out vf.Outcome) {
	top, err := os.MkdirTemp("", "watch")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	os.Setenv("GO111MODULE", "off")
	build.Default.GOPATH = top
	re := `\.go$`
	if c.Tmpl {
		re = `\.(go|tmpl)$`
	}
	w := &world{c: c, src: filepath.Join(top, "src"), pkgs: make([]*pkg, len(c.Pkgs)), stamp: map[[2]int]string{}, start: time.Now()}
	for i, p := range c.Pkgs {
		w.create(i, p)
	}
	suiteOf := func(i int) internal.TestSuite {
		return internal.TestSuite{Path: w.dir(i), PackageName: fmt.Sprintf("q%d", i), IsGinkgo: true}
	}
	tracker := watch.NewDeltaTracker(c.Depth, regexp.MustCompile(re))
	known := map[int]*watched{}
	checked := map[int]string{} // the state at the last tick
	now := func(i int, of *watched) map[int]string {
		m := map[int]string{i: w.state(i, true)}
		for d := range of.deps {
			if d != i {
				m[d] = w.state(d, false)
			}
		}
		return m
	}
	again, not := false, false
	tick := func(n int, mid []op) error {
		var suites internal.TestSuites
		for i := range w.pkgs {
			if w.isSuite(i) {
				suites = append(suites, suiteOf(i))
			}
		}
		delta, errors := tracker.Delta(suites)
		got := map[string]string{}
		for kind, list := range map[string][]*watch.Suite{"new": delta.NewSuites, "modified": delta.ModifiedSuites(), "removed": delta.RemovedSuites} {
			for _, s := range list {
				if got[s.Suite.Path] != "" {
					return fmt.Errorf("%s is %s and %s", s.Suite.Path, got[s.Suite.Path], kind)
				}
				got[s.Suite.Path] = kind
			}
		}
		run := []int{}
		for i := range w.pkgs {
			of, was := known[i]
			is := got[w.dir(i)]
			var bad error
			switch {
			case !w.isSuite(i) && was:
				delete(known, i)
				if is != "removed" {
					bad = fmt.Errorf("is not known as removed")
				}
			case !w.isSuite(i):
				if is != "" {
					bad = fmt.Errorf("is no suite")
				}
			case !was:
				deps, ok := w.deps(i)
				if (is == "new") != ok || (errors[suiteOf(i)] == nil) != ok || is != "new" && is != "" {
					bad = fmt.Errorf("is not known as new, or could not be read (its imports can be told: %v, error: %v)", ok, errors[suiteOf(i)])
				}
				if ok {
					known[i] = &watched{deps: deps}
					known[i].ran = now(i, known[i])
					run = append(run, i)
				}
			default:
				state := now(i, of)
				must, may := false, false
				code := func(s string) string { return strings.TrimPrefix(s, "none") }
				for d, s := range state {
					key := d
					if d == i {
						key = -1 - i
					}
					// what is as it was at the last tick can have been otherwise when the suite ran: ginkgo does not see that
					may = may || s != of.ran[d] || s != checked[key]
					must = must || code(s) != code(of.ran[d]) && code(s) != code(checked[key])
				}
				if is == "modified" {
					run = append(run, i)
				}
				if is == "modified" && !may {
					bad = fmt.Errorf("runs again though nothing has changed")
				}
				if is != "modified" && must {
					bad = fmt.Errorf("does not run again: was %v, is %v", of.ran, state)
				}
				again = again || is == "modified" && state[i] == of.ran[i]
				not = not || is == ""
			}
			if bad != nil {
				return fmt.Errorf("tick %d: package q%d (%s) %w", n, i, is, bad)
			}
		}
		for i := range w.pkgs {
			checked[i], checked[-1-i] = w.state(i, false), w.state(i, true)
		}
		if n == 0 {
			return nil // as ginkgo watch does: it starts to watch, and runs nothing unless there is one suite only
		}
		for k, i := range run {
			for len(mid) > 0 && mid[0].Pos <= k {
				w.do(mid[0])
				mid = mid[1:]
			}
			tracker.WillRun(suiteOf(i))
			if deps, ok := w.deps(i); ok {
				known[i].deps = deps
			}
			known[i].ran = now(i, known[i])
		}
		for _, o := range mid {
			w.do(o)
		}
		return nil
	}
	if err := tick(0, nil); err != nil {
		return vf.Fail("%s", err)
	}
	for n, o := range c.Ops {
		if o.Kind != "tick" {
			w.do(o)
			continue
		}
		if err := tick(n+1, o.Mid); err != nil {
			return vf.Fail("%s", err)
		}
	}
	out.NonTrivial = again && not
	if again {
		out.Classes = append(out.Classes, "again")
	}
	return out
}
