package cli

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type built struct {
	Path    string
	How     string // ok, noisy, broken, silent (broken without a word), lost (no binary is written), empty (no test files for go)
	Old     bool   // has been built before
	Version string // of Ginkgo, as go list -m tells; "" if it cannot
	Ms      int
}

type buildCase struct {
	Suites    []built
	Recurse   bool   // -r instead of the paths
	Skip      string // --skip-package
	Compilers int
	O         string
	OExists   bool // -o is a directory that exists
	Flags     []string
}

const builderStub = `#!/bin/sh
if [ "$1" = list ]; then
	[ "$2 $3" = "-m github.com/onsi/ginkgo/v2" ] && [ -f version ] && cat version
	exit
fi
[ "$1" = test ] || exit 1
for a; do case "$a" in --o=*|-o=*) out=${a#*=};; esac; done
printf 'begin\t%s\t%s\n' "$PWD" "$*" >> "$VF_FIXTURE"
sleep 0.0$(cat ms)
printf 'end\t%s\n' "$PWD" >> "$VF_FIXTURE"
read how < how
case $how in
noisy) echo "mind the gap" ;;
broken) echo "$(basename "$PWD") does not compile"; exit 1 ;;
silent) exit 3 ;;
lost) exit 0 ;;
empty) echo "?   	p	[no test files]"; exit 0 ;;
esac
case $out in */) mkdir -p "$out";; esac
if [ -d "$out" ]; then out=${out%/}/$(basename "$PWD").test; fi
mkdir -p "$(dirname "$out")" && printf '%s' "$PWD" > "$out"
`

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func genBuild(t *rapid.T) buildCase {
	c := buildCase{Compilers: vf.U(t, "compilers", 4), Recurse: vf.Pct(t, "recurse", 30)}
	where := append([]string{}, paths...)
	n := vf.Range(t, "suites", 1, 5)
	if n == 1 && vf.Pct(t, "here", 40) {
		where = []string{"."}
	}
	for i := 0; i < n; i++ {
		k := vf.U(t, "path", len(where))
		s := built{Path: where[k], How: vf.Pick(t, "how", "ok", "ok", "ok", "noisy", "broken", "silent", "lost", "empty"), Old: vf.Pct(t, "old", 20), Ms: vf.Range(t, "ms", 10, 40)}
		if s.How == "lost" {
			s.Old = false
		}
		where = append(where[:k:k], where[k+1:]...)
		if vf.Pct(t, "version", 40) {
			s.Version = vf.Pick(t, "which", "v"+types.VERSION, "v"+types.VERSION, "v2.1.3", "v2.1.3", "v1.99.0", "v2.1.3 => ../ginkgo", "v"+types.VERSION+"-0.20250101", "(devel)")
		}
		c.Suites = append(c.Suites, s)
	}
	if vf.Pct(t, "skip", 15) {
		c.Skip = vf.Pick(t, "skipped", "g-h", "l_m", "j.k")
	}
	switch vf.U(t, "o", 6) {
	case 0:
		c.O, c.OExists = vf.Pick(t, "dir", "bin", "bin/", "./bin", "x/../bin"), true
	case 1:
		c.O = vf.Pick(t, "newdir", "bin/", "deep/bin/")
	case 2:
		if len(c.Suites) == 1 {
			c.O = vf.Pick(t, "file", "x.bin", "bin/x.bin", "./tests")
		}
	}
	for _, f := range []string{"--race", "--tags=x,y", "--ldflags=-X a=b", "--cover", "--gcflags=-N", "--vet=off", "-x"} {
		if vf.Pct(t, "flag", 15) {
			c.Flags = append(c.Flags, f)
		}
	}
	return c
}

// T10: ginkgo build leaves a binary of every suite that compiles, where it says, and says what does not compile.
func TestT10_build(t *testing.T) {
	vf.Run(t, vf.Prop[buildCase]{ID: "T10", Sub: "build", Rule: "two suites, or -o, or one that does not just compile", Quick: 1200, Thorough: 30000, Gen: genBuild, Check: checkBuild})
}

func checkBuild(c buildCase) vf.Outcome {
	top, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	if top, err = filepath.EvalSymlinks(top); err != nil {
		panic(err)
	}
	root, log := filepath.Join(top, "root"), filepath.Join(top, "log")
	write(log, "")
	write(filepath.Join(root, "go.mod"), "module example.com/m\n")
	for _, s := range c.Suites {
		dir := filepath.Join(root, s.Path)
		write(filepath.Join(dir, "p_test.go"), "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n")
		write(filepath.Join(dir, "how"), s.How+"\n")
		write(filepath.Join(dir, "ms"), fmt.Sprint(s.Ms))
		if s.Version != "" {
			write(filepath.Join(dir, "version"), "github.com/onsi/ginkgo/v2 "+s.Version+"\n")
		}
		if s.Old {
			write(filepath.Join(dir, s.name()+".test"), "old")
		}
	}
	if c.OExists {
		os.MkdirAll(filepath.Join(root, "bin"), 0o777)
		os.MkdirAll(filepath.Join(root, "x"), 0o777)
	}
	args := append([]string{"build"}, c.Flags...)
	if c.Compilers > 0 {
		args = append(args, fmt.Sprintf("--compilers=%d", c.Compilers))
	}
	if c.O != "" {
		args = append(args, "-o", c.O)
	}
	if c.Skip != "" {
		args = append(args, "--skip-package="+c.Skip)
	}
	suites := append([]built{}, c.Suites...)
	if c.Recurse {
		args = append(args, "-r")
		sort.Slice(suites, func(i, j int) bool {
			return slices.Compare(strings.Split(suites[i].Path, "/"), strings.Split(suites[j].Path, "/")) < 0
		})
	} else {
		for _, s := range suites {
			args = append(args, "./"+s.Path)
		}
	}
	suites = slices.DeleteFunc(suites, func(s built) bool { return c.Skip != "" && strings.Contains(s.Path, c.Skip) })
	before := files(root)
	out, errOut, exit, stuck := command(top, builderStub, log, args)
	out = ansi.ReplaceAllString(out, "")
	fail := func(format string, as ...any) vf.Outcome {
		return vf.Fail("ginkgo %q: %s\n--- output ---\n%s\n--- error output ---\n%s", args, fmt.Sprintf(format, as...), clip(out), clip(errOut))
	}
	if stuck != "" {
		return fail("%s", stuck)
	}

	// what has to be said, and what has to be there
	var said []string
	binaries, built := map[string]string{}, map[string]bool{}
	failed := 0
	mismatch := map[string][]string{}
	for _, s := range suites {
		binary := path.Join(s.Path, s.name()+".test")
		if c.O != "" {
			binary = path.Clean(c.O)
			if c.OExists || strings.HasSuffix(c.O, "/") {
				binary = path.Join(c.O, s.name()+".test")
			}
		}
		switch s.How {
		case "ok", "noisy":
			said = append(said, "Compiled "+binary)
			binaries[binary] = filepath.Join(root, s.Path)
			built[binary] = true
		case "broken", "silent", "lost":
			said = append(said, "Failed to compile "+s.name())
			failed++
		}
		if s.How == "noisy" && !strings.Contains(out, "mind the gap") {
			return fail("what go says when it compiles %s is not shown", s.Path)
		}
		if s.How == "broken" && !strings.Contains(out, s.name()+" does not compile") {
			return fail("what go says when it does not compile %s is not shown", s.Path)
		}
		if v := strings.TrimPrefix(strings.TrimSuffix(s.Version, "-0.20250101"), "v"); v == "2.1.3" || v == "1.99.0" {
			mismatch[v] = append(mismatch[v], s.name())
		}
	}
	var told []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "Compiled ") {
			told = append(told, "Compiled "+path.Clean(strings.TrimPrefix(l, "Compiled ")))
		}
		if strings.HasPrefix(l, "Failed to compile ") && l != "Failed to compile all tests" {
			told = append(told, strings.TrimSuffix(l, ":"))
		}
	}
	if !slices.Equal(told, said) {
		return fail("it says %q, want %q", told, said)
	}
	wantExit := 0
	if failed > 0 || len(suites) == 0 {
		wantExit = 1
	}
	if exit != wantExit {
		return fail("exit status %d, want %d", exit, wantExit)
	}
	if (failed > 0) != strings.Contains(out+errOut, "Failed to compile all tests") {
		return fail("it says, or does not say, that all tests failed to compile")
	}
	if (len(suites) == 0) != strings.Contains(out+errOut, "Found no test suites") {
		return fail("it says, or does not say, that there are no suites")
	}
	if (len(mismatch) > 0) != strings.Contains(out, "version mismatch") {
		return fail("the versions of Ginkgo differ: %v", mismatch)
	}
	for v, names := range mismatch {
		if !strings.Contains(out, v+" used by "+strings.Join(names, ", ")+"\n") {
			return fail("it does not say that %s is used by %s", v, names)
		}
	}
	after := files(root)
	for f := range before {
		if !after[f] {
			return fail("%s is gone", f)
		}
	}
	for f := range after {
		if !before[f] && !built[f] {
			return fail("%s is left behind", f)
		}
	}
	for f, from := range binaries {
		if text, err := os.ReadFile(filepath.Join(root, f)); err != nil || string(text) != from {
			return fail("%s is not the binary of %s: %q %v", f, from, text, err)
		}
	}

	// what go was told
	text, _ := os.ReadFile(log)
	open, first, compiled := 0, "", map[string]int{}
	limit := c.Compilers
	if limit == 0 {
		limit = 1 << 20
	}
	for _, l := range strings.Split(strings.TrimSpace(string(text)), "\n") {
		w := strings.Split(l, "\t")
		switch w[0] {
		case "begin":
			if first == "" {
				first = w[1]
			}
			if open++; open > limit {
				return fail("%d suites are compiled at once:\n%s", open, text)
			}
			compiled[w[1]]++
			have := strings.Fields(w[2])
			if len(have) < 3 || have[0] != "test" || have[1] != "-c" || have[2] != "./" {
				return fail("go is told %q", w[2])
			}
			if strings.Contains(w[2], "-w -s") {
				return fail("the symbols are stripped from the binary: %q", w[2])
			}
			for _, f := range c.Flags {
				if !strings.Contains(" "+w[2], " --"+strings.TrimLeft(f, "-")) {
					return fail("go is not told %q: %q", f, w[2])
				}
			}
		case "end":
			open--
		}
	}
	for _, s := range suites {
		if compiled[filepath.Join(root, s.Path)] != 1 {
			return fail("%s is compiled %d times", s.Path, compiled[filepath.Join(root, s.Path)])
		}
	}
	if len(compiled) != len(suites) {
		return fail("%v are compiled, want %v", compiled, suites)
	}
	o := vf.Outcome{NonTrivial: len(suites) > 1 || c.O != "" || len(suites) > 0 && suites[0].How != "ok", Classes: []string{fmt.Sprintf("%d suites", len(suites)), "-o " + c.O}}
	for _, s := range suites {
		o.Classes = append(o.Classes, s.How)
	}
	return o
}

// name is what the suite is called: the name of its directory.
func (s built) name() string {
	if s.Path == "." {
		return "root"
	}
	return path.Base(s.Path)
}
