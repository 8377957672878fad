// Package cli checks the ginkgo command as a whole: the real command runs generated suites, all of which are one compiled
// fixture that does what the case says. The go command is a stand-in that "compiles" by linking to the fixture.
package cli

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type spec struct {
	Text string
	Do   string // pass, fail, skip, panic, pending, exit0, exit1, kill
	On   int    // only on this run (from 1); 0: on all of them
	F    bool   // focused
	Ms   int
}

type behaviour struct {
	Name  string
	Plain bool // no Ginkgo suite
	Fail  int  // plain: fails on this run; -1 on all
	Specs []spec
}

type suite struct {
	Path        string
	Precompiled bool
	Build       int  // 0 compiles, 1 does not, 2 has no test files for go
	Int         bool // the command is interrupted while this is compiled
	B           behaviour
}

type runCase struct {
	Suites                         []suite
	Procs                          int
	KeepGoing, Randomize, Separate bool
	Repeat                         int
	UntilItFails                   bool
	Timeout                        int // 0 none, 1 has elapsed already, 2 far away
	JSON, JUnit, Teamcity, OutDir  bool
	FailOnPending, FailOnEmpty     bool
	FailFast, Serial1              bool
	Verbose                        int
	O                              bool // -o names a directory for the binaries
	Hook                           int  // --after-run-hook: 0 none, 1 succeeds, 2 fails, 3 is blank, 4 does not exist
}

const timeoutReason = "Suite did not run because the timeout elapsed"
const priorReason = "Suite did not run because prior suites failed and --keep-going is not set"
const emptyReason = "Suite did not run go test reported that no test files were found"

var paths = []string{"a", "b", "c d", "e/f", "g-h", "e/f/i", "j.k", "l_m"}

func genRun(t *rapid.T) runCase {
	c := runCase{Procs: 1, KeepGoing: vf.Pct(t, "keep going", 40), Randomize: vf.Pct(t, "randomize", 20), Separate: vf.Pct(t, "separate", 30),
		JSON: vf.Pct(t, "json", 60), JUnit: vf.Pct(t, "junit", 30), Teamcity: vf.Pct(t, "teamcity", 20), OutDir: vf.Pct(t, "outdir", 30),
		FailOnPending: vf.Pct(t, "fail on pending", 15), FailOnEmpty: vf.Pct(t, "fail on empty", 15), FailFast: vf.Pct(t, "fail fast", 15), Verbose: vf.U(t, "verbose", 4)}
	if vf.Pct(t, "parallel", 35) {
		c.Procs = vf.Range(t, "procs", 2, 3)
	}
	switch vf.U(t, "repetition", 5) {
	case 0:
		c.Repeat = vf.Range(t, "repeat", 1, 2)
	case 1:
		c.UntilItFails = true
	}
	if vf.Pct(t, "timeout", 12) {
		c.Timeout = vf.Range(t, "timeout", 1, 2)
	}
	c.O = vf.Pct(t, "o", 12)
	if vf.Pct(t, "hook", 25) {
		c.Hook = vf.Range(t, "which", 1, 4)
	}
	interrupted := vf.Pct(t, "interrupt", 6)
	where := append([]string{}, paths...)
	n := vf.Range(t, "suites", 1, 4)
	if n == 1 && vf.Pct(t, "here", 40) {
		where[0] = "."
	}
	for i := 0; i < n; i++ {
		k := vf.U(t, "path", len(where))
		if where[0] == "." {
			k = 0
		}
		s := suite{Path: where[k], Precompiled: vf.Pct(t, "precompiled", 25)}
		where = append(where[:k:k], where[k+1:]...)
		if !s.Precompiled {
			if vf.Pct(t, "build", 18) {
				s.Build = vf.Range(t, "how", 1, 2)
			}
			s.B.Plain = vf.Pct(t, "plain", 15)
			if interrupted {
				s.Int = vf.Pct(t, "here", 50)
				interrupted = !s.Int
			}
		}
		s.B.Name = fmt.Sprintf("suite %d", i)
		troubled := vf.Pct(t, "troubled", 40)
		if s.B.Plain {
			if troubled {
				s.B.Fail = vf.Pick(t, "fail", -1, 1, 2)
			}
		} else {
			for k := vf.U(t, "specs", 5); k > 0; k-- {
				p := spec{Text: fmt.Sprintf("spec-%d-%d", i, k), Do: vf.Pick(t, "do", "pass", "pass", "pass", "skip", "pending"), Ms: vf.Pick(t, "ms", 0, 0, 0, 20)}
				if troubled && vf.Pct(t, "trouble", 50) {
					p.Do = vf.Pick(t, "what", "fail", "fail", "fail", "panic", "panic", "exit0", "exit1", "kill")
					p.On = vf.Pick(t, "on", 0, 0, 1, 2, 3)
				}
				p.F = p.Do != "pending" && vf.Pct(t, "focus", 8)
				s.B.Specs = append(s.B.Specs, p)
			}
		}
		c.Suites = append(c.Suites, s)
	}
	if c.UntilItFails {
		if o := c.expect(); o.rounds > 3 {
			c.UntilItFails = false // it would never end
		}
	}
	return c
}

// what is known about a suite that has been run
type outcome struct {
	passed, focus, dies bool
	states              map[string]types.SpecState // of the specs, where known
}

func (c runCase) runOf(s suite, run int) outcome {
	o := outcome{passed: true, states: map[string]types.SpecState{}}
	if s.B.Plain {
		o.passed = s.B.Fail != -1 && s.B.Fail != run
		return o
	}
	left := 0
	for _, p := range s.B.Specs {
		o.focus = o.focus || p.F
	}
	for _, p := range s.B.Specs {
		switch {
		case p.Do == "pending":
			o.states[p.Text] = types.SpecStatePending
			o.passed = o.passed && !c.FailOnPending
			continue
		case o.focus && !p.F:
			o.states[p.Text] = types.SpecStateSkipped
			continue
		}
		left++
		o.states[p.Text] = types.SpecStatePassed
		if p.On != 0 && p.On != run {
			continue
		}
		switch p.Do {
		case "fail":
			o.states[p.Text] = types.SpecStateFailed
			o.passed = false
		case "panic", "exit0": // os.Exit(0) panics in a test
			o.states[p.Text] = types.SpecStatePanicked
			o.passed = false
		case "skip":
			o.states[p.Text] = types.SpecStateSkipped
		case "exit1", "kill":
			o.passed, o.dies = false, true
		}
	}
	if left == 0 && c.FailOnEmpty {
		o.passed = false
	}
	return o
}

type fate struct {
	how  string // ran, broken, empty, timeout, prior, unknown, or two of these if it can be either
	runs int
	last outcome
}

type expectation struct {
	exit   int
	rounds int
	fates  []fate
}

// expect says what is to happen if the suites are run in the order in which they are.
func (c runCase) expect() expectation {
	e := expectation{fates: make([]fate, len(c.Suites))}
	for _, s := range c.Suites {
		if s.Int { // suites are compiled ahead of being run, so the interrupt can come at any point
			for i := range e.fates {
				e.fates[i].how = "unknown"
			}
			e.exit = 1
			return e
		}
	}
	for {
		e.rounds++
		failed, late := false, false
		for i, s := range c.Suites {
			f := &e.fates[i]
			switch {
			case failed && !c.KeepGoing:
				f.how = "prior"
				if s.Build != 0 {
					f.how = "prior " + []string{"", "broken", "empty"}[s.Build] // whether it was compiled before the failure is a race
				}
			case s.Build != 0 && late:
				f.how = "timeout " + []string{"", "broken", "empty"}[s.Build] // as above
			case s.Build == 1:
				f.how, failed = "broken", true
			case s.Build == 2:
				f.how = "empty"
			case c.Timeout == 1:
				f.how, failed, late = "timeout", true, true
			default:
				f.how = "ran"
				f.runs++
				f.last = c.runOf(s, f.runs)
				failed = failed || !f.last.passed
			}
		}
		if failed {
			e.exit = 1
			return e
		}
		if !c.UntilItFails && e.rounds > c.Repeat || e.rounds > 3 {
			break
		}
	}
	for _, f := range e.fates {
		if f.how == "ran" && f.last.focus {
			e.exit = types.GINKGO_FOCUS_EXIT_CODE
		}
	}
	return e
}

const goStub = `#!/bin/sh
if [ "$1" = tool ]; then # go tool cover -func FILE
	awk 'NR > 1 { t += $2; if ($3 > 0) c += $2 } END { printf "total:\t(statements)\t%.1f%%\n", (t > 0 ? 100 * c / t : 0) }' "$4"
	exit
fi
[ "$1" = test ] || exit 1
for a; do case "$a" in --o=*|-o=*) out=${a#*=};; esac; done
echo "$*" >> compiled.log
if [ -f interrupt ]; then rm interrupt; kill -INT $PPID; sleep 0.4; fi
if [ -f broken ]; then echo "it does not compile"; exit 1; fi
if [ -f empty ]; then echo "?   	p	[no test files]"; exit 0; fi
mkdir -p "$(dirname "$out")"
ln -s "$VF_FIXTURE" "$out"
`

const hook = "sh ../hook (ginkgo-suite-passed) 'a (ginkgo-suite-name)  z'"

// the hook logs what it is given
const hookScript = `echo "$1" "$2" >> ../hook.log
echo "$1 hooked"
exit $3
`

func write(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o777); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o666); err != nil {
		panic(err)
	}
}

func (c runCase) args() (as []string) {
	on := func(b bool, a string) {
		if b {
			as = append(as, a)
		}
	}
	on(c.KeepGoing, "--keep-going")
	on(c.Randomize, "--randomize-suites")
	on(c.Separate, "--keep-separate-reports")
	on(c.JSON, "--json-report=r.json")
	on(c.JUnit, "--junit-report=r.xml")
	on(c.Teamcity, "--teamcity-report=r.tc")
	on(c.OutDir, "--output-dir=out/put")
	on(c.FailOnPending, "--fail-on-pending")
	on(c.FailOnEmpty, "--fail-on-empty")
	on(c.FailFast, "--fail-fast")
	on(c.O, "-o=bin/s/")
	on(c.Hook > 0, "--after-run-hook="+[]string{"", hook, hook + " 3", " ", "../nowhere (ginkgo-suite-name)"}[c.Hook])
	on(c.UntilItFails, "--until-it-fails")
	on(c.Repeat > 0, fmt.Sprintf("--repeat=%d", c.Repeat))
	on(c.Procs > 1, fmt.Sprintf("--procs=%d", c.Procs))
	on(c.Timeout == 1, "--timeout=1ns")
	on(c.Timeout == 2, "--timeout=1h")
	on(c.Verbose > 0, []string{"", "-v", "-vv", "--succinct"}[c.Verbose])
	as = append(as, "--no-color")
	for _, s := range c.Suites {
		if s.Precompiled {
			as = append(as, filepath.Join(s.Path, "pre.test"))
		} else {
			as = append(as, "./"+s.Path)
		}
	}
	return
}

// T06: what ginkgo runs, says and ends with is what the suites did.
func TestT06_run(t *testing.T) {
	vf.Run(t, vf.Prop[runCase]{ID: "T06", Sub: "run", Rule: "two suites or two rounds, and one that does not just pass", Quick: 1280, Thorough: 30000, Gen: genRun, Check: checkRun})
}

func checkRun(c runCase) vf.Outcome {
	top, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	root := filepath.Join(top, "root")
	for _, s := range c.Suites {
		s.put(root, os.Getenv("VF_FIXTURE"))
	}
	write(filepath.Join(top, "hook"), hookScript)
	before := files(root)
	out, errOut, exit, stuck := ginkgo(top, os.Getenv("VF_FIXTURE"), c.args())
	if stuck != "" {
		return vf.Fail("ginkgo %q %s: %s\n%s", c.args(), stuck, clip(out), clip(errOut))
	}
	if err := c.judge(root, before, exit, out); err != nil {
		return vf.Fail("ginkgo %q: %s\n--- output ---\n%s\n--- error output ---\n%s", c.args(), err, clip(out), clip(errOut))
	}
	e := c.expect()
	o := vf.Outcome{NonTrivial: (len(c.Suites) > 1 || e.rounds > 1) && (e.exit != 0 || c.JSON || c.JUnit || c.Teamcity), Classes: []string{fmt.Sprintf("exit %d", e.exit), fmt.Sprintf("rounds %d", e.rounds)}}
	if c.Procs > 1 {
		o.Classes = append(o.Classes, "parallel")
	}
	if c.O {
		o.Classes = append(o.Classes, "-o")
	}
	return o
}

// put lays out the suite in root.
func (s suite) put(root, fixture string) {
	dir := filepath.Join(root, s.Path)
	b, _ := json.Marshal(s.B)
	write(filepath.Join(dir, "behaviour.json"), string(b))
	if s.Precompiled {
		if err := os.Symlink(fixture, filepath.Join(dir, "pre.test")); err != nil {
			panic(err)
		}
		return
	}
	text := "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"
	if s.B.Plain {
		text = "package p\n"
	}
	write(filepath.Join(dir, "p_test.go"), text)
	for f, on := range map[string]bool{"broken": s.Build == 1, "empty": s.Build == 2, "interrupt": s.Int} {
		if on {
			write(filepath.Join(dir, f), "")
		}
	}
}

// ginkgo runs the command in top/root, with the stand-in for go.
func ginkgo(top, fixture string, args []string) (stdout, stderr string, exit int, stuck string) {
	return command(top, goStub, fixture, args)
}

func command(top, stub, fixture string, args []string) (stdout, stderr string, exit int, stuck string) {
	write(filepath.Join(top, "bin", "go"), stub)
	os.Chmod(filepath.Join(top, "bin", "go"), 0o777)
	cmd := exec.Command(os.Getenv("VF_GINKGO"), args...)
	cmd.Dir = filepath.Join(top, "root")
	cmd.Env = append(os.Environ(), "PATH="+filepath.Join(top, "bin")+":"+os.Getenv("PATH"), "VF_FIXTURE="+fixture)
	var out, errOut bounded
	cmd.Stdout, cmd.Stderr = &out, &errOut
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	out.full = func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	errOut.full = out.full
	timer := time.AfterFunc(60*time.Second, out.full)
	cmd.Wait()
	stdout, stderr, exit = out.String(), errOut.String(), cmd.ProcessState.ExitCode()
	if !timer.Stop() {
		stuck = "does not end"
		return
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if out.Len() > outputLimit || errOut.Len() > outputLimit {
		stuck = "prints on and on"
	}
	return
}

const outputLimit = 1 << 20

type bounded struct {
	bytes.Buffer
	full func()
}

func (b *bounded) Write(p []byte) (int, error) {
	if b.Len() > outputLimit {
		b.full()
		return len(p), nil
	}
	return b.Buffer.Write(p)
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:2000] + "\n...\n" + s[len(s)-2000:]
	}
	return s
}

func files(root string) map[string]bool {
	out := map[string]bool{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			rel, _ := filepath.Rel(root, p)
			out[rel] = true
		}
		return nil
	})
	return out
}

// runsOf reads the log of a suite: how often each process ran, and which specs ran in the last run.
func runsOf(dir string) (runs map[int]int, ran map[string]int, run int) {
	runs, ran = map[int]int{}, map[string]int{}
	b, _ := os.ReadFile(filepath.Join(dir, "ran.log"))
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.Fields(l)
		if len(w) == 2 && w[0] == "run" {
			p, _ := strconv.Atoi(w[1])
			runs[p]++
		}
		if len(w) == 4 && w[0] == "spec" {
			n, _ := strconv.Atoi(w[1])
			if n > run {
				run, ran = n, map[string]int{}
			}
			ran[w[2]]++
		}
	}
	return
}

func (c runCase) judge(root string, before map[string]bool, exit int, out string) error {
	interrupted := false
	for _, s := range c.Suites {
		interrupted = interrupted || s.Int
	}
	// in which order the suites ran matters only to what --keep-going decides; with --randomize-suites every order is right
	orders := []runCase{c}
	if c.Randomize && len(c.Suites) > 1 {
		if interrupted {
			return nil
		}
		orders = nil
		permute(c.Suites, func(ss []suite) {
			d := c
			d.Suites = append([]suite{}, ss...)
			orders = append(orders, d)
		})
	}
	var err error
	for _, d := range orders {
		if d.UntilItFails && d.expect().rounds > 3 {
			continue
		}
		if err = d.judgeOrder(root, before, exit, out); err == nil {
			return nil
		}
	}
	return err
}

func permute(ss []suite, f func([]suite)) {
	var rec func(k int)
	ss = append([]suite{}, ss...)
	rec = func(k int) {
		if k == len(ss) {
			f(ss)
			return
		}
		for i := k; i < len(ss); i++ {
			ss[k], ss[i] = ss[i], ss[k]
			rec(k + 1)
			ss[k], ss[i] = ss[i], ss[k]
		}
	}
	rec(0)
}

func (c runCase) judgeOrder(root string, before map[string]bool, exit int, out string) error {
	e := c.expect()
	if exit != e.exit {
		return fmt.Errorf("exit status %d, want %d", exit, e.exit)
	}
	verdict := "Test Suite Passed"
	if e.exit == 1 {
		verdict = "Test Suite Failed"
	}
	if strings.Count(out, "Test Suite Passed")+strings.Count(out, "Test Suite Failed") < 1 || !strings.Contains(out, verdict+"\n") {
		return fmt.Errorf("the output does not say %q", verdict)
	}
	if !strings.Contains(out, fmt.Sprintf("Ginkgo ran %d suite", len(c.Suites))) {
		return fmt.Errorf("the output does not say that ginkgo ran %d suites", len(c.Suites))
	}
	var failing [][]string // the lines that may stand for a suite; "" for none
	unknown := false
	for i, s := range c.Suites {
		f := e.fates[i]
		unknown = unknown || f.how == "unknown"
		dir := filepath.Join(root, s.Path)
		runs, ran, run := runsOf(dir)
		want := map[int]int{}
		if f.runs > 0 {
			for p := 1; p <= c.Procs && !s.B.Plain; p++ {
				want[p] = f.runs
			}
			if s.B.Plain {
				want[0] = f.runs
			}
		}
		if f.how == "unknown" {
			continue
		}
		if fmt.Sprint(runs) != fmt.Sprint(want) && !(f.last.dies && c.Procs > 1) {
			return fmt.Errorf("%s: the processes ran it %v times, want %v", s.Path, runs, want)
		}
		if f.how == "ran" && !s.B.Plain && run > f.runs {
			return fmt.Errorf("%s: ran %d times, want %d", s.Path, run, f.runs)
		}
		if f.how == "ran" && run == f.runs {
			for _, p := range s.B.Specs {
				st := f.last.states[p.Text]
				runnable := st != types.SpecStatePending && !(f.last.focus && !p.F)
				n := ran[p.Text]
				if n > 1 || n == 1 && !runnable || n == 0 && runnable && !f.last.dies && !(c.FailFast && !f.last.passed) {
					return fmt.Errorf("%s: %s ran %d times", s.Path, p.Text, n)
				}
			}
		}
		name := filepath.Base(dir)
		if s.Precompiled {
			name = "pre"
		}
		name += " " + shown(s.Path)
		var lines []string
		for _, how := range strings.Fields(f.how) {
			switch {
			case how == "broken":
				lines = append(lines, name+" [Compilation failure]")
			case how == "timeout":
				lines = append(lines, name+" ["+timeoutReason+"]")
			case how == "ran" && !f.last.passed:
				lines = append(lines, name)
			default:
				lines = append(lines, "")
			}
		}
		failing = append(failing, lines)
		if f.how == "broken" && !strings.Contains(out, "it does not compile") {
			return fmt.Errorf("%s: the compile error is not shown", s.Path)
		}
	}
	if len(c.Suites) > 1 && !unknown {
		var got []string
		if _, after, ok := strings.Cut(out, "There were failures detected in the following suites:\n"); ok {
			for _, l := range strings.Split(after, "\n") {
				if l == "" {
					break
				}
				got = append(got, strings.TrimSpace(l))
			}
		}
		left := got
		for i, lines := range failing {
			found := false
			for _, l := range lines {
				if found = l != "" && len(left) > 0 && left[0] == l; found {
					left = left[1:]
					break
				}
			}
			if !found && !slices.Contains(lines, "") {
				return fmt.Errorf("failing suites: %q, want %q at %d", got, lines, i)
			}
		}
		if len(left) > 0 {
			return fmt.Errorf("failing suites: %q, want only %q", got, failing)
		}
	}
	if unknown {
		return nil
	}
	if err := c.judgeHooks(root, out, e); err != nil {
		return err
	}
	return c.judgeFiles(root, before, e)
}

// judgeHooks: the hook has run once after every run of a suite, and knows how it went.
func (c runCase) judgeHooks(root, out string, e expectation) error {
	var want []string
	for i, s := range c.Suites {
		f := e.fates[i]
		name := filepath.Base(filepath.Join(root, s.Path))
		if s.Precompiled {
			name = "pre"
		}
		for k := 1; k <= f.runs; k++ {
			verdict := "[PASS]"
			if k == f.runs && !f.last.passed {
				verdict = "[FAIL]"
			}
			want = append(want, verdict+" 'a "+name+"  z'")
		}
	}
	bad := len(want)
	switch c.Hook {
	case 0, 3:
		want, bad = nil, 0
	case 1:
		bad = 0
	case 4:
		want = nil
	}
	text, _ := os.ReadFile(filepath.Join(root, "..", "hook.log"))
	var got []string
	for _, l := range strings.Split(string(text), "\n") {
		if l != "" {
			got = append(got, l)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if !slices.Equal(got, want) {
		return fmt.Errorf("the hook was run as %q, want %q", got, want)
	}
	if n := strings.Count(out, "After-run-hook failed:"); n != bad {
		return fmt.Errorf("it says %d times that the hook failed, want %d", n, bad)
	}
	if n := strings.Count(out, "] hooked"); n != len(want) {
		return fmt.Errorf("it shows the output of %d hooks, want %d", n, len(want))
	}
	return nil
}

func shown(p string) string {
	if p == "." {
		return "."
	}
	return "./" + p
}

func (c runCase) judgeFiles(root string, before map[string]bool, e expectation) error {
	after := files(root)
	outDir := "."
	if c.OutDir {
		outDir = "out/put"
	}
	allowed := map[string]bool{}
	for _, format := range []string{"r.json", "r.xml", "r.tc"} {
		if !map[string]bool{"r.json": c.JSON, "r.xml": c.JUnit, "r.tc": c.Teamcity}[format] {
			continue
		}
		var wanted []int // the suites that have a report
		maybe := map[int]bool{}
		for i, s := range c.Suites {
			if s.B.Plain {
				continue
			}
			wanted = append(wanted, i)
			maybe[i] = e.fates[i].how == "ran" && e.fates[i].last.dies
		}
		if c.Separate {
			for _, i := range wanted {
				s := c.Suites[i]
				f := filepath.Join(s.Path, format)
				if c.OutDir {
					name := strings.NewReplacer("/", "_", " ", "_").Replace(s.Path)
					if s.Path == "." {
						name = "root"
						if s.Precompiled {
							name = "pre"
						}
					}
					f = filepath.Join(outDir, name+"_"+format)
				}
				allowed[f] = true
				if !after[f] {
					if maybe[i] {
						continue
					}
					return fmt.Errorf("%s is missing, the files are %v", f, keys(after))
				}
				if err := c.report(root, f, []int{i}, maybe, e); err != nil {
					return fmt.Errorf("%s: %w", f, err)
				}
			}
			continue
		}
		f := filepath.Join(outDir, format)
		allowed[f] = true
		if !after[f] {
			return fmt.Errorf("%s is missing, the files are %v", f, keys(after))
		}
		if err := c.report(root, f, wanted, maybe, e); err != nil {
			return fmt.Errorf("%s: %w", f, err)
		}
	}
	for f := range after {
		if base := filepath.Base(f); !before[f] && !allowed[f] && base != "ran.log" && base != "compiled.log" {
			return fmt.Errorf("%s is left behind", f)
		}
	}
	for f := range before {
		if !after[f] && filepath.Base(f) != "interrupt" {
			return fmt.Errorf("%s is gone", f)
		}
	}
	return nil
}

func keys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// report reads a report file: it must have the suites asked for, in order, as they were.
func (c runCase) report(root, file string, want []int, maybe map[int]bool, e expectation) error {
	data, err := os.ReadFile(filepath.Join(root, file))
	if err != nil {
		return err
	}
	switch filepath.Ext(file) {
	case ".json":
		var rs []types.Report
		if err := json.Unmarshal(data, &rs); err != nil {
			return err
		}
		k := 0
		for _, i := range want {
			s, f := c.Suites[i], e.fates[i]
			if k >= len(rs) || rs[k].SuitePath != filepath.Join(root, s.Path) {
				if maybe[i] {
					continue
				}
				return fmt.Errorf("no report of %s in its place (%d of %d)", s.Path, k, len(rs))
			}
			r := rs[k]
			k++
			if f.how != "ran" {
				good := false
				for _, how := range strings.Fields(f.how) {
					reason := map[string]string{"broken": "it does not compile", "timeout": timeoutReason, "prior": priorReason, "empty": emptyReason}[how]
					good = good || r.SuiteSucceeded == (how == "empty") && len(r.SpecialSuiteFailureReasons) == 1 && strings.Contains(r.SpecialSuiteFailureReasons[0], reason) && len(r.SpecReports) == 0
				}
				if !good {
					return fmt.Errorf("%s: reported as %v %q with %d specs, want %s", s.Path, r.SuiteSucceeded, r.SpecialSuiteFailureReasons, len(r.SpecReports), f.how)
				}
				continue
			}
			if f.last.dies {
				if r.SuiteSucceeded {
					return fmt.Errorf("%s: reported as passed", s.Path)
				}
				continue
			}
			if r.SuiteSucceeded != f.last.passed || r.SuiteDescription != s.B.Name || r.SuiteConfig.ParallelTotal != c.Procs || r.SuiteHasProgrammaticFocus != f.last.focus {
				return fmt.Errorf("%s: reported as %q, passed %v, focus %v, procs %d", s.Path, r.SuiteDescription, r.SuiteSucceeded, r.SuiteHasProgrammaticFocus, r.SuiteConfig.ParallelTotal)
			}
			seen := map[string]bool{}
			for _, sr := range r.SpecReports {
				if sr.LeafNodeType != types.NodeTypeIt {
					continue
				}
				if seen[sr.LeafNodeText] {
					return fmt.Errorf("%s: %s is reported twice", s.Path, sr.LeafNodeText)
				}
				seen[sr.LeafNodeText] = true
				st, ok := f.last.states[sr.LeafNodeText]
				if !ok || sr.State != st && !(c.FailFast && !f.last.passed && sr.State == types.SpecStateSkipped) {
					return fmt.Errorf("%s: %s is reported as %s, want %s", s.Path, sr.LeafNodeText, sr.State, st)
				}
			}
			if len(seen) != len(s.B.Specs) {
				return fmt.Errorf("%s: %d specs are reported, want %d", s.Path, len(seen), len(s.B.Specs))
			}
		}
		if k != len(rs) {
			return fmt.Errorf("%d suites are reported, want %d", len(rs), k)
		}
	case ".xml":
		var doc struct {
			XMLName xml.Name `xml:"testsuites"`
			Suites  []struct {
				Package string `xml:"package,attr"`
				Cases   []struct {
					Name string `xml:"name,attr"`
				} `xml:"testcase"`
			} `xml:"testsuite"`
		}
		if err := xml.Unmarshal(data, &doc); err != nil {
			return err
		}
		k := 0
		for _, i := range want {
			s, f := c.Suites[i], e.fates[i]
			if k >= len(doc.Suites) || doc.Suites[k].Package != filepath.Join(root, s.Path) {
				if maybe[i] {
					continue
				}
				return fmt.Errorf("no report of %s in its place", s.Path)
			}
			n := 0
			for _, tc := range doc.Suites[k].Cases {
				if strings.HasPrefix(tc.Name, "[It] ") {
					n++
				}
			}
			if f.how == "ran" && !f.last.dies && n != len(s.B.Specs) || f.how != "ran" && n != 0 {
				return fmt.Errorf("%s: %d specs are reported, want %d", s.Path, n, len(s.B.Specs))
			}
			k++
		}
		if k != len(doc.Suites) {
			return fmt.Errorf("%d suites are reported, want %d", len(doc.Suites), k)
		}
	case ".tc":
		started, finished := strings.Count(string(data), "##teamcity[testSuiteStarted "), strings.Count(string(data), "##teamcity[testSuiteFinished ")
		least := 0
		for _, i := range want {
			if !maybe[i] {
				least++
			}
		}
		if started != finished || started < least || started > len(want) {
			return fmt.Errorf("%d suites are started and %d finished, want %d", started, finished, len(want))
		}
	}
	return nil
}
