// Package entry checks RunSpecs: that the suite runs as it is configured, and that what comes of it is what it reports.
package entry

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	. "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type rspec struct {
	Text   string
	Labels []string
	Kind   string // pass, fail, panic, pending, skip
	Focus  bool
}

type rcase struct {
	Specs  []rspec
	Flags  []string // settings made on the command line
	Suite  []string // settings made in the SuiteConfig that is passed
	Report []string // settings made in the ReporterConfig that is passed
	Args   []string // what is passed to RunSpecs
	Before bool     // PreviewSpecs is called before RunSpecs
	After  bool     // and after it
	Twice  bool     // RunSpecs is called twice
	Only   bool     // PreviewSpecs is called in lieu of RunSpecs
	Env    string   // GINKGO_EDITOR_INTEGRATION
	Editor bool     // it is set
}

// what the child has seen
type seen struct {
	Ran      []string
	Conf     *types.SuiteConfig
	Rep      *types.ReporterConfig
	Seed     int64
	Process  int
	Filter   string
	Report   *types.Report
	Preview  []types.Report
	Returned []bool
	Fails    int
	Left     []string // what of the configuration previews have left behind
	Again    bool     // RunSpecs was called again
	Came     bool     // back from it
}

const description = "Entry suite"

type counting struct{ n int }

func (c *counting) Fail() { c.n++ }

// set makes a setting.
func set(s *types.SuiteConfig, r *types.ReporterConfig, setting string) {
	k, v, _ := strings.Cut(setting, "=")
	n, _ := strconv.Atoi(v)
	switch k {
	case "label-filter":
		s.LabelFilter = v
	case "focus":
		s.FocusStrings = append(s.FocusStrings[:len(s.FocusStrings):len(s.FocusStrings)], v)
	case "skip":
		s.SkipStrings = append(s.SkipStrings[:len(s.SkipStrings):len(s.SkipStrings)], v)
	case "seed":
		s.RandomSeed = int64(n)
	case "dry-run":
		s.DryRun = true
	case "fail-on-pending":
		s.FailOnPending = true
	case "fail-on-empty":
		s.FailOnEmpty = true
	case "fail-fast":
		s.FailFast = true
	case "randomize-all":
		s.RandomizeAllSpecs = true
	case "grace-period":
		s.GracePeriod, _ = time.ParseDuration(v)
	case "output-interceptor-mode":
		s.OutputInterceptorMode = v
	case "focus-file":
		s.FocusFiles = append(s.FocusFiles[:len(s.FocusFiles):len(s.FocusFiles)], v)
	case "parallel.total":
		s.ParallelTotal = n
	case "parallel.process":
		s.ParallelProcess = n
	case "parallel.host":
		s.ParallelHost = v
	case "v":
		r.Verbose = true
	case "vv":
		r.VeryVerbose = true
	case "succinct":
		r.Succinct = true
	case "no-color":
		r.NoColor = true
	case "trace":
		r.FullTrace = true
	case "json-report":
		r.JSONReport = v
	default:
		panic(setting)
	}
}

var filters = map[string]func(l map[string]bool) bool{
	"":           func(l map[string]bool) bool { return true },
	"a":          func(l map[string]bool) bool { return l["a"] },
	"!a":         func(l map[string]bool) bool { return !l["a"] },
	"a || b":     func(l map[string]bool) bool { return l["a"] || l["b"] },
	"a && (b,c)": func(l map[string]bool) bool { return l["a"] && (l["b"] || l["c"]) },
	"/^[bc]$/":   func(l map[string]bool) bool { return l["b"] || l["c"] },
}

func genSetting(t *rapid.T, reporter bool) string {
	if reporter {
		return vf.Pick(t, "setting", "v", "vv", "succinct", "no-color", "trace", "json-report=out.json", "no-color", "json-report=dir/out.json")
	}
	switch s := vf.Pick(t, "setting", "label-filter=", "label-filter=", "focus=", "focus=", "skip=", "seed=", "seed=", "dry-run", "fail-on-pending", "fail-on-empty", "fail-fast", "randomize-all", "grace-period=1m", "output-interceptor-mode=Swap", "bad"); s {
	case "label-filter=":
		return s + vf.Pick(t, "filter", "", "a", "!a", "a || b", "a && (b,c)", "/^[bc]$/")
	case "focus=", "skip=":
		return s + vf.Pick(t, "regexp", "red", "green", "spec [02]", "Entry", "^Entry suite top red", "nothing", "spec 1$", "")
	case "seed=":
		return s + strconv.Itoa(vf.Range(t, "seed", 1, 1000))
	case "bad":
		if vf.Pct(t, "really", 50) {
			return "seed=5"
		}
		return vf.Pick(t, "bad", "label-filter=(a", "label-filter=%d &", "grace-period=0s", "output-interceptor-mode=50%s", "focus-file=", "parallel.total=0", "parallel.process=2")
	default:
		return s
	}
}

// wrong is true of settings that are rejected; the text is in the message.
func wrong(s types.SuiteConfig, r types.ReporterConfig) (texts []string) {
	if s.ParallelTotal < 1 {
		texts = append(texts, "parallel.total must be >= 1")
	}
	if s.ParallelTotal > 1 && s.ParallelHost == "" {
		texts = append(texts, "parallel.host is missing")
	}
	if s.ParallelProcess > s.ParallelTotal {
		texts = append(texts, "parallel.process is one-indexed and must be <= ginkgo.parallel.total")
	}
	if s.GracePeriod <= 0 {
		texts = append(texts, "Ginkgo requires a positive --grace-period")
	}
	if len(s.FocusFiles) > 0 {
		texts = append(texts, "Invalid File Filter")
	}
	if _, ok := filters[s.LabelFilter]; !ok {
		texts = append(texts, s.LabelFilter)
	}
	if m := s.OutputInterceptorMode; m != "" && m != "Swap" {
		texts = append(texts, m)
	}
	if s.DryRun && s.ParallelTotal > 1 {
		texts = append(texts, "only performs -dryRun in serial mode")
	}
	n := 0
	for _, b := range []bool{r.Succinct, r.Verbose, r.VeryVerbose} {
		if b {
			n++
		}
	}
	if n > 1 {
		texts = append(texts, "Conflicting reporter verbosity settings")
	}
	return
}

func genRcase(t *rapid.T) rcase {
	c := rcase{}
	for i := vf.U(t, "specs", 5); i > 0; i-- {
		s := rspec{Text: vf.Pick(t, "text", "red", "green", "blue"), Kind: vf.Pick(t, "kind", "pass", "pass", "pass", "pass", "pass", "fail", "panic", "pending", "skip"), Focus: vf.Pct(t, "focus", 12)}
		for _, l := range []string{"a", "b", "c"} {
			if vf.Pct(t, "label", 35) {
				s.Labels = append(s.Labels, l)
			}
		}
		if s.Kind == "pending" {
			s.Focus = false
		}
		c.Specs = append(c.Specs, s)
	}
	for i := vf.U(t, "flags", 3); i > 0; i-- {
		c.Flags = append(c.Flags, genSetting(t, vf.Pct(t, "reporter", 30)))
	}
	if vf.Pct(t, "suite configuration", 50) {
		c.Args = append(c.Args, "suite")
		for i := vf.U(t, "settings", 3); i > 0; i-- {
			c.Suite = append(c.Suite, genSetting(t, false))
		}
	}
	if vf.Pct(t, "reporter configuration", 40) {
		c.Args = append(c.Args, "reporter")
		for i := vf.U(t, "settings", 3); i > 0; i-- {
			c.Report = append(c.Report, genSetting(t, true))
		}
	}
	for i := vf.U(t, "labels", 3); i > 0; i-- {
		c.Args = append(c.Args, "label "+vf.Pick(t, "labels", "a", "b c", "c", "s", "", "s a"))
	}
	if vf.Pct(t, "unknown", 6) {
		c.Args = append(c.Args, vf.Pick(t, "unknown", "int", "string", "nil", "pointer", "focus"))
	}
	for i := range c.Args {
		j := i + vf.U(t, "order", len(c.Args)-i)
		c.Args[i], c.Args[j] = c.Args[j], c.Args[i]
	}
	c.Before, c.After, c.Twice = vf.Pct(t, "before", 25), vf.Pct(t, "after", 15), vf.Pct(t, "twice", 8)
	c.Env = vf.Pick(t, "editor", "", "", "", "true", "1", "vscode", " ")
	c.Editor = strings.TrimSpace(c.Env) != ""
	if vf.Pct(t, "in lieu", 12) {
		c.Only, c.After, c.Twice = true, false, false
		c.Before = true
		for i := vf.U(t, "processes", 3); i > 0; i-- {
			c.Flags = append(c.Flags, vf.Pick(t, "process", "parallel.total=2", "parallel.total=3", "parallel.process=2"))
		}
		if vf.Pct(t, "host", 80) {
			c.Flags = append(c.Flags, "parallel.host=127.0.0.1:1")
		}
	}
	return c
}

// the child: a suite in a process of its own
func TestChild(t *testing.T) {
	in := os.Getenv("VF_ENTRY")
	if in == "" {
		t.Skip()
	}
	var c rcase
	if err := json.Unmarshal([]byte(in), &c); err != nil {
		t.Fatal(err)
	}
	var s seen
	tt := &counting{}
	previewing := false
	save := func() {
		s.Fails = tt.n
		b, err := json.Marshal(s)
		if err == nil {
			err = os.WriteFile("seen.json", b, 0o644)
		}
		if err != nil {
			panic(err)
		}
	}
	Describe("top", func() {
		for i, sp := range c.Specs {
			name := fmt.Sprintf("%s spec %d", sp.Text, i)
			args := []any{Label(sp.Labels...), func() {
				s.Ran = append(s.Ran, name)
				conf, rep := GinkgoConfiguration()
				s.Conf, s.Rep, s.Seed, s.Process, s.Filter = &conf, &rep, GinkgoRandomSeed(), GinkgoParallelProcess(), GinkgoLabelFilter()
				switch sp.Kind {
				case "fail":
					Fail("on purpose")
				case "panic":
					panic("on purpose")
				case "skip":
					Skip("on purpose")
				}
			}}
			if sp.Kind == "pending" {
				args = append(args, Pending)
			}
			if sp.Focus {
				args = append(args, Focus)
			}
			It(name, args...)
		}
	})
	ReportAfterSuite("keep", func(r Report) {
		if !previewing {
			s.Report = &r
			save()
		}
	})
	args := func() (args []any) {
		conf, rep := GinkgoConfiguration()
		for _, x := range c.Suite {
			set(&conf, &rep, x)
		}
		for _, x := range c.Report {
			set(&conf, &rep, x)
		}
		for _, a := range c.Args {
			k, v, _ := strings.Cut(a, " ")
			switch k {
			case "suite":
				args = append(args, conf)
			case "reporter":
				args = append(args, rep)
			case "label":
				args = append(args, Label(strings.Fields(v)...))
			case "int":
				args = append(args, 3)
			case "string":
				args = append(args, "a")
			case "nil":
				args = append(args, nil)
			case "pointer":
				args = append(args, &conf)
			case "focus":
				args = append(args, Focus)
			}
		}
		return
	}()
	preview := func() {
		previewing = true
		s.Preview = append(s.Preview, PreviewSpecs(description, args...))
		previewing = false
		conf, _ := GinkgoConfiguration()
		s.Left = append(s.Left, fmt.Sprintf("dry-run=%v process %d of %d", conf.DryRun, conf.ParallelProcess, conf.ParallelTotal))
		save()
	}
	save()
	if c.Before {
		preview()
	}
	if c.Only {
		return
	}
	s.Returned = append(s.Returned, RunSpecs(tt, description, args...))
	save()
	if c.After {
		preview()
	}
	if c.Twice {
		s.Again = true
		save()
		RunSpecs(tt, description, args...)
		s.Came = true
		save()
	}
}

// C08: RunSpecs runs the suite as configured, and the process tells what came of it.
func TestC08_runspecs(t *testing.T) {
	vf.Run(t, vf.Prop[rcase]{ID: "C08", Sub: "runspecs", Rule: "specs run with a configuration, or labels, of their own; or what is passed is rejected", Quick: 4800, Thorough: 150000,
		Gen:   genRcase,
		Check: checkRunSpecs})
}

func checkRunSpecs(c rcase) vf.Outcome {
	dir, err := os.MkdirTemp("", "ventry")
	if err != nil {
		return vf.Outcome{}
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	exe, err := os.Executable()
	if err != nil {
		return vf.Outcome{}
	}
	in, _ := json.Marshal(c)
	args := []string{"-test.run=^TestChild$"}
	for _, f := range c.Flags {
		args = append(args, "--ginkgo."+f)
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GINKGO_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VF_ENTRY="+string(in), "PWD="+dir)
	if c.Env != "" {
		cmd.Env = append(cmd.Env, "GINKGO_EDITOR_INTEGRATION="+c.Env)
	}
	out := &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = out, out
	if err := cmd.Start(); err != nil {
		return vf.Outcome{}
	}
	kill := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !kill.Stop() {
		return vf.Outcome{}
	}
	code := cmd.ProcessState.ExitCode()
	var s seen
	b, _ := os.ReadFile(filepath.Join(dir, "seen.json"))
	json.Unmarshal(b, &s)
	// messages are wrapped
	ansi := regexp.MustCompile("\x1b\\[[0-9;]*m")
	text := strings.Join(strings.Fields(ansi.ReplaceAllString(out.String(), "")), " ")
	told := func(what string) bool { return strings.Contains(text, what) }
	fail := func(format string, args ...any) vf.Outcome {
		text := out.String()
		if len(text) > 4000 {
			text = text[:4000]
		}
		return vf.Fail("%s: %s\nexit code %d, ran %q, returned %v, t.Fail called %d times\n%s", in, fmt.Sprintf(format, args...), code, s.Ran, s.Returned, s.Fails, text)
	}

	// the configuration that applies
	conf, rep := types.NewDefaultSuiteConfig(), types.NewDefaultReporterConfig()
	for _, f := range c.Flags {
		set(&conf, &rep, f)
	}
	given, givenRep := conf, rep
	for _, x := range c.Suite {
		set(&given, &givenRep, x)
	}
	for _, x := range c.Report {
		set(&given, &givenRep, x)
	}
	unknown, labels := false, []string{}
	for _, a := range c.Args {
		k, v, _ := strings.Cut(a, " ")
		switch k {
		case "suite":
			conf = given
		case "reporter":
			rep = givenRep
		case "label":
			labels = append(labels, strings.Fields(v)...)
		default:
			unknown = true
		}
	}
	bad := wrong(conf, rep)
	if unknown {
		bad = []string{"passed to RunSpecs"}
	}
	if len(bad) > 0 {
		if code != 1 || len(s.Ran) > 0 || len(s.Returned) > 0 || s.Report != nil || len(s.Preview) > 0 {
			return fail("want it to be rejected: %q", bad)
		}
		for _, b := range bad {
			if !told(b) {
				return fail("want to be told %q", b)
			}
		}
		return vf.Outcome{NonTrivial: true, Classes: []string{"rejected"}}
	}

	// the specs that are to run
	anyFocus, anyPending := false, false
	for _, sp := range c.Specs {
		anyFocus = anyFocus || sp.Focus
		anyPending = anyPending || sp.Kind == "pending"
	}
	var chosen []int
	states := make([]string, len(c.Specs))
	for i, sp := range c.Specs {
		if sp.Kind == "pending" {
			states[i] = "pending"
			continue
		}
		states[i] = "skipped"
		l := map[string]bool{}
		for _, x := range append(append([]string{}, labels...), sp.Labels...) {
			l[x] = true
		}
		text := fmt.Sprintf("%s top %s spec %d", description, sp.Text, i)
		matches := func(res []string) bool { return regexp.MustCompile(strings.Join(res, "|")).MatchString(text) }
		if anyFocus && !sp.Focus || !filters[conf.LabelFilter](l) ||
			strings.Join(conf.FocusStrings, "|") != "" && !matches(conf.FocusStrings) ||
			strings.Join(conf.SkipStrings, "|") != "" && matches(conf.SkipStrings) {
			continue
		}
		chosen = append(chosen, i)
		states[i] = map[string]string{"pass": "passed", "fail": "failed", "panic": "panicked", "skip": "skipped"}[sp.Kind]
		if conf.DryRun {
			states[i] = "passed"
		}
	}
	previewed := append([]string{}, states...)
	for _, i := range chosen {
		previewed[i] = "passed"
	}
	passed := !(conf.FailOnPending && anyPending) && !(conf.FailOnEmpty && len(chosen) == 0)
	var ran []string
	for _, i := range chosen {
		if !conf.DryRun && !c.Only {
			ran = append(ran, fmt.Sprintf("%s spec %d", c.Specs[i].Text, i))
			passed = passed && states[i] != "failed" && states[i] != "panicked"
		}
	}
	got := append([]string{}, s.Ran...)
	sort.Slice(got, func(i, j int) bool { return got[i][len(got[i])-1] < got[j][len(got[j])-1] })
	if conf.FailFast && !passed { // which of them have run depends on the order
		has := map[string]bool{}
		for _, r := range ran {
			has[r] = true
		}
		for i, g := range got {
			if !has[g] || i > 0 && got[i-1] == g {
				return fail("want to run none but %q, once", ran)
			}
		}
	} else if strings.Join(got, ",") != strings.Join(ran, ",") {
		return fail("want to run %q", ran)
	}
	focused := passed && anyFocus && !c.Editor && !c.Only
	switch {
	case c.Only && (code != 0 || len(s.Ran) > 0 || s.Report != nil || s.Fails > 0):
		return fail("want a preview and nothing else")
	case focused && (code != types.GINKGO_FOCUS_EXIT_CODE || len(s.Returned) > 0 || s.Fails > 0 || !strings.Contains(out.String(), "PASS | FOCUSED")):
		return fail("want the exit code of a suite that passes and is focused")
	case !focused && strings.Contains(out.String(), "PASS | FOCUSED"):
		return fail("it does not pass with focus")
	case !focused && c.Twice && (code != 1 || !s.Again || s.Came || !told("Ginkgo does not support rerunning suites")):
		return fail("want rerunning the suite to be rejected")
	case !focused && !c.Twice && code != 0: // our t does not tell the testing package
		return fail("want exit code 0")
	}
	if !focused && !c.Only && (len(s.Returned) != 1 || s.Returned[0] != passed) {
		return fail("want RunSpecs to return %v", passed)
	}
	if want := map[bool]int{true: 0, false: 1}[passed]; !focused && !c.Only && s.Fails != want {
		return fail("want %d calls of t.Fail", want)
	}
	own := len(labels) > 0 || len(c.Flags)+len(c.Suite)+len(c.Report) > 0
	seeded := false
	for _, x := range append(append([]string{}, c.Flags...), c.Suite...) {
		seeded = seeded || strings.HasPrefix(x, "seed=")
	}
	same := func(where string, g types.SuiteConfig) error {
		w := conf
		if !seeded {
			w.RandomSeed = g.RandomSeed
		} else if conf.RandomSeed == types.NewDefaultSuiteConfig().RandomSeed {
			w.RandomSeed = g.RandomSeed
		}
		norm := func(c types.SuiteConfig) string { return strings.ReplaceAll(fmt.Sprintf("%+v", c), " ", "_") }
		if norm(g) != norm(w) {
			return fmt.Errorf("%s the configuration is\n%+v, want\n%+v", where, g, w)
		}
		return nil
	}
	if len(s.Ran) > 0 {
		if err := same("in a spec", *s.Conf); err != nil {
			return fail("%v", err)
		}
		if !reflect.DeepEqual(*s.Rep, rep) {
			return fail("in a spec the reporter's configuration is\n%+v, want\n%+v", *s.Rep, rep)
		}
		if s.Seed != s.Conf.RandomSeed || s.Process != 1 || s.Filter != conf.LabelFilter {
			return fail("in a spec seed, process and filter are %d, %d and %q", s.Seed, s.Process, s.Filter)
		}
	}
	report := func(what string, r types.Report, states []string, conf2 func(types.SuiteConfig) types.SuiteConfig) error {
		if r.SuiteDescription != description || r.SuitePath != dir || strings.Join(r.SuiteLabels, ",") != strings.Join(labels, ",") || r.SuiteHasProgrammaticFocus != anyFocus {
			return fmt.Errorf("%s is of %q at %s with the labels %q, focused: %v; want %q at %s with %q, %v", what, r.SuiteDescription, r.SuitePath, r.SuiteLabels, r.SuiteHasProgrammaticFocus, description, dir, labels, anyFocus)
		}
		if err := same("in "+what, conf2(r.SuiteConfig)); err != nil {
			return err
		}
		if r.PreRunStats.TotalSpecs != len(c.Specs) || r.PreRunStats.SpecsThatWillRun != len(chosen) {
			return fmt.Errorf("in %s %+v, want %d specs, %d to run", what, r.PreRunStats, len(c.Specs), len(chosen))
		}
		if conf.FailFast && !passed && what != "the preview" {
			return nil
		}
		g := map[string]string{}
		for _, sp := range r.SpecReports {
			if sp.LeafNodeType.Is(types.NodeTypeIt) {
				g[sp.LeafNodeText] = sp.State.String()
			}
		}
		for i, sp := range c.Specs {
			if name := fmt.Sprintf("%s spec %d", sp.Text, i); g[name] != states[i] {
				return fmt.Errorf("in %s %q is %s, want %s", what, name, g[name], states[i])
			}
		}
		return nil
	}
	ident := func(c types.SuiteConfig) types.SuiteConfig { return c }
	if s.Report == nil && !c.Only {
		return fail("ReportAfterSuite has not run")
	} else if s.Report != nil {
		if s.Report.SuiteSucceeded != passed {
			return fail("the report says that the suite has succeeded: %v", s.Report.SuiteSucceeded)
		}
		if err := report("the report", *s.Report, states, ident); err != nil {
			return fail("%v", err)
		}
	}
	previews := 0
	if c.Before {
		previews++
	}
	if c.After && !focused {
		previews++
	}
	if len(s.Preview) != previews {
		return fail("%d previews, want %d", len(s.Preview), previews)
	}
	for _, left := range s.Left {
		if w := fmt.Sprintf("dry-run=%v process %d of %d", conf.DryRun, conf.ParallelProcess, conf.ParallelTotal); left != w {
			return fail("after a preview the configuration is %q, want %q", left, w)
		}
	}
	for _, p := range s.Preview {
		if !p.SuiteConfig.DryRun || p.SuiteConfig.ParallelTotal != 1 || p.SuiteConfig.ParallelProcess != 1 {
			return fail("the preview was no dry run")
		}
		err := report("the preview", p, previewed, func(c types.SuiteConfig) types.SuiteConfig {
			c.DryRun, c.ParallelTotal, c.ParallelProcess = conf.DryRun, conf.ParallelTotal, conf.ParallelProcess
			return c
		})
		if err != nil {
			return fail("%v", err)
		}
	}
	data, err := os.ReadFile(filepath.Join(dir, rep.JSONReport))
	if rep.JSONReport != "" && !c.Only {
		var rs []types.Report
		if err == nil {
			err = json.Unmarshal(data, &rs)
		}
		if err != nil || len(rs) != 1 || rs[0].SuiteSucceeded != passed {
			return fail("the JSON report is not as expected: %d reports, %v", len(rs), err)
		}
		if err := report("the JSON report", rs[0], states, ident); err != nil {
			return fail("%v", err)
		}
	}
	class := "passed"
	if !passed {
		class = "failed"
	}
	if focused {
		class = "focused"
	}
	return vf.Outcome{NonTrivial: own && (len(s.Ran) > 0 || conf.DryRun && len(chosen) > 0), Classes: []string{class}}
}
