// Package config checks what becomes of the configuration a user asks for.
package config

import (
	"flag"
	"fmt"
	"io"
	"os"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// all is everything a command line can configure.
type all struct {
	S types.SuiteConfig
	R types.ReporterConfig
	C types.CLIConfig
	G types.GoFlagsConfig
}

func defaults() *all {
	a := &all{S: types.NewDefaultSuiteConfig(), R: types.NewDefaultReporterConfig(), C: types.NewDefaultCLIConfig(), G: types.NewDefaultGoFlagsConfig()}
	a.S.RandomSeed = 77
	return a
}

// option is a flag: where its value goes, as documented.
type option struct {
	name, old string
	at        func(a *all) any // a pointer to the value
	group     string           // suite, cli, watch, build, run (flags of go test at run time)
	as        string           // name for go, if it is another one
}

var options = []option{
	{"seed", "", func(a *all) any { return &a.S.RandomSeed }, "suite", ""},
	{"randomize-all", "randomizeAllSpecs", func(a *all) any { return &a.S.RandomizeAllSpecs }, "suite", ""},
	{"fail-on-pending", "failOnPending", func(a *all) any { return &a.S.FailOnPending }, "suite", ""},
	{"fail-fast", "failFast", func(a *all) any { return &a.S.FailFast }, "suite", ""},
	{"flake-attempts", "flakeAttempts", func(a *all) any { return &a.S.FlakeAttempts }, "suite", ""},
	{"fail-on-empty", "", func(a *all) any { return &a.S.FailOnEmpty }, "suite", ""},
	{"dry-run", "dryRun", func(a *all) any { return &a.S.DryRun }, "suite", ""},
	{"poll-progress-after", "", func(a *all) any { return &a.S.PollProgressAfter }, "suite", ""},
	{"poll-progress-interval", "", func(a *all) any { return &a.S.PollProgressInterval }, "suite", ""},
	{"source-root", "", func(a *all) any { return &a.S.SourceRoots }, "suite", ""},
	{"timeout", "", func(a *all) any { return &a.S.Timeout }, "suite", ""},
	{"grace-period", "", func(a *all) any { return &a.S.GracePeriod }, "suite", ""},
	{"output-interceptor-mode", "", func(a *all) any { return &a.S.OutputInterceptorMode }, "suite", ""},
	{"label-filter", "", func(a *all) any { return &a.S.LabelFilter }, "suite", ""},
	{"focus", "", func(a *all) any { return &a.S.FocusStrings }, "suite", ""},
	{"skip", "", func(a *all) any { return &a.S.SkipStrings }, "suite", ""},
	{"focus-file", "", func(a *all) any { return &a.S.FocusFiles }, "suite", ""},
	{"skip-file", "", func(a *all) any { return &a.S.SkipFiles }, "suite", ""},
	{"no-color", "noColor", func(a *all) any { return &a.R.NoColor }, "suite", ""},
	{"v", "", func(a *all) any { return &a.R.Verbose }, "suite", ""},
	{"vv", "", func(a *all) any { return &a.R.VeryVerbose }, "suite", ""},
	{"succinct", "", func(a *all) any { return &a.R.Succinct }, "suite", ""},
	{"trace", "", func(a *all) any { return &a.R.FullTrace }, "suite", ""},
	{"show-node-events", "", func(a *all) any { return &a.R.ShowNodeEvents }, "suite", ""},
	{"github-output", "", func(a *all) any { return &a.R.GithubOutput }, "suite", ""},
	{"silence-skips", "", func(a *all) any { return &a.R.SilenceSkips }, "suite", ""},
	{"force-newlines", "", func(a *all) any { return &a.R.ForceNewlines }, "suite", ""},
	{"json-report", "", func(a *all) any { return &a.R.JSONReport }, "suite", ""},
	{"junit-report", "reportFile", func(a *all) any { return &a.R.JUnitReport }, "suite", ""},
	{"teamcity-report", "", func(a *all) any { return &a.R.TeamcityReport }, "suite", ""},

	{"r", "", func(a *all) any { return &a.C.Recurse }, "shared", ""},
	{"skip-package", "skipPackage", func(a *all) any { return &a.C.SkipPackage }, "shared", ""},
	{"require-suite", "requireSuite", func(a *all) any { return &a.C.RequireSuite }, "shared", ""},
	{"compilers", "", func(a *all) any { return &a.C.NumCompilers }, "shared", ""},
	{"procs", "", func(a *all) any { return &a.C.Procs }, "both", ""},
	{"nodes", "", func(a *all) any { return &a.C.Procs }, "both", ""},
	{"p", "", func(a *all) any { return &a.C.Parallel }, "both", ""},
	{"after-run-hook", "afterSuiteHook", func(a *all) any { return &a.C.AfterRunHook }, "both", ""},
	{"output-dir", "outputdir", func(a *all) any { return &a.C.OutputDir }, "both", ""},
	{"keep-separate-coverprofiles", "", func(a *all) any { return &a.C.KeepSeparateCoverprofiles }, "both", ""},
	{"keep-separate-reports", "", func(a *all) any { return &a.C.KeepSeparateReports }, "both", ""},
	{"keep-going", "keepGoing", func(a *all) any { return &a.C.KeepGoing }, "cli", ""},
	{"until-it-fails", "untilItFails", func(a *all) any { return &a.C.UntilItFails }, "cli", ""},
	{"repeat", "", func(a *all) any { return &a.C.Repeat }, "cli", ""},
	{"randomize-suites", "randomizeSuites", func(a *all) any { return &a.C.RandomizeSuites }, "cli", ""},
	{"depth", "", func(a *all) any { return &a.C.Depth }, "watch", ""},
	{"watch-regexp", "watchRegExp", func(a *all) any { return &a.C.WatchRegExp }, "watch", ""},

	{"race", "", func(a *all) any { return &a.G.Race }, "build", ""},
	{"vet", "", func(a *all) any { return &a.G.Vet }, "build", ""},
	{"cover", "", func(a *all) any { return &a.G.Cover }, "build", ""},
	{"covermode", "", func(a *all) any { return &a.G.CoverMode }, "build", ""},
	{"coverpkg", "", func(a *all) any { return &a.G.CoverPkg }, "build", ""},
	{"a", "", func(a *all) any { return &a.G.A }, "build", ""},
	{"asmflags", "", func(a *all) any { return &a.G.ASMFlags }, "build", ""},
	{"buildmode", "", func(a *all) any { return &a.G.BuildMode }, "build", ""},
	{"buildvcs", "", func(a *all) any { return &a.G.BuildVCS }, "build", ""},
	{"compiler", "", func(a *all) any { return &a.G.Compiler }, "build", ""},
	{"gccgoflags", "", func(a *all) any { return &a.G.GCCGoFlags }, "build", ""},
	{"gcflags", "", func(a *all) any { return &a.G.GCFlags }, "build", ""},
	{"installsuffix", "", func(a *all) any { return &a.G.InstallSuffix }, "build", ""},
	{"ldflags", "", func(a *all) any { return &a.G.LDFlags }, "build", ""},
	{"linkshared", "", func(a *all) any { return &a.G.LinkShared }, "build", ""},
	{"mod", "", func(a *all) any { return &a.G.Mod }, "build", ""},
	{"modcacherw", "", func(a *all) any { return &a.G.ModCacheRW }, "build", ""},
	{"modfile", "", func(a *all) any { return &a.G.ModFile }, "build", ""},
	{"msan", "", func(a *all) any { return &a.G.MSan }, "build", ""},
	{"n", "", func(a *all) any { return &a.G.N }, "build", ""},
	{"pkgdir", "", func(a *all) any { return &a.G.PkgDir }, "build", ""},
	{"tags", "", func(a *all) any { return &a.G.Tags }, "build", ""},
	{"trimpath", "", func(a *all) any { return &a.G.TrimPath }, "build", ""},
	{"toolexec", "", func(a *all) any { return &a.G.ToolExec }, "build", ""},
	{"work", "", func(a *all) any { return &a.G.Work }, "build", ""},
	{"x", "", func(a *all) any { return &a.G.X }, "build", ""},
	{"o", "", func(a *all) any { return &a.G.O }, "build", ""},

	{"coverprofile", "", func(a *all) any { return &a.G.CoverProfile }, "run", ""},
	{"blockprofile", "", func(a *all) any { return &a.G.BlockProfile }, "run", ""},
	{"blockprofilerate", "", func(a *all) any { return &a.G.BlockProfileRate }, "run", ""},
	{"cpuprofile", "", func(a *all) any { return &a.G.CPUProfile }, "run", ""},
	{"memprofile", "", func(a *all) any { return &a.G.MemProfile }, "run", ""},
	{"memprofilerate", "", func(a *all) any { return &a.G.MemProfileRate }, "run", ""},
	{"mutexprofile", "", func(a *all) any { return &a.G.MutexProfile }, "run", ""},
	{"mutexprofilefraction", "", func(a *all) any { return &a.G.MutexProfileFraction }, "run", ""},
	{"execution-trace", "", func(a *all) any { return &a.G.Trace }, "run", "trace"},
}

var groups = map[string][]string{
	"run":   {"suite", "shared", "both", "cli", "build", "run"},
	"watch": {"suite", "shared", "both", "watch", "build", "run"},
	"build": {"shared", "build"},
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// use is one flag on a command line.
type use struct {
	I     int    // index into options
	Value string // as written; "" with Bare for a boolean
	Bare  bool   // --flag
	Apart bool   // --flag value
	Old   bool   // the deprecated name
	Dash  bool   // one hyphen
}

func (u use) args(prefix string) []string {
	o := options[u.I]
	n := "--" + prefix + o.name
	if u.Old {
		n = "--" + prefix + o.old
	}
	if u.Dash {
		n = n[1:]
	}
	switch {
	case u.Bare:
		return []string{n}
	case u.Apart:
		return []string{n, u.Value}
	}
	return []string{n + "=" + u.Value}
}

// apply is what the flag means.
func (u use) apply(a *all) {
	switch p := options[u.I].at(a).(type) {
	case *string:
		*p = u.Value
	case *bool:
		*p = u.Bare
		if !u.Bare {
			*p, _ = strconv.ParseBool(u.Value)
		}
	case *int:
		n, _ := strconv.ParseInt(u.Value, 0, 64)
		*p = int(n)
	case *int64:
		*p, _ = strconv.ParseInt(u.Value, 0, 64)
	case *time.Duration:
		*p, _ = time.ParseDuration(u.Value)
	case *[]string:
		*p = append(*p, u.Value)
	default:
		panic(fmt.Sprintf("%T", p))
	}
}

var texts = []string{"", "a", "b.c", "with space", "x=y", "-v", "--", "a,b", "é\n\"q'", "(a || b) && !c", "a\tb", "%d%s{{red}}"}

func genUse(t *rapid.T, groups []string) use {
	var in []int
	for i, o := range options {
		if has(groups, o.group) {
			in = append(in, i)
		}
	}
	u := use{I: in[vf.U(t, "flag", len(in))], Dash: vf.Pct(t, "dash", 30)}
	o := options[u.I]
	u.Old = o.old != "" && vf.Pct(t, "old", 20)
	switch o.at(defaults()).(type) {
	case *bool:
		u.Bare = vf.Pct(t, "bare", 60)
		if !u.Bare {
			u.Value = vf.Pick(t, "bool", "true", "false", "false", "0", "1", "T", "F")
		}
	case *int, *int64:
		u.Value = vf.Pick(t, "int", "0", "1", "2", "7", "-1", "0x10", "1000000", "17")
	case *time.Duration:
		u.Value = vf.Pick(t, "duration", "0", "0s", "1ns", "1.5s", "2h3m4s", "72h", "100ms", "1us", "-1s", "2562047h47m16.854775807s")
	case *[]string, *string:
		u.Value = vf.Pick(t, "text", texts...)
	}
	if o.name == "grace-period" && strings.HasPrefix(u.Value, "0") { // rejected; vet checks that
		u.Value = "1ns"
	}
	u.Apart = !u.Bare && vf.Pct(t, "apart", 30)
	if _, ok := o.at(defaults()).(*bool); ok {
		u.Apart = false
	}
	return u
}

// parse gives the arguments to a command.
func parse(cmd string, args []string) (a *all, rest []string, fs types.GinkgoFlagSet, err error) {
	a = defaults()
	switch cmd {
	case "run":
		fs, err = types.BuildRunCommandFlagSet(&a.S, &a.R, &a.C, &a.G)
	case "watch":
		fs, err = types.BuildWatchCommandFlagSet(&a.S, &a.R, &a.C, &a.G)
	case "build":
		fs, err = types.BuildBuildCommandFlagSet(&a.C, &a.G)
	}
	if err != nil {
		return
	}
	rest, err = fs.Parse(args)
	return
}

// testFlags are the flags of a test binary.
func testFlags() (*flag.FlagSet, *types.GoFlagsConfig) {
	fs := flag.NewFlagSet("x.test", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	g := &types.GoFlagsConfig{}
	fs.StringVar(&g.CoverProfile, "test.coverprofile", "", "")
	fs.StringVar(&g.BlockProfile, "test.blockprofile", "", "")
	fs.IntVar(&g.BlockProfileRate, "test.blockprofilerate", 1, "")
	fs.StringVar(&g.CPUProfile, "test.cpuprofile", "", "")
	fs.StringVar(&g.MemProfile, "test.memprofile", "", "")
	fs.IntVar(&g.MemProfileRate, "test.memprofilerate", 0, "")
	fs.StringVar(&g.MutexProfile, "test.mutexprofile", "", "")
	fs.IntVar(&g.MutexProfileFraction, "test.mutexprofilefraction", 1, "")
	fs.StringVar(&g.Trace, "test.trace", "", "")
	fs.Int("test.count", 1, "")
	fs.Int("test.parallel", 0, "")
	fs.Bool("test.v", false, "")
	return fs, g
}

// suite gives the arguments to a suite.
func suite(args []string) (a *all, rest []string, fs types.GinkgoFlagSet, err error) {
	a = defaults()
	old := flag.CommandLine
	defer func() { flag.CommandLine = old }()
	var g *types.GoFlagsConfig
	flag.CommandLine, g = testFlags()
	fs, err = types.BuildTestSuiteFlagSet(&a.S, &a.R)
	if err != nil {
		return
	}
	rest, err = fs.Parse(args)
	a.G = *g
	return
}

// goRun is the part of the go flags that concerns a run, with the defaults of go.
func goRun(g types.GoFlagsConfig, uses []use) types.GoFlagsConfig {
	set := func(n string) bool {
		for _, u := range uses {
			if options[u.I].name == n {
				return true
			}
		}
		return false
	}
	if !set("blockprofilerate") {
		g.BlockProfileRate = 1
	}
	if !set("mutexprofilefraction") {
		g.MutexProfileFraction = 1
	}
	return types.GoFlagsConfig{CoverProfile: g.CoverProfile, BlockProfile: g.BlockProfile, BlockProfileRate: g.BlockProfileRate, CPUProfile: g.CPUProfile, MemProfile: g.MemProfile,
		MemProfileRate: g.MemProfileRate, MutexProfile: g.MutexProfile, MutexProfileFraction: g.MutexProfileFraction, Trace: g.Trace}
}

// zeroRates is what becomes of the go flags if a rate of 0 is taken for none.
func zeroRates(g types.GoFlagsConfig) types.GoFlagsConfig {
	if g.BlockProfileRate == 0 {
		g.BlockProfileRate = 1
	}
	if g.MutexProfileFraction == 0 {
		g.MutexProfileFraction = 1
	}
	return g
}

func differ(got, want any) string {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	var out []string
	for i := 0; i < g.NumField(); i++ {
		x, y := g.Field(i).Interface(), w.Field(i).Interface()
		if !reflect.DeepEqual(x, y) && !(g.Field(i).Kind() == reflect.Slice && g.Field(i).Len() == 0 && w.Field(i).Len() == 0) {
			out = append(out, fmt.Sprintf("%s is %#v, want %#v", g.Type().Field(i).Name, x, y))
		}
	}
	return strings.Join(out, "; ")
}

func (a *all) differs(b *all) string {
	for _, d := range []string{differ(a.S, b.S), differ(a.R, b.R), differ(a.C, b.C), differ(a.G, b.G)} {
		if d != "" {
			return d
		}
	}
	return ""
}

type flagCase struct {
	Cmd         string
	Uses        []use
	Rest        []string
	Proc, Total int
	Host        string
}

// C05: what is asked for on the command line is what the suite is configured with.
func TestC05_transport(t *testing.T) {
	vf.Run(t, vf.Prop[flagCase]{ID: "C05", Sub: "transport", Rule: "at least three flags, one of them of the suite", Quick: 60000, Thorough: 3000000,
		Gen: func(t *rapid.T) flagCase {
			c := flagCase{Cmd: vf.Pick(t, "command", "run", "run", "watch", "build")}
			for n := vf.U(t, "flags", 9); n > 0; n-- {
				c.Uses = append(c.Uses, genUse(t, groups[c.Cmd]))
			}
			for n := vf.U(t, "rest", 3); n > 0; n-- {
				c.Rest = append(c.Rest, vf.Pick(t, "arg", "./...", "a", "a/b", "--v", "-p", "x.test"))
			}
			if len(c.Rest) > 0 && strings.HasPrefix(c.Rest[0], "-") {
				c.Rest[0] = "pkg"
			}
			c.Proc, c.Total = 1, 1
			if vf.Pct(t, "parallel", 30) {
				c.Total = vf.Range(t, "total", 2, 9)
				c.Proc, c.Host = vf.Range(t, "proc", 1, c.Total), "127.0.0.1:1234"
			}
			return c
		},
		Check: checkTransport})
}

func checkTransport(c flagCase) vf.Outcome {
	want := defaults()
	var args, direct []string
	kinds := map[string]int{}
	for _, u := range c.Uses {
		u.apply(want)
		args = append(args, u.args("")...)
		kinds[options[u.I].group]++
		if options[u.I].group == "suite" {
			direct = append(direct, u.args("ginkgo.")...)
		}
	}
	args = append(args, c.Rest...)
	got, rest, fs, err := parse(c.Cmd, args)
	if err != nil {
		return vf.Fail("%s %q: %s", c.Cmd, args, err)
	}
	if d := got.differs(want); d != "" {
		return vf.Fail("%s %q: %s", c.Cmd, args, d)
	}
	if strings.Join(rest, "\x00") != strings.Join(c.Rest, "\x00") {
		return vf.Fail("%s %q leaves %q", c.Cmd, args, rest)
	}
	for i, o := range options {
		set, old := false, false
		for _, u := range c.Uses {
			if u.I == i {
				set, old = set || !u.Old, old || u.Old
			}
		}
		if has(groups[c.Cmd], o.group) && (fs.WasSet(o.name) != set || o.old != "" && fs.WasSet(o.old) != old) {
			return vf.Fail("%s %q: WasSet(%q) is %v", c.Cmd, args, o.name, fs.WasSet(o.name))
		}
	}
	out := vf.Outcome{NonTrivial: len(c.Uses) > 2 && kinds["suite"] > 0, Classes: []string{c.Cmd}}
	if c.Cmd == "build" {
		return out
	}

	// through the command
	got.S.ParallelProcess, got.S.ParallelTotal, got.S.ParallelHost = c.Proc, c.Total, c.Host
	want.S.ParallelProcess, want.S.ParallelTotal, want.S.ParallelHost = c.Proc, c.Total, c.Host
	passed, err := types.GenerateGinkgoTestRunArgs(got.S, got.R, got.G)
	if err != nil {
		return vf.Fail("%s %q: %s", c.Cmd, args, err)
	}
	in, rest, _, err := suite(passed)
	if err != nil || len(rest) > 0 {
		return vf.Fail("%s %q is passed to the suite as %q, which has %q left and fails with %v", c.Cmd, args, passed, rest, err)
	}
	wantGo := goRun(want.G, c.Uses)
	known := false
	if differ(in.G, wantGo) != "" && differ(in.G, zeroRates(wantGo)) == "" {
		known, wantGo = true, zeroRates(wantGo)
	}
	for _, d := range []string{differ(in.S, want.S), differ(in.R, want.R), differ(in.G, wantGo)} {
		if d != "" {
			return vf.Fail("%s %q is passed to the suite as %q: there %s", c.Cmd, args, passed, d)
		}
	}

	// to a suite that is run by go test
	in, _, _, err = suite(direct)
	if err != nil {
		return vf.Fail("go test %q: %s", direct, err)
	}
	in.S.ParallelProcess, in.S.ParallelTotal, in.S.ParallelHost = c.Proc, c.Total, c.Host
	for _, d := range []string{differ(in.S, want.S), differ(in.R, want.R)} {
		if d != "" {
			return vf.Fail("go test %q: %s", direct, d)
		}
	}

	// to a suite of another kind
	passed, err = types.GenerateGoTestRunArgs(got.G)
	if err != nil {
		return vf.Fail("%s %q: %s", c.Cmd, args, err)
	}
	tf, g := testFlags()
	if err := tf.Parse(passed); err != nil || tf.NArg() > 0 || tf.Lookup("test.v").Value.String() != "true" {
		return vf.Fail("%s %q is passed to a plain test as %q: %v", c.Cmd, args, passed, err)
	}
	if d := differ(*g, wantGo); d != "" {
		return vf.Fail("%s %q is passed to a plain test as %q: there %s", c.Cmd, args, passed, d)
	}
	if known {
		out = vf.Fail("%s %q is passed to the suite as %q: the rate of 0 is lost", c.Cmd, args, passed)
		out.Known = "rate-of-zero"
	}
	return out
}

type compileCase struct {
	Uses     []use
	Pkgs     []string // --coverpkg
	Dir      string   // of the invocation, seen from the package
	Preserve bool
}

// C05: what is asked of go build is what go is told.
func TestC05_compile(t *testing.T) {
	vf.Run(t, vf.Prop[compileCase]{ID: "C05", Sub: "compile", Rule: "at least three flags", Quick: 30000, Thorough: 1500000,
		Gen: func(t *rapid.T) compileCase {
			c := compileCase{Dir: vf.Pick(t, "dir", ".", "..", "../..", "../../c", "./"), Preserve: vf.Pct(t, "preserve", 20)}
			for n := vf.U(t, "flags", 7); n > 0; n-- {
				u := genUse(t, []string{"build", "run", "run"})
				if options[u.I].name != "coverpkg" {
					c.Uses = append(c.Uses, u)
				}
			}
			for n := vf.U(t, "coverpkgs", 4); n > 0; n-- {
				c.Pkgs = append(c.Pkgs, vf.Pick(t, "pkg", "./...", "./a", "./a/b/...", "./", "all", "example.com/x/y", "a/b", " ./a", "./a ", "...", ".../b"))
			}
			return c
		},
		Check: func(c compileCase) vf.Outcome {
			var args []string
			want := defaults()
			for _, u := range c.Uses {
				u.apply(want)
				args = append(args, u.args("")...)
			}
			if len(c.Pkgs) > 0 {
				want.G.CoverPkg = strings.Join(c.Pkgs, ",")
				args = append(args, "--coverpkg="+want.G.CoverPkg)
			}
			got, _, _, err := parse("run", args)
			if err != nil {
				return vf.Fail("%q: %s", args, err)
			}
			_, g, _ := types.VetAndInitializeCLIAndGoConfig(got.C, got.G)
			told, err := types.GenerateGoTestCompileArgs(g, "./", c.Dir, c.Preserve)
			if err != nil {
				return vf.Fail("%q: %s", args, err)
			}
			if len(told) < 3 || told[0] != "test" || told[1] != "-c" || told[2] != "./" {
				return vf.Fail("%q: go is told %q", args, told)
			}
			// what go has to be told
			w := want.G
			w.Cover = w.Cover || w.CoverMode != "" || w.CoverPkg != "" || w.CoverProfile != ""
			symbols := c.Preserve || w.BlockProfile != "" || w.CPUProfile != "" || w.MemProfile != "" || w.MutexProfile != ""
			if !symbols && w.LDFlags == "" {
				w.LDFlags = "-w -s"
			}
			var pkgs []string
			for _, p := range c.Pkgs {
				p = strings.Trim(p, " ")
				if strings.HasPrefix(p, "./") {
					if p = path.Clean(path.Join(c.Dir, p)); !strings.HasPrefix(p, ".") || strings.HasPrefix(p, "...") {
						p = "./" + p
					}
				}
				pkgs = append(pkgs, p)
			}
			w.CoverPkg = strings.Join(pkgs, ",")
			noVCS := false
			for _, u := range c.Uses {
				if options[u.I].name == "buildvcs" {
					noVCS = !w.BuildVCS
				}
			}
			var lines []string
			if noVCS {
				lines = append(lines, "buildvcs=false")
			}
			a := &all{G: w}
			for _, o := range options {
				if o.group != "build" {
					continue
				}
				switch p := o.at(a).(type) {
				case *string:
					if *p != "" {
						lines = append(lines, o.name+"="+*p)
					}
				case *bool:
					if *p {
						lines = append(lines, o.name+"=true")
					}
				default:
					panic(o.name)
				}
			}
			var told2 []string
			for _, l := range told[3:] {
				n, v, ok := strings.Cut(strings.TrimPrefix(strings.TrimPrefix(l, "-"), "-"), "=")
				if !strings.HasPrefix(l, "-") {
					return vf.Fail("%q: go is told %q", args, told)
				}
				if !ok {
					v = "true"
				}
				if n == "coverpkg" { // how a directory is written does not matter
					ps := strings.Split(v, ",")
					for i, p := range ps {
						if q := path.Clean(p); strings.HasPrefix(p, ".") && !strings.HasPrefix(p, "...") {
							if ps[i] = q; !strings.HasPrefix(q, ".") || strings.HasPrefix(q, "...") {
								ps[i] = "./" + q
							}
						}
					}
					v = strings.Join(ps, ",")
				}
				told2 = append(told2, n+"="+v)
			}
			sort.Strings(lines)
			sort.Strings(told2)
			if strings.Join(lines, "\x00") != strings.Join(told2, "\x00") {
				if noVCS {
					rest := []string{}
					for _, l := range lines {
						if l != "buildvcs=false" {
							rest = append(rest, l)
						}
					}
					if strings.Join(rest, "\x00") == strings.Join(told2, "\x00") {
						out := vf.Fail("%q: go is told %q, want %q", args, told2, lines)
						out.Known = "buildvcs-false"
						return out
					}
				}
				return vf.Fail("%q: go is told %q, want %q", args, told2, lines)
			}
			return vf.Outcome{NonTrivial: len(c.Uses) > 2}
		}})
}

type vetCase struct {
	S            types.SuiteConfig
	R            types.ReporterConfig
	Args         []string // further arguments of the test binary
	Repeat       int
	UntilItFails bool
	Profiles     [5]string
	Mode, Pkg    string
	Cover        bool
	Dir          bool
}

// C05: contradictory configurations are rejected, others are not.
func TestC05_vet(t *testing.T) {
	E := types.GinkgoErrors
	vf.Run(t, vf.Prop[vetCase]{ID: "C05", Sub: "vet", Rule: "something is wrong with the configuration", Quick: 30000, Thorough: 1500000,
		Gen: func(t *rapid.T) vetCase {
			c := vetCase{S: types.NewDefaultSuiteConfig()}
			c.S.RandomSeed = 1
			if vf.Pct(t, "parallel", 40) {
				c.S.ParallelTotal, c.S.ParallelProcess = vf.Range(t, "total", -1, 4), vf.Range(t, "proc", -1, 5)
			}
			if vf.Pct(t, "host", 50) {
				c.S.ParallelHost = "h:1"
			}
			c.S.DryRun = vf.Pct(t, "dry", 30)
			c.S.GracePeriod = vf.Pick(t, "grace", time.Second, time.Hour, 1, 1, 0, -1)
			c.S.OutputInterceptorMode = vf.Pick(t, "mode", "", "dup", "swap", "none", "Dup", "NONE", "duplicate", " dup")
			c.S.LabelFilter = vf.Pick(t, "labels", "", "a", "a && b", "a &&", "(a", "/[/")
			for n := vf.U(t, "ff", 3); n > 0; n-- {
				c.S.FocusFiles = append(c.S.FocusFiles, vf.Pick(t, "file", "a", "a.go:12", "a.go:1-3,5", "", "a:b", "a:1:2", "[", "a:1-2-3"))
			}
			for n := vf.U(t, "sf", 3); n > 0; n-- {
				c.S.SkipFiles = append(c.S.SkipFiles, vf.Pick(t, "file", "a", "a.go:12", "a.go:1-3,5", "", "a:b", "a:1:2", "[", "a:1-2-3"))
			}
			for n := vf.U(t, "focus", 3); n > 0; n-- {
				c.S.FocusStrings = append(c.S.FocusStrings, vf.Pick(t, "re", "a", "(?i)b|c", "(?P<x>a)", "", "(", "a)", "b**"))
			}
			for n := vf.U(t, "skip", 3); n > 0; n-- {
				c.S.SkipStrings = append(c.S.SkipStrings, vf.Pick(t, "re", "a", "(?i)b|c", "(?P<x>a)", "", "(", "a)", "b**"))
			}
			c.R.Succinct, c.R.Verbose, c.R.VeryVerbose = vf.Pct(t, "s", 30), vf.Pct(t, "v", 30), vf.Pct(t, "vv", 30)
			if vf.Pct(t, "args", 30) {
				c.Args = append(c.Args, vf.Pick(t, "arg", "--test.count=1", "--test.count=2", "--test.count=0", "--test.parallel=1", "--test.parallel=3"))
			}
			if vf.Pct(t, "repeats", 30) {
				c.Repeat, c.UntilItFails = vf.U(t, "repeat", 3), vf.Pct(t, "until", 50)
			}
			for i := range c.Profiles {
				c.Profiles[i] = vf.Pick(t, "profile", "", "", "", "p", "a/p", "/p", "./p")
			}
			c.Cover = vf.Pct(t, "cover", 20)
			c.Mode = vf.Pick(t, "covermode", "", "", "set")
			c.Pkg = vf.Pick(t, "coverpkg", "", "", "a")
			c.Dir = vf.Pct(t, "dir", 20)
			return c
		},
		Check: func(c vetCase) vf.Outcome {
			_, _, fs, err := suite(c.Args)
			if err != nil {
				return vf.Fail("%q: %s", c.Args, err)
			}
			var want []string
			bad := func(b bool, err error) {
				if b {
					want = append(want, err.Error())
				}
			}
			for _, a := range c.Args {
				bad(strings.HasPrefix(a, "--test.count") && a != "--test.count=1", E.InvalidGoFlagCount())
				bad(strings.HasPrefix(a, "--test.parallel"), E.InvalidGoFlagParallel())
			}
			bad(c.S.ParallelTotal < 1, E.InvalidParallelTotalConfiguration())
			bad(c.S.ParallelProcess < 1 || c.S.ParallelProcess > c.S.ParallelTotal, E.InvalidParallelProcessConfiguration())
			bad(c.S.ParallelTotal > 1 && c.S.ParallelHost == "", E.MissingParallelHostConfiguration())
			bad(c.S.ParallelTotal > 1 && c.S.DryRun, E.DryRunInParallelConfiguration())
			bad(c.S.GracePeriod <= 0, E.GracePeriodCannotBeZero())
			badFiles := func(fs []string) int {
				for _, f := range fs {
					switch f {
					case "a", "a.go:12", "a.go:1-3,5":
					default:
						return 1
					}
				}
				return 0
			}
			files := badFiles(c.S.FocusFiles) + badFiles(c.S.SkipFiles)
			for _, re := range append(append([]string{}, c.S.FocusStrings...), c.S.SkipStrings...) {
				if re == "(" || re == "a)" || re == "b**" {
					files++
				}
			}
			labels := 0
			switch c.S.LabelFilter {
			case "", "a", "a && b":
			default:
				labels = 1
			}
			switch c.S.OutputInterceptorMode {
			case "", "dup", "swap", "none", "Dup", "NONE":
			default:
				bad(true, E.InvalidOutputInterceptorModeConfiguration(c.S.OutputInterceptorMode))
			}
			n := 0
			for _, b := range []bool{c.R.Succinct, c.R.Verbose, c.R.VeryVerbose} {
				if b {
					n++
				}
			}
			bad(n > 1, E.ConflictingVerbosityConfiguration())
			errs := types.VetConfig(fs, c.S, c.R)
			left := append([]string{}, want...)
			others := 0
		next:
			for _, e := range errs {
				for i, w := range left {
					if e.Error() == w {
						left = append(left[:i], left[i+1:]...)
						continue next
					}
				}
				others++
			}
			if len(left) > 0 || others != files+labels {
				return vf.Fail("%+v %+v %q: rejected with %q; missing %q, and %d bad filters or expressions", c.S, c.R, c.Args, errs, left, files+labels)
			}
			// which of several levels counts
			lvl := types.VerbosityLevelNormal
			switch {
			case c.R.Succinct:
				lvl = types.VerbosityLevelSuccinct
			case c.R.Verbose:
				lvl = types.VerbosityLevelVerbose
			case c.R.VeryVerbose:
				lvl = types.VerbosityLevelVeryVerbose
			}
			if v := c.R.Verbosity(); v != lvl {
				return vf.Fail("%+v: verbosity %d", c.R, v)
			}
			// and of the command
			bads := len(want) + files + labels
			cli, g := types.CLIConfig{Repeat: c.Repeat, UntilItFails: c.UntilItFails}, types.GoFlagsConfig{Cover: c.Cover, CoverMode: c.Mode, CoverPkg: c.Pkg}
			g.CoverProfile, g.CPUProfile, g.MemProfile, g.BlockProfile, g.MutexProfile = c.Profiles[0], c.Profiles[1], c.Profiles[2], c.Profiles[3], c.Profiles[4]
			want = nil
			bad(c.Repeat > 0 && c.UntilItFails, E.BothRepeatAndUntilItFails())
			for i, f := range []string{"--coverprofile", "--cpuprofile", "--memprofile", "--blockprofile", "--mutexprofile"} {
				bad(strings.Contains(c.Profiles[i], "/"), E.ExpectFilenameNotPath(f, c.Profiles[i]))
			}
			dir := ""
			if c.Dir {
				if dir, err = os.MkdirTemp("", "vet"); err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				cli.OutputDir = dir + "/x/y"
			}
			cli2, g2, errs := types.VetAndInitializeCLIAndGoConfig(cli, g)
			if fmt.Sprint(errs) != fmt.Sprint(want) && !(len(errs) == 0 && len(want) == 0) {
				var got []string
				for _, e := range errs {
					got = append(got, e.Error())
				}
				sort.Strings(got)
				sort.Strings(want)
				if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
					return vf.Fail("%+v %+v: rejected with %q, want %q", cli, g, got, want)
				}
			}
			if c.Dir {
				if i, err := os.Stat(cli.OutputDir); err != nil || !i.IsDir() {
					return vf.Fail("the output directory is not there")
				}
			}
			w := g
			w.Cover = c.Cover || c.Mode != "" || c.Pkg != "" || g.CoverProfile != ""
			if w.Cover && w.CoverProfile == "" {
				w.CoverProfile = "coverprofile.out"
			}
			if d := differ(g2, w); d != "" || cli2 != cli {
				return vf.Fail("%+v becomes %+v: %s", g, g2, d)
			}
			return vf.Outcome{NonTrivial: bads+len(want) > 0, Classes: []string{fmt.Sprintf("%d errors", min(bads, 4))}}
		}})
}
