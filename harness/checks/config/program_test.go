package config

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/command"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// pflag is a flag of a command.
type pflag struct {
	Name, Old string // Old: its deprecated name; a flag may have only one of the two
	Kind      int    // of pkinds
	Key       string // its section
	Ack       string // the version its deprecated name can be acknowledged with
}

var pkinds = []string{"S", "I", "L", "F", "B", "D", "M"}

// pcommand is a command of a program.
type pcommand struct {
	Name  string
	Flags []pflag
	Bare  bool // it has no flag set
	Ends  string
	Text  string
}

type pcase struct {
	Cmds []pcommand // the first is the default
	Old  []string   // deprecated commands
	Args []string
	Ack  string // acknowledged version of deprecations
}

var pwords = []string{"alpha", "beta", "gamma", "run", "prog", "old", "older", "help", "-h", "--help", "-help", "--h", "--", "-", "./pkg", "a b", "", "é", "100%", "%d", "-recursive", "x=y"}
var pvalues = []string{"1", "0", "-3", "2.5", "true", "false", "T", "1s", "2m3s", "text", "50%", "%v", "", "a=b", "é", "9223372036854775808", "0x10", "1_000", "--x", "help"}

func genPflag(t *rapid.T, i int) pflag {
	f := pflag{Name: fmt.Sprintf("%s%d", vf.Pick(t, "name", "flag", "v", "a-b"), i), Kind: vf.U(t, "kind", len(pkinds)), Key: vf.Pick(t, "section", "one", "two", "none")}
	switch vf.U(t, "deprecated", 5) {
	case 0:
		f.Old = fmt.Sprintf("old%d", i)
	case 1:
		f.Name, f.Old = "", fmt.Sprintf("old%d", i)
	}
	if f.Old != "" {
		f.Ack = vf.Pick(t, "version", "", "1.16.0", "2.5.3", "2.10.1")
	}
	return f
}

func genPcase(t *rapid.T) pcase {
	c := pcase{Ack: vf.Pick(t, "acknowledged", "", "", "", "1.16.0", "2.4.3", "2.5.0", "2.9.1", "v2.10.1", "3", "2")}
	names := []string{"run", "alpha", "beta", "gamma"}
	for i := vf.Range(t, "commands", 1, 4); i > 0; i-- {
		k := pcommand{Name: names[len(c.Cmds)], Bare: vf.Pct(t, "bare", 20), Ends: vf.Pick(t, "ends", "", "", "", "with", "usage", "graceful", "if", "ifs", "noerr", "code", "code-usage"), Text: vf.Pick(t, "text", "it broke", "50% of it %s broke", "é\nsecond line", "plain")}
		if !k.Bare {
			for j := vf.U(t, "flags", 5); j > 0; j-- {
				k.Flags = append(k.Flags, genPflag(t, j))
			}
		}
		c.Cmds = append(c.Cmds, k)
	}
	for i := vf.U(t, "deprecated commands", 3); i > 0; i-- {
		c.Old = append(c.Old, []string{"old", "older"}[i-1])
	}
	k := c.Cmds[vf.U(t, "command", len(c.Cmds))]
	if vf.Pct(t, "named", 70) {
		c.Args = append(c.Args, k.Name)
	}
	for i := vf.U(t, "arguments", 6); i > 0; i-- {
		if len(k.Flags) == 0 || vf.Pct(t, "word", 35) {
			c.Args = append(c.Args, vf.Pick(t, "word", pwords...))
			continue
		}
		f := k.Flags[vf.U(t, "flag", len(k.Flags))]
		name := f.Name
		if name == "" || f.Old != "" && vf.Pct(t, "by its old name", 50) {
			name = f.Old
		}
		if vf.Pct(t, "unknown", 5) {
			name = vf.Pick(t, "unknown", "nope", "nope%d", "é", "=x", "-x")
		}
		a := vf.Pick(t, "hyphens", "-", "--", "--") + name
		good := map[string]string{"S": "text", "I": "3", "L": "-4", "F": "1.5", "B": "true", "D": "3s", "M": "m"}[pkinds[f.Kind]]
		if vf.Pct(t, "any value", 25) {
			good = vf.Pick(t, "value", pvalues...)
		}
		switch {
		case pkinds[f.Kind] == "B" && vf.Pct(t, "no value", 60) || vf.Pct(t, "no value", 5):
			c.Args = append(c.Args, a)
		case pkinds[f.Kind] != "B" && vf.Pct(t, "apart", 40):
			c.Args = append(c.Args, a, good)
		default:
			c.Args = append(c.Args, a+"="+good)
		}
	}
	return c
}

// bindings is a place for the values of the flags, by index.
type bindings struct {
	S0, S1, S2, S3, S4 string
	I0, I1, I2, I3, I4 int
	L0, L1, L2, L3, L4 int64
	F0, F1, F2, F3, F4 float64
	B0, B1, B2, B3, B4 bool
	D0, D1, D2, D3, D4 time.Duration
	M0, M1, M2, M3, M4 []string
}

// parse is what the flag package documents: the values, the arguments left, the deprecated names used, or what is wrong.
func (k pcommand) parse(args []string) (b *bindings, rest []string, used map[string]bool, bad string) {
	b, used = &bindings{}, map[string]bool{}
	if k.Bare {
		return b, args, used, ""
	}
	for len(args) > 0 {
		a := args[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		args = args[1:]
		name := strings.TrimPrefix(a[1:], "-")
		if name == "" || name[0] == '-' || name[0] == '=' {
			return b, nil, used, "bad flag syntax: " + a
		}
		name, value, has := strings.Cut(name, "=")
		i := -1
		for j, f := range k.Flags {
			if f.Name == name || f.Old == name {
				i = j
			}
		}
		if i < 0 {
			if name == "help" || name == "h" {
				return b, nil, used, flag.ErrHelp.Error()
			}
			return b, nil, used, "flag provided but not defined: -" + name
		}
		kind := pkinds[k.Flags[i].Kind]
		if !has && kind == "B" {
			value, has = "true", true
		}
		if !has {
			if len(args) == 0 {
				return b, nil, used, "flag needs an argument: -" + name
			}
			value, args = args[0], args[1:]
		}
		v := reflect.ValueOf(b).Elem().FieldByName(fmt.Sprintf("%s%d", kind, i))
		var err error
		switch kind {
		case "S":
			v.SetString(value)
		case "M":
			v.Set(reflect.Append(v, reflect.ValueOf(value)))
		case "B":
			var x bool
			x, err = strconv.ParseBool(value)
			v.SetBool(x)
		case "D":
			var x time.Duration
			x, err = time.ParseDuration(value)
			v.SetInt(int64(x))
		case "F":
			var x float64
			x, err = strconv.ParseFloat(value, 64)
			v.SetFloat(x)
		default:
			var x int64
			x, err = strconv.ParseInt(value, 0, 64)
			v.SetInt(x)
		}
		if err != nil {
			bad := fmt.Sprintf("invalid value %q for flag -%s: ", value, name)
			if kind == "B" {
				bad = fmt.Sprintf("invalid boolean value %q for -%s: ", value, name)
			}
			return b, nil, used, bad
		}
		used[name] = true
	}
	return b, args, used, ""
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

type exited struct{ code int }

// T09: the ginkgo command does what its arguments ask for, and says what is wrong with them.
func TestT09_program(t *testing.T) {
	vf.Run(t, vf.Prop[pcase]{ID: "T09", Sub: "program", Rule: "a command runs with a flag or an argument, or an argument is rejected", Quick: 200000, Thorough: 8000000,
		Gen:   genPcase,
		Check: checkProgram})
}

func checkProgram(c pcase) (verdict vf.Outcome) {
	defer func() {
		if e := recover(); e != nil {
			verdict = vf.Fail("%+v: panic: %v", c, e)
		}
	}()
	if c.Ack != "" {
		os.Setenv("ACK_GINKGO_DEPRECATIONS", c.Ack)
		defer os.Unsetenv("ACK_GINKGO_DEPRECATIONS")
	} else {
		os.Unsetenv("ACK_GINKGO_DEPRECATIONS")
	}
	type call struct {
		name       string
		args, more []string
		values     *bindings
	}
	var calls []call
	build := func(k pcommand) command.Command {
		b := &bindings{}
		cmd := command.Command{Name: k.Name, Usage: "prog " + k.Name + " <usage of " + k.Name + ">", ShortDoc: "short doc of " + k.Name, Documentation: "documentation of " + k.Name, DocLink: "link-of-" + k.Name}
		if !k.Bare {
			var fs types.GinkgoFlags
			for i, f := range k.Flags {
				fs = append(fs, types.GinkgoFlag{Name: f.Name, DeprecatedName: f.Old, DeprecatedVersion: f.Ack, DeprecatedDocLink: "about-" + f.Old, KeyPath: fmt.Sprintf("%s%d", pkinds[f.Kind], i), SectionKey: f.Key, Usage: fmt.Sprintf("does %d%% of %s", i, k.Name)})
			}
			set, err := types.NewGinkgoFlagSet(fs, b, types.GinkgoFlagSections{{Key: "one", Style: "{{red}}", Heading: "Section one"}, {Key: "two", Heading: "Section two", Succinct: true}})
			if err != nil {
				panic(err)
			}
			cmd.Flags = set
		}
		cmd.Command = func(args, more []string) {
			calls = append(calls, call{k.Name, args, more, b})
			switch k.Ends {
			case "with":
				command.AbortWith("%s", k.Text)
			case "usage":
				command.AbortWithUsage("%s", k.Text)
			case "graceful":
				command.AbortGracefullyWith("%s", k.Text)
			case "if":
				command.AbortIfError("preamble", errors.New(k.Text))
			case "ifs":
				command.AbortIfErrors("preamble", []error{errors.New(k.Text), errors.New("and more")})
			case "noerr":
				command.AbortIfError("preamble", nil)
				command.AbortIfErrors("preamble", nil)
			case "code":
				command.Abort(command.AbortDetails{ExitCode: 7})
			case "code-usage":
				command.Abort(command.AbortDetails{ExitCode: 3, EmitUsage: true})
			}
		}
		return cmd
	}
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	var codes []int
	p := command.Program{Name: "prog", Heading: "The Program", OutWriter: out, ErrWriter: errs, Exiter: func(code int) { codes = append(codes, code) }}
	p.DefaultCommand = build(c.Cmds[0])
	for _, k := range c.Cmds[1:] {
		p.Commands = append(p.Commands, build(k))
	}
	for _, o := range c.Old {
		p.DeprecatedCommands = append(p.DeprecatedCommands, command.DeprecatedCommand{Name: o, Deprecation: types.Deprecation{Message: "the command " + o + " is deprecated", DocLink: "no-more-" + o, Version: "2.4.3"}})
	}
	p.RunAndExit(append([]string{"/path/to/prog"}, c.Args...))

	stdout, stderr := ansi.ReplaceAllString(out.String(), ""), ansi.ReplaceAllString(errs.String(), "")
	fail := func(format string, args ...any) vf.Outcome {
		return vf.Fail("%+v: %s\nexit codes %v, calls %+v\nstdout:\n%s\nstderr:\n%s", c, fmt.Sprintf(format, args...), codes, calls, stdout, stderr)
	}
	// what is to happen
	acked := func(version string) bool {
		if version == "" || c.Ack == "" {
			return false
		}
		var a, v [3]int
		fmt.Sscanf(strings.TrimPrefix(c.Ack, "v"), "%d.%d.%d", &a[0], &a[1], &a[2])
		fmt.Sscanf(version, "%d.%d.%d", &v[0], &v[1], &v[2])
		for i := range a {
			if a[i] != v[i] {
				return a[i] > v[i]
			}
		}
		return true
	}
	args, more := c.Args, []string{}
	for i, a := range c.Args {
		if a == "--" {
			args, more = c.Args[:i], c.Args[i+1:]
			break
		}
	}
	isHelp := func(a string) bool { return a == "-h" || a == "--h" || a == "-help" || a == "--help" }
	find := func(name string) *pcommand {
		for i := range c.Cmds {
			if c.Cmds[i].Name == name {
				return &c.Cmds[i]
			}
		}
		return nil
	}
	var helped *pcommand
	overview, unknown := false, ""
	if len(args) > 0 {
		name, asked := "", false
		if args[0] == "help" || isHelp(args[0]) {
			asked = true
			if len(args) > 1 {
				name = args[1]
			}
		} else {
			for _, a := range args[1:] {
				asked = asked || isHelp(a)
			}
			name = args[0]
		}
		switch {
		case asked && len(args) == 1:
			overview = true
		case asked && name == "prog":
			helped = &c.Cmds[0]
		case asked:
			if helped = find(name); helped == nil {
				overview, unknown = true, name
			}
		}
	}
	if len(codes) != 1 {
		return fail("the program has exited %d times", len(codes))
	}
	usageOf := func(text string, k pcommand) string {
		need := []string{"prog " + k.Name + " <usage of " + k.Name + ">", "short doc of " + k.Name, "documentation of " + k.Name, "#link-of-" + k.Name}
		for i, f := range k.Flags {
			if f.Name != "" {
				need = append(need, "--"+f.Name)
				if f.Key != "two" {
					need = append(need, fmt.Sprintf("does %d%% of %s", i, k.Name))
				}
			}
		}
		for _, n := range need {
			if !strings.Contains(text, n) {
				return n
			}
		}
		return ""
	}
	if helped != nil || overview {
		want := 0
		if unknown != "" || overview && len(args) > 1 {
			want = 1
		}
		if codes[0] != want || len(calls) > 0 || stderr != "" {
			return fail("help was asked for: want exit code %d and nothing else", want)
		}
		if helped != nil {
			if miss := usageOf(stdout, *helped); miss != "" {
				return fail("the help for %s lacks %q", helped.Name, miss)
			}
		} else {
			for _, k := range c.Cmds {
				if !strings.Contains(stdout, "prog "+k.Name+" <usage of "+k.Name+">") || !strings.Contains(stdout, "short doc of "+k.Name) {
					return fail("%s is not in the overview", k.Name)
				}
			}
			if unknown != "" && !strings.Contains(stdout, "Unknown Command: "+unknown) {
				return fail("want to be told of an unknown command %q", unknown)
			}
		}
		return vf.Outcome{NonTrivial: helped != nil, Classes: []string{"help"}}
	}
	k := &c.Cmds[0]
	if len(args) > 0 {
		if args[0] == k.Name {
			args = args[1:]
		} else if has(c.Old, args[0]) {
			told := strings.Contains(stderr, "the command "+args[0]+" is deprecated") && strings.Contains(stderr, "#no-more-"+args[0])
			if codes[0] != 0 || len(calls) > 0 || told == acked("2.4.3") {
				return fail("%s is a deprecated command", args[0])
			}
			return vf.Outcome{NonTrivial: true, Classes: []string{"deprecated command"}}
		} else if n := find(args[0]); n != nil {
			k, args = n, args[1:]
		}
	}
	values, rest, used, bad := k.parse(args)
	usageExpected := bad != ""
	code := 0
	var texts []string
	if bad == "" {
		for _, a := range rest {
			if len(a) > 1 && a[0] == '-' {
				bad = "Malformed arguments"
			}
		}
	}
	class := "runs"
	if bad != "" {
		class, code, texts = "rejected", 1, []string{bad}
		if len(calls) > 0 {
			return fail("want %q, not to run the command", bad)
		}
	} else {
		if len(calls) != 1 || calls[0].name != k.Name {
			return fail("want to run %s", k.Name)
		}
		if g := calls[0]; strings.Join(g.args, "\x00") != strings.Join(rest, "\x00") || len(g.args) != len(rest) || strings.Join(g.more, "\x00") != strings.Join(more, "\x00") || len(g.more) != len(more) {
			return fail("want the arguments %q and %q", rest, more)
		}
		if !reflect.DeepEqual(calls[0].values, values) {
			return fail("want the flags %+v, got %+v", *values, *calls[0].values)
		}
		switch k.Ends {
		case "with":
			code, texts = 1, []string{k.Text}
		case "usage":
			code, texts, usageExpected = 1, []string{k.Text}, true
		case "graceful":
			texts = []string{k.Text}
		case "if":
			code, texts = 1, []string{"preamble", k.Text}
		case "ifs":
			code, texts = 1, []string{"preamble", k.Text, "and more"}
		case "code":
			code = 7
		case "code-usage":
			code, usageExpected = 3, true
		}
	}
	if codes[0] != code {
		return fail("want exit code %d", code)
	}
	if len(texts) > 0 {
		texts = append(texts, "prog "+k.Name+" failed")
	}
	for _, text := range texts {
		for _, line := range strings.Split(text, "\n") {
			if !strings.Contains(stderr, line) {
				return fail("want to be told %q", line)
			}
		}
	}
	if usageExpected {
		if miss := usageOf(stderr, *k); miss != "" {
			return fail("the usage of %s lacks %q", k.Name, miss)
		}
	} else if strings.Contains(stderr, "<usage of") {
		return fail("the usage is unwanted")
	}
	if stdout != "" {
		return fail("want nothing on stdout")
	}
	any := false
	for _, f := range k.Flags {
		if f.Old == "" {
			continue
		}
		msg := "--" + f.Old + " is deprecated"
		if f.Name != "" {
			msg += ", use --" + f.Name + " instead"
		}
		want := 0
		if used[f.Old] && !acked(f.Ack) {
			want = 1
			any = true
		}
		if n := strings.Count(stderr, msg); n != want || want == 1 && !strings.Contains(stderr, "MIGRATING_TO_V2#about-"+f.Old) {
			return fail("want to be told %d times %q", want, msg)
		}
	}
	if strings.Contains(stderr, "ACK_GINKGO_DEPRECATIONS") != any {
		return fail("deprecations are reported: %v, want %v", !any, any)
	}
	if any {
		class += ", deprecated flag"
	}
	return vf.Outcome{NonTrivial: bad != "" || len(used) > 0 || len(rest)+len(more) > 0, Classes: []string{class}}
}

type dop struct {
	Msg, Version string
	At           int // 0: nowhere
}

type dcase struct {
	Ack string
	Ops []dop
}

// T09: what is deprecated is reported once, with all the places where it is used.
func TestT09_deprecations(t *testing.T) {
	vf.Run(t, vf.Prop[dcase]{ID: "T09", Sub: "deprecations", Rule: "a deprecation is used at two places", Quick: 100000, Thorough: 3000000,
		Gen: func(t *rapid.T) dcase {
			c := dcase{Ack: vf.Pick(t, "acknowledged", "", "", "1.16.0", "2.5.0", "2.4.12", "v2.5.1", "2.10.0", "3", "1")}
			for i := vf.U(t, "ops", 8); i > 0; i-- {
				o := dop{Msg: vf.Pick(t, "message", "first", "second, 100% %d", "third"), At: vf.U(t, "place", 4)}
				o.Version = map[string]string{"f": "1.16.0", "s": "", "t": "2.5.2"}[o.Msg[:1]]
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Check: func(c dcase) vf.Outcome {
			if c.Ack != "" {
				os.Setenv("ACK_GINKGO_DEPRECATIONS", c.Ack)
				defer os.Unsetenv("ACK_GINKGO_DEPRECATIONS")
			} else {
				os.Unsetenv("ACK_GINKGO_DEPRECATIONS")
			}
			tr := types.NewDeprecationTracker()
			var a [3]int
			fmt.Sscanf(strings.TrimPrefix(c.Ack, "v"), "%d.%d.%d", &a[0], &a[1], &a[2])
			ack := a[0]*1000000 + a[1]*1000 + a[2]
			places := map[string][]string{}
			for _, o := range c.Ops {
				d := types.Deprecation{Message: o.Msg, Version: o.Version, DocLink: "link-" + o.Msg[:1]}
				silenced := o.Version == "1.16.0" && ack >= 1016000 || o.Version == "2.5.2" && ack >= 2005002
				if o.At > 0 {
					tr.TrackDeprecation(d, types.CodeLocation{FileName: "/a/place.go", LineNumber: o.At * 10})
				} else {
					tr.TrackDeprecation(d)
				}
				if silenced {
					continue
				}
				if places[o.Msg] == nil {
					places[o.Msg] = []string{}
				}
				if o.At > 0 {
					places[o.Msg] = append(places[o.Msg], fmt.Sprintf("/a/place.go:%d", o.At*10))
				}
			}
			if tr.DidTrackDeprecations() != (len(places) > 0) {
				return vf.Fail("%+v: there are deprecations: %v", c, tr.DidTrackDeprecations())
			}
			text := ansi.ReplaceAllString(tr.DeprecationsReport(), "")
			got, cur := map[string][]string{}, ""
			for _, l := range strings.Split(text, "\n") {
				l = strings.TrimSpace(l)
				switch {
				case l == "first" || strings.HasPrefix(l, "second") || l == "third":
					if got[l] != nil {
						return vf.Fail("%+v: %q is reported twice:\n%s", c, l, text)
					}
					cur = l
					got[l] = []string{}
				case strings.HasPrefix(l, "Learn more") && !strings.HasSuffix(l, "#link-"+cur[:1]):
					return vf.Fail("%+v: %q has the link %s", c, cur, l)
				case strings.HasPrefix(l, "/a/place.go"):
					got[cur] = append(got[cur], l)
				}
			}
			if !reflect.DeepEqual(got, places) {
				return vf.Fail("%+v: reported are %v, want %v:\n%s", c, got, places, text)
			}
			two := false
			for _, p := range places {
				two = two || len(p) > 1
			}
			return vf.Outcome{NonTrivial: two}
		}})
}
