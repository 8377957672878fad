package unit

import (
	"fmt"
	"regexp"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/onsi/ginkgo/v2/formatter"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

type fmtCase struct {
	Format        []string
	Arg           string
	Args          bool
	Indent, Width int
	Join          []string
}

var styles = []string{"{{/}}", "{{bold}}", "{{underline}}", "{{red}}", "{{orange}}", "{{coral}}", "{{magenta}}", "{{green}}", "{{dark-green}}", "{{yellow}}", "{{light-yellow}}", "{{cyan}}", "{{gray}}", "{{light-gray}}", "{{blue}}"}
var noStyles = []string{"a", "word", "longer-word", "é", "世界", " ", " ", " ", "  ", "\n", "\n", "\n\n", "\t", "{{", "}}", "{{nope}}", "{red}", "{{ red }}", "{{RED}}", "x1", "."}

func isStyle(s string) bool {
	for _, x := range styles {
		if x == s {
			return true
		}
	}
	return false
}

var blank = regexp.MustCompile(`(?m)^ +$`) // a line of styles only is indented, too

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")

// R05: text is styled, indented and wrapped, and otherwise left as it is.
func TestR05_formatter(t *testing.T) {
	none, term, pass := formatter.New(formatter.ColorModeNone), formatter.New(formatter.ColorModeTerminal), formatter.New(formatter.ColorModePassthrough)
	vf.Run(t, vf.Prop[fmtCase]{ID: "R05", Sub: "formatter", Rule: "the text is styled, indented or wrapped", Quick: 200000, Thorough: 6000000,
		Gen: func(t *rapid.T) fmtCase {
			c := fmtCase{Args: vf.Pct(t, "args", 40), Indent: vf.Range(t, "indent", 0, 4)}
			piece := func() string {
				if vf.Pct(t, "style", 25) {
					return styles[vf.U(t, "style", len(styles))]
				}
				return noStyles[vf.U(t, "word", len(noStyles))]
			}
			for i := vf.Range(t, "pieces", 0, 14); i > 0; i-- {
				c.Format = append(c.Format, piece())
			}
			if vf.Pct(t, "wrap", 60) {
				c.Width = 2*c.Indent + vf.Range(t, "width", 1, 30)
			}
			for i := vf.Range(t, "arg", 0, 5); i > 0; i-- {
				c.Arg += piece()
			}
			for i := vf.Range(t, "join", 0, 4); i > 0; i-- {
				c.Join = append(c.Join, noStyles[vf.U(t, "word", 5)])
			}
			return c
		},
		Check: func(c fmtCase) vf.Outcome {
			// a style may also come about where two pieces meet: such texts are not looked at
			format := strings.Join(c.Format, "")
			plain := ""
			n := 0
			for _, p := range c.Format {
				if isStyle(p) {
					n++
				} else {
					plain += p
				}
			}
			count := 0
			for _, s := range styles {
				count += strings.Count(format, s)
			}
			if count != n {
				return vf.Outcome{}
			}
			run := func(f formatter.Formatter, indent, width int) string {
				if c.Args {
					return f.Fiw(uint(indent), uint(width), format+"%s%d%%", c.Arg, 7)
				}
				return f.Fiw(uint(indent), uint(width), format)
			}
			tail := ""
			if c.Args {
				tail = c.Arg + "7%"
			}
			text := plain + tail
			if got := run(none, 0, 0); got != text {
				return vf.Fail("without colour: %q, expected %q", got, text)
			}
			if got := run(pass, 0, 0); got != format+tail {
				return vf.Fail("passed through: %q, expected %q", got, format+tail)
			}
			if got := run(term, 0, 0); sgr.ReplaceAllString(got, "") != text || strings.Count(got, "\x1b[") != n {
				return vf.Fail("in colour: %q, expected %q with %d styles", got, text, n)
			}
			out := run(none, c.Indent, c.Width)
			if got := sgr.ReplaceAllString(run(term, c.Indent, c.Width), ""); blank.ReplaceAllString(got, "") != blank.ReplaceAllString(out, "") {
				return vf.Fail("in colour the lines are %q, else %q", got, out)
			}
			if err := layout(text, out, c.Indent, c.Width); err != nil {
				return vf.Outcome{Err: err}
			}
			if c.Width == 0 && !c.Args {
				if got := none.Fi(uint(c.Indent), format); got != out {
					return vf.Fail("Fi: %q, expected %q", got, out)
				}
				if got := none.F(format); got != text {
					return vf.Fail("F: %q, expected %q", got, text)
				}
			}
			if got := none.CycleJoin(c.Join, ", ", []string{"{{red}}", "{{/}}"}); got != strings.Join(c.Join, ", ") {
				return vf.Fail("joined %q to %q", c.Join, got)
			}
			want := ""
			for i, e := range c.Join {
				if i > 0 {
					want += ", "
				}
				want += []string{"{{red}}", "{{/}}"}[i%2] + e
			}
			if len(c.Join) > 0 {
				want += "{{/}}"
			}
			if got := pass.CycleJoin(c.Join, ", ", []string{"{{red}}", "{{/}}"}); got != want {
				return vf.Fail("joined %q to %q, expected %q", c.Join, got, want)
			}
			return vf.Outcome{NonTrivial: text != "" && (n > 0 || c.Indent > 0 || c.Width > 0)}
		}})
}

// layout: the lines of out are those of text, indented, and broken between words where they are too wide.
func layout(text, out string, indent, width int) error {
	pad := strings.Repeat("  ", indent)
	lines := strings.Split(out, "\n")
	for i, l := range lines {
		if l == "" {
			continue
		}
		if !strings.HasPrefix(l, pad) {
			return fmt.Errorf("line %q is not indented by %d", l, indent)
		}
		lines[i] = l[len(pad):]
	}
	room := width - 2*indent
	i := 0
	for _, l := range strings.Split(text, "\n") {
		if width == 0 {
			if i >= len(lines) || lines[i] != l {
				return fmt.Errorf("line %q of %q is missing in %q", l, text, out)
			}
			i++
			continue
		}
		// put the line together from those it was broken into
		got := ""
		for first := true; ; first = false {
			if i >= len(lines) {
				return fmt.Errorf("line %q of %q is missing in %q", l, text, out)
			}
			part := lines[i]
			if n := utf8.RuneCountInString(part); n > room && strings.Contains(part, " ") {
				return fmt.Errorf("line %q is wider than %d and could be broken", part, room)
			}
			if !first {
				if word, _, _ := strings.Cut(part, " "); utf8.RuneCountInString(lines[i-1])+1+utf8.RuneCountInString(word) <= room {
					return fmt.Errorf("%q would fit behind %q (%d)", word, lines[i-1], room)
				}
				got += " "
			}
			got += part
			i++
			if got == l {
				break
			}
			if !strings.HasPrefix(l, got) {
				return fmt.Errorf("line %q of %q became %q in %q", l, text, got, out)
			}
		}
	}
	if i != len(lines) {
		return fmt.Errorf("%d lines too many in %q", len(lines)-i, out)
	}
	return nil
}
