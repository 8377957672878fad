package reports

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"pgregory.net/rapid"
)

// message is a TeamCity service message.
type message struct {
	kind string
	attr map[string]string
}

// parseTC reads service messages, one per line, by the rules of TeamCity.
func parseTC(text string) ([]message, error) {
	if text != "" && !strings.HasSuffix(text, "\n") {
		return nil, fmt.Errorf("the last line is not finished")
	}
	var out []message
	for i, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if text == "" {
			break
		}
		rest, ok := strings.CutPrefix(line, "##teamcity[")
		if !ok {
			return nil, fmt.Errorf("line %d is no service message: %q", i, line)
		}
		m := message{attr: map[string]string{}}
		end := strings.IndexAny(rest, " ]")
		if end < 0 {
			return nil, fmt.Errorf("line %d: %q", i, line)
		}
		m.kind, rest = rest[:end], rest[end:]
		for strings.HasPrefix(rest, " ") {
			name, value, ok := strings.Cut(rest[1:], "='")
			if !ok || strings.ContainsAny(name, " '|[]") {
				return nil, fmt.Errorf("line %d: no attribute at %q", i, rest)
			}
			val := &strings.Builder{}
			for {
				if value == "" {
					return nil, fmt.Errorf("line %d: attribute %s does not end", i, name)
				}
				c := value[0]
				value = value[1:]
				if c == '\'' {
					break
				}
				if c == '[' || c == ']' || c == '\r' {
					return nil, fmt.Errorf("line %d: %q is not escaped in %s", i, c, name)
				}
				if c == '|' {
					if value == "" {
						return nil, fmt.Errorf("line %d: %s ends with an escape", i, name)
					}
					e := value[0]
					value = value[1:]
					switch e {
					case 'n':
						c = '\n'
					case 'r':
						c = '\r'
					case '|', '\'', '[', ']':
						c = e
					default:
						return nil, fmt.Errorf("line %d: no such escape: |%c", i, e)
					}
				}
				val.WriteByte(c)
			}
			if _, dup := m.attr[name]; dup {
				return nil, fmt.Errorf("line %d: %s twice", i, name)
			}
			m.attr[name] = val.String()
			rest = value
		}
		if rest != "]" {
			return nil, fmt.Errorf("line %d: %q behind the message", i, rest)
		}
		out = append(out, m)
	}
	return out, nil
}

func checkTC(p rep.Report, ms []message) error {
	suite := p.Desc
	if len(p.Labels) > 0 {
		suite += " [" + strings.Join(p.Labels, ", ") + "]"
	}
	if len(ms) < 2 || ms[0].kind != "testSuiteStarted" || ms[len(ms)-1].kind != "testSuiteFinished" || ms[0].attr["name"] != suite || ms[len(ms)-1].attr["name"] != suite {
		return fmt.Errorf("suite %q starts with %v and ends with %v", suite, ms[0], ms[len(ms)-1])
	}
	ms = ms[1 : len(ms)-1]
	for i, s := range p.Specs {
		name := "[" + leafNames[s.Type] + "]"
		if ft := s.FullText(); ft != "" {
			name += " " + ft
		}
		if ls := s.AllLabels(); len(ls) > 0 {
			name += " [" + strings.Join(ls, ", ") + "]"
		}
		n := 0
		for n < len(ms) && ms[n].kind != "testFinished" {
			n++
		}
		if n == len(ms) || ms[0].kind != "testStarted" {
			return fmt.Errorf("test %d is not started and finished: %v", i, ms)
		}
		own := ms[:n+1]
		ms = ms[n+1:]
		kinds := map[string][]message{}
		for _, m := range own {
			if m.attr["name"] != name {
				return fmt.Errorf("message %s of test %d is about %q, not %q", m.kind, i, m.attr["name"], name)
			}
			kinds[m.kind] = append(kinds[m.kind], m)
		}
		if d := own[n].attr["duration"]; d != fmt.Sprint(s.Run) && d != fmt.Sprint(s.Run-1) { // seconds are multiplied out, and cut off
			return fmt.Errorf("test %d took %d ms, not %s", i, s.Run, d)
		}
		ignored, failed, so, se := kinds["testIgnored"], kinds["testFailed"], kinds["testStdOut"], kinds["testStdErr"]
		if len(so) != 1 || len(se) != 1 || len(own) != len(ignored)+len(failed)+4 {
			return fmt.Errorf("messages of test %d: %v", i, own)
		}
		msg := ""
		if s.Fail != nil {
			msg = s.Fail.Msg
		}
		st := stateNames[s.State]
		wantIgnored, wantFailed := "", ""
		switch st {
		case "passed":
		case "pending":
			wantIgnored = "pending"
		case "skipped":
			wantIgnored = "skipped"
			if msg != "" {
				wantIgnored += " - " + msg
			}
		case "panicked":
			wantFailed = st + " - " + s.Fail.Panic
		default:
			wantFailed = st + " - " + msg
		}
		if (wantIgnored != "") != (len(ignored) == 1) || (wantFailed != "") != (len(failed) == 1) || len(ignored) > 1 || len(failed) > 1 {
			return fmt.Errorf("test %d (%s): %d testIgnored, %d testFailed", i, st, len(ignored), len(failed))
		}
		if wantIgnored != "" && ignored[0].attr["message"] != wantIgnored {
			return fmt.Errorf("test %d: message %q, expected %q", i, ignored[0].attr["message"], wantIgnored)
		}
		if wantFailed != "" {
			if failed[0].attr["message"] != wantFailed {
				return fmt.Errorf("test %d: message %q, expected %q", i, failed[0].attr["message"], wantFailed)
			}
			sq := &seq{what: fmt.Sprintf("details of test %d", i), out: failed[0].attr["details"]}
			sq.failure(s.State, s.Fail, true)
			if sq.err != nil {
				return sq.err
			}
		}
		if so[0].attr["out"] != s.Out {
			return fmt.Errorf("test %d: stdout %q, expected %q", i, so[0].attr["out"], s.Out)
		}
		list := items(s, true)
		if err := timeline(fmt.Sprintf("stderr of test %d", i), se[0].attr["out"], s.GW, list, true, nil); err != nil {
			return err
		}
		if err := once(fmt.Sprintf("stderr of test %d", i), se[0].attr["out"], true, s.GW); err != nil {
			return err
		}
	}
	if len(ms) != 0 {
		return fmt.Errorf("messages about no spec: %v", ms)
	}
	return nil
}

type tcCase struct {
	Rs    []rep.Report
	Files []int
}

// R03: the TeamCity form of a report is well-formed and has every spec, with its outcome.
func TestR03_teamcity(t *testing.T) {
	vf.Run(t, vf.Prop[tcCase]{ID: "R03", Sub: "teamcity", Rule: "a report with specs was written", Quick: 16000, Thorough: 600000,
		Gen: func(t *rapid.T) tcCase {
			c := tcCase{}
			for i := vf.Range(t, "reports", 1, 3); i > 0; i-- {
				c.Rs = append(c.Rs, rep.GenReport(t, rep.Opt{MaxSpecs: 3, Tokens: true}))
				f := 0
				if vf.Pct(t, "odd", 15) {
					f = 1
				}
				c.Files = append(c.Files, f)
			}
			return c
		},
		Check: func(c tcCase) vf.Outcome {
			dir := scratch()
			defer os.RemoveAll(dir)
			var files []string
			want := ""
			n := 0
			for i, p := range c.Rs {
				file := filepath.Join(dir, fmt.Sprintf("sub%d", i), "r.tc")
				if err := reporters.GenerateTeamcityReport(p.Build(), file); err != nil {
					return vf.Fail("cannot write the report: %v", err)
				}
				text := read(file)
				ms, err := parseTC(text)
				if err != nil {
					return vf.Fail("report %d: %v", i, err)
				}
				if err := checkTC(p, ms); err != nil {
					return vf.Fail("report %d: %v", i, err)
				}
				if c.Files[i] == 0 {
					want += text
				} else {
					os.Remove(file)
				}
				files = append(files, file)
				n += len(p.Specs)
			}
			dst := filepath.Join(dir, "out", "deep", "all.tc")
			msgs, err := reporters.MergeAndCleanupTeamcityReports(files, dst)
			if err != nil {
				return vf.Fail("cannot merge: %v", err)
			}
			if got := read(dst); got != want {
				return vf.Fail("the merged report is\n%s\nexpected\n%s", got, want)
			}
			if err := leftovers(files, c.Files, msgs); err != nil {
				return vf.Outcome{Err: err}
			}
			return vf.Outcome{NonTrivial: n > 0, Evals: len(c.Rs)}
		}})
}
