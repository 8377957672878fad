package reports

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type consoleCase struct {
	R                                                     rep.Report
	V                                                     int  // verbosity
	Github, Newlines, FullTrace, NodeEvents, SilenceSkips bool `json:",omitempty"`
}

func (c consoleCase) conf(color bool) types.ReporterConfig {
	return types.ReporterConfig{NoColor: !color, Succinct: c.V == 0, Verbose: c.V == 2, VeryVerbose: c.V == 3, GithubOutput: c.Github, ForceNewlines: c.Newlines, FullTrace: c.FullTrace, ShowNodeEvents: c.NodeEvents, SilenceSkips: c.SilenceSkips}
}

// shown is what the reporter printed, by occasion.
type shown struct {
	begin, end      string
	will, live, did []string
}

// play tells the reporter about a run with this report, as the suite would.
func (c consoleCase) play(color bool) shown {
	buf := &bytes.Buffer{}
	r := reporters.NewDefaultReporter(c.conf(color), buf)
	take := func() string {
		defer buf.Reset()
		return buf.String()
	}
	out := shown{}
	report := c.R.Build()
	begin := report
	begin.SpecReports = nil
	r.SuiteWillBegin(begin)
	out.begin = take()
	for i, s := range report.SpecReports {
		will := s
		if will.State != types.SpecStateSkipped && will.State != types.SpecStatePending {
			will.State = types.SpecStateInvalid
		}
		will.Failure = types.Failure{}
		r.WillRun(will)
		out.will = append(out.will, take())
		if !s.RunningInParallel {
			for _, e := range s.Timeline() {
				switch x := e.(type) {
				case types.Failure:
					x.AdditionalFailure = nil
					r.EmitFailure(s.State, x)
				case types.AdditionalFailure:
					r.EmitFailure(x.State, x.Failure)
				case types.ReportEntry:
					r.EmitReportEntry(x)
				case types.ProgressReport:
					r.EmitProgressReport(x)
				case types.SpecEvent:
					r.EmitSpecEvent(x)
				}
			}
		}
		out.live = append(out.live, take())
		r.DidRun(report.SpecReports[i])
		out.did = append(out.did, take())
	}
	r.SuiteDidEnd(report)
	out.end = take()
	return out
}

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")

// R04: the console tells, at every verbosity, what it is documented to tell, and nothing twice.
func TestR04_console(t *testing.T) {
	vf.Run(t, vf.Prop[consoleCase]{ID: "R04", Sub: "console", Rule: "the run has specs", Quick: 60000, Thorough: 2500000,
		Gen: func(t *rapid.T) consoleCase {
			p := func(n int) bool { return vf.Pct(t, "opt", n) }
			c := consoleCase{R: rep.GenReport(t, rep.Opt{MaxSpecs: 4, Tokens: true}), V: vf.U(t, "v", 4), Github: p(15), Newlines: p(15), FullTrace: p(15), NodeEvents: p(30), SilenceSkips: p(20)}
			for i := range c.R.Specs {
				c.R.Specs[i].Par = c.R.Procs > 1
			}
			return c
		},
		Check: func(c consoleCase) vf.Outcome {
			out := c.play(false)
			if err := c.check(out); err != nil {
				return vf.Outcome{Err: err}
			}
			o := vf.Outcome{NonTrivial: len(c.R.Specs) > 0, Classes: []string{fmt.Sprintf("verbosity-%d", c.V)}}
			if c.R.Procs > 1 {
				o.Classes = append(o.Classes, "parallel")
			}
			plain, colored := strings.Join(out.all(), "\x00"), strings.Join(c.play(true).all(), "\x00")
			if !strings.Contains(plain, "\x1b") {
				norm := func(s string) string { return strings.Join(strings.Fields(sgr.ReplaceAllString(s, "")), " ") }
				if norm(plain) != norm(colored) {
					return vf.Fail("in colour the text is another:\n%q\n%q", norm(plain), norm(colored))
				}
			}
			return o
		}})
}

func (o shown) all() []string {
	out := []string{o.begin}
	for i := range o.did {
		out = append(out, o.will[i], o.live[i], o.did[i])
	}
	return append(out, o.end)
}

func (c consoleCase) check(o shown) error {
	r := c.R
	sq := &seq{what: "the head line", out: o.begin}
	if c.V == 0 {
		sq.need(fmt.Sprintf("[%d] ", r.Seed))
		sq.words(r.Desc)
		if len(r.Labels) > 0 {
			sq.need("[" + strings.Join(r.Labels, ", ") + "]")
		}
		sq.need(fmt.Sprintf("%d/%d specs", r.Will, r.Total))
		if r.Procs > 1 {
			sq.need(fmt.Sprintf("%d procs", r.Procs))
		}
	} else {
		sq.words(r.Desc)
		sq.need(r.Path)
		if len(r.Labels) > 0 {
			sq.need("[" + strings.Join(r.Labels, ", ") + "]")
		}
		sq.need(fmt.Sprintf("Random Seed: %d", r.Seed))
		sq.need(fmt.Sprintf("Will run %d of %d specs", r.Will, r.Total))
		if r.Procs > 1 {
			sq.need(fmt.Sprintf("Running in parallel across %d processes", r.Procs))
		}
	}
	if sq.err != nil {
		return sq.err
	}
	for i, s := range r.Specs {
		if err := c.spec(s, o.will[i], o.live[i], o.did[i]); err != nil {
			return fmt.Errorf("spec %d (%s %s, verbosity %d, parallel %v): %w", i, leafNames[s.Type], stateNames[s.State], c.V, s.Par, err)
		}
	}
	return c.summary(o.end)
}

func (c consoleCase) spec(s rep.Spec, will, live, did string) error {
	texts := append(append([]string{}, s.Texts...), s.Leaf)
	st := stateNames[s.State]
	idle := st == "skipped" || st == "pending"
	streams := c.V >= 2 && !s.Par
	if err := once("before the spec", will, streams && !idle, texts...); err != nil {
		return err
	}
	if (!streams || idle) && will != "" {
		return fmt.Errorf("%q is printed before the spec", will)
	}
	failed := s.Failed()
	silent := st == "skipped" && c.SilenceSkips
	if silent && did != "" {
		return fmt.Errorf("the skipped spec is not silenced: %q", did)
	}
	tl := !streams && (c.V >= 2 || failed) && !silent // there is a timeline
	// content of the spec
	if err := once("the GinkgoWriter's output", did, tl, s.GW); err != nil {
		return err
	}
	if err := once("the output", did, s.Par && !silent, s.Out); err != nil {
		return err
	}
	always := false
	for _, e := range s.Entries {
		see := e.Vis == 0 || e.Vis == 1 && (c.V >= 2 || failed)
		always = always || e.Vis == 0
		if err := once("streamed report entry", live, see && streams, e.Name); err != nil {
			return err
		}
		if err := once("report entry", did, see && !streams && !silent, e.Name); err != nil {
			return err
		}
		if sh, ok := e.Shown(); ok {
			if err := once("value of a report entry", live+did, see && (streams || !silent), sh); err != nil {
				return err
			}
		}
	}
	for i := range s.Progress {
		if err := once("streamed progress report", live, !s.Par, s.Progress[i].Msg, s.Progress[i].Leaf); err != nil {
			return err
		}
		if err := once("progress report", did, tl, s.Progress[i].Msg, s.Progress[i].Leaf); err != nil {
			return err
		}
	}
	for _, e := range s.Events {
		if e.Type > 3 {
			continue
		}
		see := c.V == 3 || c.NodeEvents || e.Type == 0
		if err := once("streamed event", live, streams && see, e.Msg); err != nil {
			return err
		}
		if err := once("event", did, tl && see, e.Msg); err != nil {
			return err
		}
	}
	// the failure
	for f := s.Fail; f != nil; f = f.More {
		// at the end, or in the timeline in full detail
		here, there := (failed || st == "skipped" && c.V == 2) && c.V < 3 || c.V == 3 && tl, streams && c.V == 3
		if st == "skipped" && c.V < 2 && !silent {
			here = (always || s.Par && s.Out != "") && !silent // only if there is something to tell about the spec
		}
		here = here && !silent
		if err := once("streamed failure", live, there, f.Msg, f.Panic); err != nil {
			return err
		}
		if err := once("failure", did, here, f.Msg, f.Panic); err != nil {
			return err
		}
	}
	for _, f := range s.Add {
		if err := once("streamed additional failure", live, streams && c.V == 3, f.Msg, f.Panic); err != nil {
			return err
		}
		if err := once("additional failure", did, tl && c.V == 3, f.Msg, f.Panic); err != nil {
			return err
		}
	}
	if len(s.Add) > 0 && c.V < 3 && failed && !strings.Contains(did, "additional failures") {
		return fmt.Errorf("additional failures are not mentioned in %q", did)
	}
	// the order of things
	var list []item
	for _, it := range items(s, c.V == 3) {
		if it.hidden || it.vv && c.V < 3 && !c.NodeEvents {
			continue
		}
		list = append(list, it)
	}
	lone := c.V < 3 && s.GW == "" && s.Fail != nil && (len(list) == 1 || len(list) == 2 && s.Fail.More != nil)
	if tl && !lone && !(c.Github && c.V == 3) {
		if err := timeline("the timeline", did, s.GW, list, false, nil); err != nil {
			return err
		}
	}
	// the head line
	content := tl && !lone && (s.GW != "" || len(list) > 0) || always && !streams || s.Par && s.Out != "" || failed || c.V == 3 || c.V == 2 && st != "skipped"
	flaky := st == "passed" && s.Flake > 1 && s.Attempts > 1
	suiteNode := s.Type != 0
	switch {
	case silent:
		return nil
	case st == "passed" && suiteNode && !content:
		if did != "" {
			return fmt.Errorf("%q is printed for a suite node that passed", did)
		}
		return nil
	case flaky:
		if !(suiteNode && !content) && !strings.Contains(did, fmt.Sprintf("[FLAKEY TEST - TOOK %d ATTEMPTS TO PASS]", s.Attempts)) {
			return fmt.Errorf("a flaky spec is not mentioned: %q", did)
		}
		content = true
	case st == "pending":
		content = content || c.V > 0
		if c.V > 0 && !strings.Contains(did, "[PENDING]") {
			return fmt.Errorf("a pending spec is not mentioned: %q", did)
		}
	case st == "skipped":
		content = content || c.V == 2 && s.Fail != nil && s.Fail.Msg != ""
	case failed:
		if !strings.Contains(did, "["+strings.ToUpper(st)+"]") {
			return fmt.Errorf("the spec %s, and it does not say so: %q", st, did)
		}
		if s.MPR > 1 && !strings.Contains(did, fmt.Sprintf("DURING REPETITION #%d", s.Attempts)) {
			return fmt.Errorf("the repetition is not mentioned: %q", did)
		}
	}
	if !content {
		denoter := map[string]string{"passed": "•", "pending": "P", "skipped": "S"}[st]
		if suiteNode && st == "passed" {
			return nil
		}
		if c.Newlines {
			denoter += "\n"
		}
		if did != denoter {
			return fmt.Errorf("%q is printed, expected %q", did, denoter)
		}
		return nil
	}
	named := !streams || st != "passed"
	return once("the name of the spec", did, named, texts...)
}

func (c consoleCase) summary(out string) error {
	r := c.R
	n := map[string]int{}
	fails, its := 0, 0
	bsFailed := false
	var list []string
	for _, s := range r.Specs {
		st := stateNames[s.State]
		if s.Failed() {
			fails++
			texts := append(append([]string{}, s.Texts...), s.Leaf)
			list = append(list, texts...)
			bsFailed = bsFailed || s.Type == 1 || s.Type == 2
		} else if err := once("the list of failures", out, false, s.Leaf); err != nil {
			return err
		}
		if s.Type != 0 {
			continue
		}
		its++
		switch {
		case s.Failed():
			n["failed"]++
			if s.MPR > 1 && s.Attempts > 1 {
				n["repeated"]++
			}
		default:
			n[st]++
			if st == "passed" && s.Flake > 1 && s.Attempts > 1 {
				n["flaked"]++
			}
		}
	}
	sq := &seq{what: "the summary", out: out}
	if fails > 1 {
		sq.need(fmt.Sprintf("Summarizing %d Failures:", fails))
	} else if fails == 1 {
		sq.need("Summarizing 1 Failure:")
	} else if strings.Contains(out, "Summarizing") {
		return fmt.Errorf("there are no failures to summarize: %q", out)
	}
	for _, s := range r.Specs {
		if s.Failed() {
			sq.need(map[string]string{"failed": "[FAIL]", "panicked": "[PANICKED!]", "aborted": "[ABORTED]", "timedout": "[TIMEDOUT]", "interrupted": "[INTERRUPTED]"}[stateNames[s.State]])
			sq.words(append(append([]string{}, s.Texts...), s.Leaf)...)
		}
	}
	if err := once("the list of failures", out, true, list...); err != nil {
		return err
	}
	if c.V == 0 && r.OK {
		sq.need("SUCCESS!")
		return sq.err
	}
	sq.need(fmt.Sprintf("Ran %d of %d Specs in %.3f seconds", n["passed"]+n["failed"], r.Total, float64(r.Run)/1000))
	if r.OK {
		sq.need("SUCCESS!")
	} else {
		sq.need("FAIL!")
	}
	sq.words(r.Special...)
	if its == 0 && bsFailed {
		sq.need("A BeforeSuite node failed so all tests were skipped.")
		return sq.err
	}
	line := fmt.Sprintf("%d Passed | %d Failed | ", n["passed"], n["failed"])
	if n["flaked"] > 0 {
		line += fmt.Sprintf("%d Flaked | ", n["flaked"])
	}
	if n["repeated"] > 0 {
		line += fmt.Sprintf("%d Repeated | ", n["repeated"])
	}
	line += fmt.Sprintf("%d Pending | %d Skipped\n", n["pending"], n["skipped"])
	sq.need(line)
	return sq.err
}
