package cli

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type timeoutCase struct {
	runCase
	Ms int // the timeout
}

// T06: --timeout is a limit to the command: to all suites, in all rounds.
func TestT06_timeout(t *testing.T) {
	vf.Run(t, vf.Prop[timeoutCase]{ID: "T06", Sub: "timeout", Rule: "the timeout elapsed after two suites or rounds had been started", Quick: 240, Thorough: 6000,
		Gen: func(t *rapid.T) timeoutCase {
			c := timeoutCase{Ms: vf.Pick(t, "ms", 300, 500, 800)}
			c.Procs, c.KeepGoing, c.JSON, c.Separate = 1, vf.Pct(t, "keep going", 50), true, vf.Pct(t, "separate", 20)
			if vf.Pct(t, "parallel", 30) {
				c.Procs = vf.Range(t, "procs", 2, 3)
			}
			switch vf.U(t, "repetition", 3) {
			case 0:
				c.Repeat = vf.Pick(t, "repeat", 1, 2, 20)
			case 1:
				c.UntilItFails = true
			}
			for i := vf.Range(t, "suites", 1, 4); i > 0; i-- {
				s := suite{Path: paths[len(c.Suites)], Precompiled: vf.Pct(t, "precompiled", 25)}
				s.B.Name = "suite " + s.Path
				for k := vf.Range(t, "specs", 1, 3); k > 0; k-- {
					s.B.Specs = append(s.B.Specs, spec{Text: fmt.Sprintf("spec-%d", k), Do: "pass", Ms: vf.Pick(t, "ms", 0, 10, 60)})
				}
				if vf.Pct(t, "block", 15) {
					b := &s.B.Specs[vf.U(t, "blocks", len(s.B.Specs))]
					b.Do, b.On = "block", vf.Pick(t, "on", 0, 1, 2)
				}
				c.Suites = append(c.Suites, s)
			}
			return c
		},
		Check: func(c timeoutCase) (o vf.Outcome) {
			for try := 0; try < 3; try++ { // a command that hangs may have been held up
				var hung bool
				if o, hung = checkTimeout(c); !hung {
					break
				}
			}
			return
		}})
}

func checkTimeout(c timeoutCase) (o vf.Outcome, hung bool) {
	top, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	root := filepath.Join(top, "root")
	for _, s := range c.Suites {
		s.put(root, os.Getenv("VF_FIXTURE"))
	}
	limit := time.Duration(c.Ms) * time.Millisecond
	args := append([]string{"--timeout=" + limit.String()}, c.args()...)
	start := time.Now()
	out, errOut, exit, stuck := ginkgo(top, os.Getenv("VF_FIXTURE"), args)
	took := time.Since(start)
	fail := func(format string, a ...any) vf.Outcome {
		return vf.Fail("ginkgo %q: %s\n--- output ---\n%s\n--- error output ---\n%s", args, fmt.Sprintf(format, a...), clip(out), clip(errOut))
	}
	if stuck != "" {
		return fail("%s", stuck), true
	}

	// when each suite was started: by suite, by round
	ats := map[int][]int64{}
	first, last, runs, most, least := int64(0), int64(0), 0, 0, 1<<30
	for i, s := range c.Suites {
		b, _ := os.ReadFile(filepath.Join(root, s.Path, "ran.log"))
		n := 0
		for _, l := range strings.Split(string(b), "\n") {
			if w, ok := strings.CutPrefix(l, "at "); ok {
				at, _ := strconv.ParseInt(w, 10, 64)
				n++
				ats[i] = append(ats[i], at)
				if first == 0 || at < first {
					first = at
				}
				last = max(last, at)
			}
		}
		if n%c.Procs != 0 {
			return fail("%s was run by %d processes", s.Path, n), false
		}
		runs += n / c.Procs
		most, least = max(most, n/c.Procs), min(least, n/c.Procs)
	}
	_ = last

	if exit == 1 && took >= limit && strings.Contains(out, "ReportAfterSuite] Autogenerated") {
		// the timeout came while a report was being written: what it says then may be what was true before
		return vf.Outcome{Classes: []string{"while-reporting"}}, false
	}
	reports := map[string]types.Report{}
	names := []string{filepath.Join(root, "r.json")}
	if c.Separate {
		names = nil
		for _, s := range c.Suites {
			names = append(names, filepath.Join(root, s.Path, "r.json"))
		}
	}
	for _, n := range names {
		data, err := os.ReadFile(n)
		var rs []types.Report
		if err == nil {
			err = json.Unmarshal(data, &rs)
		}
		if err != nil {
			return fail("%s", err), false
		}
		for _, r := range rs {
			reports[r.SuitePath] = r
		}
	}

	rounds := c.Repeat + 1
	if exit == 0 {
		if c.UntilItFails {
			return fail("it ends with 0"), false
		}
		if least != rounds || most != rounds {
			return fail("it ends with 0 after running the suites %d to %d times, want %d", least, most, rounds), false
		}
	} else {
		if exit != 1 {
			return fail("it ends with %d", exit), false
		}
		if took < limit {
			return fail("it ends with 1 after %s, and nothing fails before the timeout", took), false
		}
		if most > least+1 || !c.UntilItFails && most > rounds {
			return fail("the suites were run %d to %d times", least, most), false
		}
	}
	if !strings.Contains(out, map[bool]string{true: "Test Suite Passed\n", false: "Test Suite Failed\n"}[exit == 0]) {
		return fail("it ends with %d and says otherwise", exit), false
	}

	late, passed := false, 0
	for i, s := range c.Suites {
		r, ok := reports[filepath.Join(root, s.Path)]
		if !ok {
			return fail("no report of %s", s.Path), false
		}
		if len(reports) != len(c.Suites) {
			return fail("%d reports", len(reports)), false
		}
		ran := len(ats[i]) / c.Procs
		why := strings.Join(r.SpecialSuiteFailureReasons, "; ")
		if strings.Contains(why, timeoutReason) || strings.Contains(why, priorReason) {
			if r.SuiteSucceeded || len(r.SpecReports) > 0 {
				return fail("%s did not run, and is reported as passed or with specs", s.Path), false
			}
			if ran == most && ran > least {
				return fail("%s ran in the last round and is reported as not run: %s", s.Path, why), false
			}
			if strings.Contains(why, priorReason) && c.KeepGoing {
				return fail("%s did not run because of prior failures under --keep-going", s.Path), false
			}
			if !late && !strings.Contains(why, timeoutReason) {
				return fail("%s did not run and nothing before it failed", s.Path), false
			}
			if late && !c.KeepGoing && strings.Contains(why, timeoutReason) {
				return fail("%s: %s, but a suite before it failed", s.Path, why), false
			}
			late = true
			continue
		}
		if late && (!c.KeepGoing || !r.SuiteSucceeded) { // what was started after the timeout had nothing left to run in
			return fail("%s ran after the timeout", s.Path), false
		}
		if late {
			return fail("%s ran after the timeout, and passed", s.Path), false
		}
		for _, sr := range r.SpecReports {
			if sr.LeafNodeType != types.NodeTypeIt {
				continue
			}
			for _, p := range s.B.Specs {
				if p.Text == sr.LeafNodeText && p.Do == "block" && (p.On == 0 || p.On == ran) && sr.State == types.SpecStatePassed {
					return fail("%s: %s passed, and should have been held up until the timeout", s.Path, p.Text), false
				}
			}
			switch sr.State {
			case types.SpecStatePassed, types.SpecStateSkipped:
			case types.SpecStateTimedout:
				if r.SuiteSucceeded {
					return fail("%s is reported as passed with a spec that timed out", s.Path), false
				}
				if !strings.Contains(sr.Failure.Message, "suite timeout") {
					return fail("%s: %s timed out with %q", s.Path, sr.LeafNodeText, sr.Failure.Message), false
				}
			default:
				return fail("%s: %s is %s", s.Path, sr.LeafNodeText, sr.State), false
			}
		}
		if r.SuiteSucceeded {
			passed++
		} else {
			late = true
		}
		// what a suite is given is what the suites started before it left
		if g := r.SuiteConfig.Timeout; g <= 0 || g > limit {
			return fail("%s was run with a timeout of %s", s.Path, g), false
		}
		mine := ats[i][len(ats[i])-1]
		for _, at := range ats[i][len(ats[i])-c.Procs:] {
			mine = min(mine, at)
		}
		before := int64(0)
		for _, as := range ats {
			for _, at := range as {
				if at < mine {
					before = max(before, at)
				}
			}
		}
		if before > 0 {
			if g := r.SuiteConfig.Timeout; g > limit-time.Duration(before-first) {
				return fail("%s was run with a timeout of %s when at least %s of %s had elapsed", s.Path, g, time.Duration(before-first), limit), false
			}
		}
	}
	if exit == 0 && passed != len(c.Suites) || exit == 1 && passed == len(c.Suites) {
		return fail("it ends with %d and %d of %d suites are reported as passed", exit, passed, len(c.Suites)), false
	}
	o = vf.Outcome{NonTrivial: exit == 1 && runs > 1, Classes: []string{fmt.Sprintf("exit %d", exit), fmt.Sprintf("rounds %d", min(most, 3))}}
	return o, false
}
