package reports

import (
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// node is an element of an XML document.
type node struct {
	Name string
	Attr map[string]string
	Text string
	Kids []*node
}

func parseXML(text string) (*node, error) {
	d := xml.NewDecoder(strings.NewReader(text))
	root := &node{}
	stack := []*node{root}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.StartElement:
			n := &node{Name: t.Name.Local, Attr: map[string]string{}}
			for _, a := range t.Attr {
				n.Attr[a.Name.Local] = a.Value
			}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			if len(top.Kids) > 0 {
				top.Text = ""
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.Text += string(t)
		}
	}
	if len(root.Kids) != 1 {
		return nil, fmt.Errorf("%d root elements", len(root.Kids))
	}
	return root.Kids[0], nil
}

func (n *node) all(name string) []*node {
	var out []*node
	for _, k := range n.Kids {
		if k.Name == name {
			out = append(out, k)
		}
	}
	return out
}

func (n *node) num(name string) float64 {
	v, err := strconv.ParseFloat(n.Attr[name], 64)
	if err != nil {
		return math.NaN()
	}
	return v
}

type junitCfg struct {
	OmitTimelines                                                     []int `json:",omitempty"` // indices of states
	OmitMessage, OmitStdout, OmitLabels, OmitNodeType, OmitSuiteNodes bool  `json:",omitempty"`
}

type junitCase struct {
	Rs    []rep.Report
	Cfg   junitCfg
	Files []int
}

// JUnit counters: what the elements of a suite add up to.
type counts struct{ tests, disabled, skipped, errors, failures float64 }

func checkJUnit(p rep.Report, n *node, cfg junitCfg) (counts, error) {
	var c counts
	bad := func(format string, args ...any) (counts, error) { return c, fmt.Errorf(format, args...) }
	if n.Attr["name"] != xmlText(p.Desc) || n.Attr["package"] != xmlText(p.Path) {
		return bad("suite %q in %q is reported as %q in %q", p.Desc, p.Path, n.Attr["name"], n.Attr["package"])
	}
	if got := n.num("time"); math.Abs(got-float64(p.Run)/1000) > 1e-6 {
		return bad("the suite took %d ms, reported are %v s", p.Run, got)
	}
	if want := p.Build().StartTime.Format("2006-01-02T15:04:05"); n.Attr["timestamp"] != want {
		return bad("the suite started at %s, reported is %s", want, n.Attr["timestamp"])
	}
	props := map[string]string{}
	if pp := n.all("properties"); len(pp) == 1 {
		for _, k := range pp[0].Kids {
			props[k.Attr["name"]] = k.Attr["value"]
		}
	}
	for k, want := range map[string]string{"SuiteSucceeded": fmt.Sprint(p.OK), "SuiteHasProgrammaticFocus": fmt.Sprint(p.Focus), "RandomSeed": fmt.Sprint(p.Seed), "LabelFilter": p.Filter, "ParallelTotal": fmt.Sprint(p.Procs),
		"FocusStrings": strings.Join(p.FocusStr, ","), "SpecialSuiteFailureReason": strings.Join(p.Special, ","), "SuiteLabels": "[" + strings.Join(p.Labels, ",") + "]"} {
		if props[k] != xmlText(want) {
			return bad("property %s is %q, expected %q", k, props[k], want)
		}
	}
	var specs []rep.Spec
	for _, s := range p.Specs {
		if s.Type == 0 || !cfg.OmitSuiteNodes {
			specs = append(specs, s)
		}
	}
	cases := n.all("testcase")
	if len(cases) != len(specs) {
		return bad("%d specs became %d test cases", len(specs), len(cases))
	}
	for i, s := range specs {
		tc := cases[i]
		name := ""
		if !cfg.OmitNodeType {
			name = "[" + leafNames[s.Type] + "]"
		}
		if ft := s.FullText(); ft != "" {
			name += " " + ft
		}
		if ls := s.AllLabels(); len(ls) > 0 && !cfg.OmitLabels {
			name += " [" + strings.Join(ls, ", ") + "]"
		}
		if want := xmlText(strings.TrimSpace(name)); tc.Attr["name"] != want {
			return bad("test case %d is called %q, expected %q", i, tc.Attr["name"], want)
		}
		if tc.Attr["classname"] != xmlText(p.Desc) || tc.Attr["status"] != stateNames[s.State] || math.Abs(tc.num("time")-float64(s.Run)/1000) > 1e-6 {
			return bad("test case %d: class %q status %q time %q; state %s, %d ms", i, tc.Attr["classname"], tc.Attr["status"], tc.Attr["time"], stateNames[s.State], s.Run)
		}
		owner := ""
		for _, l := range s.AllLabels() {
			if k, v, ok := strings.Cut(l, ":"); ok && strings.EqualFold(k, "owner") {
				owner = v
			}
		}
		if tc.Attr["owner"] != owner {
			return bad("test case %d: owner %q, expected %q", i, tc.Attr["owner"], owner)
		}
		// what became of it
		skipped, failures, errors := tc.all("skipped"), tc.all("failure"), tc.all("error")
		msg, panicked := "", ""
		if s.Fail != nil {
			msg, panicked = s.Fail.Msg, s.Fail.Panic
		}
		c.tests++
		wantEl, wantMsg := "", ""
		switch stateNames[s.State] {
		case "skipped":
			c.skipped++
			wantEl, wantMsg = "skipped", "skipped"
			if msg != "" {
				wantMsg += " - " + msg
			}
		case "pending":
			c.disabled++
			wantEl, wantMsg = "skipped", "pending"
		case "failed", "timedout":
			c.failures++
			wantEl, wantMsg = "failure", msg
		case "interrupted":
			c.errors++
			wantEl, wantMsg = "error", msg
		case "aborted": // an element of either kind
			c.errors++
			wantEl, wantMsg = "failure", msg
			if len(errors) > 0 {
				wantEl = "error"
			}
		case "panicked":
			c.errors++
			wantEl, wantMsg = "error", panicked
		}
		all := append(append(append([]*node{}, skipped...), failures...), errors...)
		if wantEl == "" && len(all) != 0 || wantEl != "" && (len(all) != 1 || all[0].Name != wantEl) {
			return bad("test case %d (%s) has %d skipped, %d failure and %d error elements", i, stateNames[s.State], len(skipped), len(failures), len(errors))
		}
		if len(all) > 0 {
			if cfg.OmitMessage && wantEl != "skipped" {
				wantMsg = ""
			}
			if all[0].Attr["message"] != xmlText(wantMsg) {
				return bad("test case %d (%s): message %q, expected %q", i, stateNames[s.State], all[0].Attr["message"], wantMsg)
			}
		}
		if wantEl == "failure" || wantEl == "error" {
			if all[0].Attr["type"] != stateNames[s.State] {
				return bad("test case %d: type %q, expected %q", i, all[0].Attr["type"], stateNames[s.State])
			}
			sq := &seq{what: fmt.Sprintf("description of test case %d", i), out: all[0].Text, tr: xmlText}
			sq.failure(s.State, s.Fail, true)
			if sq.err != nil {
				return c, sq.err
			}
		}
		// what it printed
		so, se := "", ""
		for _, k := range tc.all("system-out") {
			so += k.Text
		}
		for _, k := range tc.all("system-err") {
			se += k.Text
		}
		want := xmlText(s.Out)
		if cfg.OmitStdout {
			want = ""
		}
		if so != want {
			return bad("test case %d: system-out %q, expected %q", i, so, want)
		}
		omit := false
		for _, st := range cfg.OmitTimelines {
			omit = omit || st == s.State
		}
		if omit {
			if se != "" {
				return bad("test case %d (%s): the timeline is not omitted", i, stateNames[s.State])
			}
			continue
		}
		list := items(s, true)
		if err := timeline(fmt.Sprintf("system-err of test case %d", i), se, s.GW, list, true, xmlText); err != nil {
			return c, err
		}
		if err := once(fmt.Sprintf("system-err of test case %d", i), se, true, s.GW); err != nil {
			return c, err
		}
		for _, it := range list {
			if err := once(fmt.Sprintf("system-err of test case %d", i), se, true, it.key); err != nil {
				return c, err
			}
		}
	}
	got := counts{n.num("tests"), n.num("disabled"), n.num("skipped"), n.num("errors"), n.num("failures")}
	if got != c {
		return bad("counters %+v, expected %+v", got, c)
	}
	return c, nil
}

// R02: the JUnit form of a report is an XML document that has every spec, with its outcome.
func TestR02_junit(t *testing.T) {
	vf.Run(t, vf.Prop[junitCase]{ID: "R02", Sub: "junit", Rule: "a report with specs was written", Quick: 16000, Thorough: 600000,
		Gen: func(t *rapid.T) junitCase {
			c := junitCase{}
			for i := vf.Range(t, "reports", 1, 3); i > 0; i-- {
				c.Rs = append(c.Rs, rep.GenReport(t, rep.Opt{MaxSpecs: 3, Tokens: true}))
				f := 0
				if vf.Pct(t, "odd", 15) {
					f = vf.Range(t, "file", 1, 3)
				}
				c.Files = append(c.Files, f)
			}
			if vf.Pct(t, "cfg", 50) {
				p := func() bool { return vf.Pct(t, "omit", 30) }
				c.Cfg = junitCfg{OmitMessage: p(), OmitStdout: p(), OmitLabels: p(), OmitNodeType: p(), OmitSuiteNodes: p()}
				for i := range stateNames {
					if p() {
						c.Cfg.OmitTimelines = append(c.Cfg.OmitTimelines, i)
					}
				}
			}
			return c
		},
		Check: func(c junitCase) vf.Outcome {
			dir := scratch()
			defer os.RemoveAll(dir)
			conf := reporters.JunitReportConfig{OmitFailureMessageAttr: c.Cfg.OmitMessage, OmitCapturedStdOutErr: c.Cfg.OmitStdout, OmitSpecLabels: c.Cfg.OmitLabels, OmitLeafNodeType: c.Cfg.OmitNodeType, OmitSuiteSetupNodes: c.Cfg.OmitSuiteNodes}
			for _, st := range c.Cfg.OmitTimelines {
				conf.OmitTimelinesForSpecState |= rep.States[st]
			}
			var files []string
			var suites []*node
			var sum counts
			time, n := 0.0, 0
			for i, p := range c.Rs {
				r := p.Build()
				file := filepath.Join(dir, fmt.Sprintf("sub%d", i), "r.xml")
				var err error
				if reflect.DeepEqual(c.Cfg, junitCfg{}) && i%2 == 0 {
					err = reporters.GenerateJUnitReport(r, file)
				} else {
					err = reporters.GenerateJUnitReportWithConfig(r, file, conf)
				}
				if err != nil {
					return vf.Fail("cannot write the report: %v", err)
				}
				text := read(file)
				root, err := parseXML(text)
				if err != nil {
					return vf.Fail("not an XML document: %v\n%s", err, text)
				}
				ss := root.all("testsuite")
				if root.Name != "testsuites" || len(ss) != 1 {
					return vf.Fail("root %q with %d suites", root.Name, len(ss))
				}
				cs, err := checkJUnit(p, ss[0], c.Cfg)
				if err != nil {
					return vf.Fail("report %d: %v", i, err)
				}
				if err := checkTotals(root, cs, float64(p.Run)/1000); err != nil {
					return vf.Fail("report %d: %v", i, err)
				}
				switch c.Files[i] {
				case 0:
					suites = append(suites, ss[0])
					sum = counts{sum.tests + cs.tests, sum.disabled + cs.disabled, sum.skipped + cs.skipped, sum.errors + cs.errors, sum.failures + cs.failures}
					time += float64(p.Run) / 1000
				case 1:
					os.Remove(file)
				case 2:
					os.WriteFile(file, []byte("no xml"), 0o666)
				case 3:
					os.WriteFile(file, []byte(text[:len(text)/2]), 0o666)
				}
				files = append(files, file)
				n += len(r.SpecReports)
			}
			dst := filepath.Join(dir, "out", "deep", "all.xml")
			msgs, err := reporters.MergeAndCleanupJUnitReports(files, dst)
			if err != nil {
				return vf.Fail("cannot merge: %v", err)
			}
			root, err := parseXML(read(dst))
			if err != nil {
				return vf.Fail("the merged report is not an XML document: %v", err)
			}
			got := root.all("testsuite")
			if len(got) != len(suites) {
				return vf.Fail("%d suites became %d", len(suites), len(got))
			}
			for i := range got {
				if err := sameNode("merged", suites[i], got[i]); err != nil {
					return vf.Outcome{Err: err}
				}
			}
			if err := checkTotals(root, sum, time); err != nil {
				return vf.Fail("merged: %v", err)
			}
			if err := leftovers(files, c.Files, msgs); err != nil {
				return vf.Outcome{Err: err}
			}
			return vf.Outcome{NonTrivial: n > 0, Evals: len(c.Rs)}
		}})
}

func checkTotals(root *node, c counts, time float64) error {
	if root.num("tests") != c.tests || root.num("disabled") != c.disabled+c.skipped || root.num("errors") != c.errors || root.num("failures") != c.failures || math.Abs(root.num("time")-time) > 1e-6 {
		return fmt.Errorf("the totals are %v, expected %+v and %v s", root.Attr, c, time)
	}
	return nil
}

func sameNode(path string, a, b *node) error {
	path += "/" + a.Name
	if a.Name != b.Name || !reflect.DeepEqual(a.Attr, b.Attr) || len(a.Kids) == 0 && strings.TrimSpace(a.Text) != "" && a.Text != b.Text {
		return fmt.Errorf("%s: %q %v %q became %q %v %q", path, a.Name, a.Attr, a.Text, b.Name, b.Attr, b.Text)
	}
	if len(a.Kids) != len(b.Kids) {
		return fmt.Errorf("%s: %d elements became %d", path, len(a.Kids), len(b.Kids))
	}
	for i := range a.Kids {
		if err := sameNode(path, a.Kids[i], b.Kids[i]); err != nil {
			return err
		}
	}
	return nil
}

var _ = types.Report{}
