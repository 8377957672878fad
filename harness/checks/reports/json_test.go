package reports

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

var allValues = []string{"", "string", "int", "float", "bool", "struct", "stringer", "color", "ptr", "nilptr", "slice", "map", "nulljson", "error", "bigint", "nested", "time", "rawjson", "nilstringer", "nilcolor", "niltime"}
var badValues = append([]string{"chan", "func", "bad", "badstringer", "cyclic"}, allValues...)

// scratch is a directory of this process for the files of a case.
func scratch() string {
	d, err := os.MkdirTemp("", "vreport")
	if err != nil {
		panic(err)
	}
	return d
}

// R01: the JSON form of a report says all the report says.
type jsonCase struct {
	Rs []rep.Report
	// what stands in for some of the files when reports are merged: 0 a report, 1 nothing, 2 no JSON, 3 JSON cut short
	Files []int
}

func TestR01_json(t *testing.T) {
	vf.Run(t, vf.Prop[jsonCase]{ID: "R01", Sub: "json", Rule: "a report with specs was written and read back", Quick: 20000, Thorough: 600000,
		Gen: func(t *rapid.T) jsonCase {
			c := jsonCase{}
			for i := vf.Range(t, "reports", 1, 3); i > 0; i-- {
				c.Rs = append(c.Rs, rep.GenReport(t, rep.Opt{MaxSpecs: 3, Values: allValues}))
				f := 0
				if vf.Pct(t, "odd", 15) {
					f = vf.Range(t, "file", 1, 3)
				}
				c.Files = append(c.Files, f)
			}
			return c
		},
		Check: func(c jsonCase) vf.Outcome {
			dir := scratch()
			defer os.RemoveAll(dir)
			var files []string
			var want []types.Report
			n := 0
			for i, p := range c.Rs {
				r := p.Build()
				file := filepath.Join(dir, fmt.Sprintf("sub%d", i), "r.json")
				if err := reporters.GenerateJSONReport(r, file); err != nil {
					return vf.Fail("cannot write the report: %v", err)
				}
				data, err := os.ReadFile(file)
				if err != nil {
					return vf.Outcome{Err: err}
				}
				var back []types.Report
				if err := json.Unmarshal(data, &back); err != nil || len(back) != 1 {
					return vf.Fail("cannot read the report back: %v (%d reports)", err, len(back))
				}
				if err := rep.Same("report", r, back[0]); err != nil {
					return vf.Outcome{Err: err}
				}
				// a report that has been read says the same again
				again, err := json.Marshal(back[0])
				if err != nil {
					return vf.Fail("cannot write a report that was read: %v", err)
				}
				var twice types.Report
				if err := json.Unmarshal(again, &twice); err != nil {
					return vf.Outcome{Err: err}
				}
				if err := rep.Same("report read twice", back[0], twice); err != nil {
					return vf.Outcome{Err: err}
				}
				switch c.Files[i] {
				case 0:
					want = append(want, r)
				case 1:
					os.Remove(file)
				case 2:
					os.WriteFile(file, []byte("no json"), 0o666)
				case 3:
					os.WriteFile(file, data[:len(data)/2], 0o666)
				}
				files = append(files, file)
				n += len(r.SpecReports)
			}
			dst := filepath.Join(dir, "out", "deep", "all.json")
			msgs, err := reporters.MergeAndCleanupJSONReports(files, dst)
			if err != nil {
				return vf.Fail("cannot merge: %v", err)
			}
			var merged []types.Report
			data, _ := os.ReadFile(dst)
			if err := json.Unmarshal(data, &merged); err != nil {
				return vf.Fail("cannot read the merged report: %v", err)
			}
			if err := rep.Same("merged", want, merged); err != nil {
				return vf.Outcome{Err: err}
			}
			if err := leftovers(files, c.Files, msgs); err != nil {
				return vf.Outcome{Err: err}
			}
			return vf.Outcome{NonTrivial: n > 0, Evals: len(c.Rs)}
		}})
}

// leftovers: what was merged is gone, what could not be read is left where it is and mentioned.
func leftovers(files []string, kinds []int, msgs []string) error {
	odd := 0
	for i, f := range files {
		_, err := os.Stat(f)
		switch {
		case kinds[i] == 0 && err == nil:
			return fmt.Errorf("%s was merged and is still there", filepath.Base(f))
		case kinds[i] > 1 && err != nil:
			return fmt.Errorf("report %d could not be read, and was removed", i)
		}
		if kinds[i] != 0 {
			odd++
		}
	}
	if len(msgs) != odd {
		return fmt.Errorf("%d reports could not be merged, %d messages say so: %q", odd, len(msgs), msgs)
	}
	return nil
}

// R07: any value can be attached to a spec; the report arrives, with the value's representation.
func TestR07_entries(t *testing.T) {
	vf.Run(t, vf.Prop[rep.Spec]{ID: "R07", Sub: "entries", Rule: "the spec has a report entry with a value", Quick: 60000, Thorough: 2000000,
		Gen: func(t *rapid.T) rep.Spec { return rep.GenSpec(t, rep.Opt{Values: badValues}) },
		Check: func(s rep.Spec) vf.Outcome {
			r := s.Build()
			out := vf.Outcome{}
			for _, e := range s.Entries {
				if e.Kind != "" {
					out.NonTrivial = true
					out.Classes = append(out.Classes, "value-"+e.Kind)
				}
			}
			var a, b types.SpecReport
			data, err := json.Marshal(r)
			if err != nil {
				return vf.Fail("the report cannot be encoded as JSON: %v", err)
			}
			if err := json.Unmarshal(data, &a); err != nil {
				return vf.Outcome{Err: err}
			}
			buf := &bytes.Buffer{}
			if err := gob.NewEncoder(buf).Encode(r); err != nil {
				return vf.Fail("the report cannot be sent to the server: %v", err)
			}
			if err := gob.NewDecoder(buf).Decode(&b); err != nil {
				return vf.Outcome{Err: err}
			}
			for i := range r.ReportEntries {
				for _, got := range []types.SpecReport{a, b} {
					if len(got.ReportEntries) != len(r.ReportEntries) {
						return vf.Fail("%d entries became %d", len(r.ReportEntries), len(got.ReportEntries))
					}
					g, w := got.ReportEntries[i], r.ReportEntries[i]
					if g.StringRepresentation() != w.StringRepresentation() {
						return vf.Fail("entry %q: representation %q became %q", w.Name, w.StringRepresentation(), g.StringRepresentation())
					}
					if err := rep.Same("entry", w, g); err != nil {
						return vf.Outcome{Err: err}
					}
				}
				if want, ok := s.Entries[i].Shown(); ok && r.ReportEntries[i].StringRepresentation() != want {
					return vf.Fail("entry %q (%s): representation %q, expected %q", s.Entries[i].Name, s.Entries[i].Kind, r.ReportEntries[i].StringRepresentation(), want)
				}
				vis := types.ReportEntryVisibility(s.Entries[i].Vis)
				if got := r.ReportEntries.WithVisibility(vis); len(got) == 0 || !r.ReportEntries.HasVisibility(vis) {
					return vf.Fail("no entry with visibility %s", vis)
				}
			}
			if err := rep.Same("spec (json)", r, a); err != nil {
				return vf.Outcome{Err: err}
			}
			if err := rep.Same("spec (gob)", r, b); err != nil {
				return vf.Outcome{Err: err}
			}
			// from process to server, and on to a file or two
			for i, data := 0, []byte(nil); i < 3; i++ {
				var c types.SpecReport
				if data, err = json.Marshal(b); err != nil {
					return vf.Fail("the decoded report cannot be encoded as JSON: %v", err)
				}
				if err := json.Unmarshal(data, &c); err != nil {
					return vf.Outcome{Err: err}
				}
				if err := rep.Same(fmt.Sprintf("spec (gob, then json %d times)", i+1), r, c); err != nil {
					return vf.Outcome{Err: err}
				}
				b = c
			}
			return out
		}})
}
