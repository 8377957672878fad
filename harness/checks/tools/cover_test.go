package tools

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/google/pprof/profile"
	"github.com/onsi/ginkgo/v2/ginkgo/internal"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

type block struct{ L0, C0, L1, C1, N int }

type coverCase struct {
	Mode     string
	Files    [][]block // the blocks of each source file, in order
	Profiles []coverProfile
}

type coverProfile struct {
	Files  []int   // which files it covers, in the order in which they are written
	Counts [][]int // by file: how often each block ran; -1: the profile does not have the block
	Back   bool    // the blocks are written last to first
}

// T01: coverage profiles are merged into the union of their blocks with the sum of their counts.
func TestT01_cover(t *testing.T) {
	vf.Run(t, vf.Prop[coverCase]{ID: "T01", Sub: "cover", Rule: "a file is in two profiles", Quick: 60000, Thorough: 2000000,
		Gen: func(t *rapid.T) coverCase {
			c := coverCase{Mode: vf.Pick(t, "mode", "set", "count", "atomic")}
			for i := vf.Range(t, "files", 1, 3); i > 0; i-- {
				var bs []block
				line, col := 1, 1
				for k := vf.Range(t, "blocks", 1, 6); k > 0; k-- {
					next := func() {
						if vf.Pct(t, "newline", 60) {
							line, col = line+vf.Range(t, "lines", 1, 9), vf.Range(t, "col", 1, 12)
						} else {
							col += vf.Range(t, "cols", 1, 12)
						}
					}
					if vf.Pct(t, "gap", 60) { // blocks may also touch
						next()
					}
					b := block{L0: line, C0: col, N: vf.Range(t, "stmts", 0, 4)}
					next()
					b.L1, b.C1 = line, col
					bs = append(bs, b)
				}
				c.Files = append(c.Files, bs)
			}
			whole := vf.Pct(t, "whole", 60) // every profile of a file has all of its blocks
			for i := vf.Range(t, "profiles", 1, 4); i > 0; i-- {
				p := coverProfile{Back: vf.Pct(t, "back", 20)}
				for f := range c.Files {
					if vf.Pct(t, "has", 75) {
						at := vf.U(t, "at", len(p.Files)+1)
						p.Files = append(p.Files[:at:at], append([]int{f}, p.Files[at:]...)...)
					}
				}
				for _, f := range p.Files {
					var ns []int
					for range c.Files[f] {
						n := vf.Pick(t, "count", 0, 0, 1, 1, 2, 7, 1<<20)
						if c.Mode == "set" {
							n = min(n, 1)
						}
						if !whole && vf.Pct(t, "lacks", 30) {
							n = -1
						}
						ns = append(ns, n)
					}
					p.Counts = append(p.Counts, ns)
				}
				c.Profiles = append(c.Profiles, p)
			}
			return c
		},
		Check: func(c coverCase) vf.Outcome {
			dir := scratch()
			defer os.RemoveAll(dir)
			name := func(f int) string { return fmt.Sprintf("example.com/m/p%d/f.go", f) }
			want := map[string]int{}
			seen := map[int]int{}
			var files []string
			for i, p := range c.Profiles {
				text := "mode: " + c.Mode + "\n"
				for k, f := range p.Files {
					lines := []string{}
					for b, n := range p.Counts[k] {
						if n < 0 {
							continue
						}
						x := c.Files[f][b]
						key := fmt.Sprintf("%s:%d.%d,%d.%d %d", name(f), x.L0, x.C0, x.L1, x.C1, x.N)
						lines = append(lines, fmt.Sprintf("%s %d\n", key, n))
						if c.Mode == "set" {
							want[key] |= n
						} else {
							want[key] += n
						}
					}
					if len(lines) > 0 {
						seen[f]++
					}
					if p.Back {
						for a, b := 0, len(lines)-1; a < b; a, b = a+1, b-1 {
							lines[a], lines[b] = lines[b], lines[a]
						}
					}
					text += strings.Join(lines, "")
				}
				file := filepath.Join(dir, fmt.Sprintf("cover.%d", i))
				write(file, text)
				files = append(files, file)
			}
			dst := filepath.Join(dir, "merged")
			if err := internal.MergeAndCleanupCoverProfiles(files, dst); err != nil {
				return vf.Fail("cannot merge: %v", err)
			}
			for _, f := range files {
				if _, err := os.Stat(f); err == nil {
					return vf.Fail("%s is left", filepath.Base(f))
				}
			}
			data, err := os.ReadFile(dst)
			if err != nil {
				return vf.Outcome{Err: err}
			}
			got := map[string]int{}
			lines := strings.Split(strings.TrimSuffix(string(data), "\n"), "\n")
			if len(want) == 0 {
				return vf.Outcome{}
			}
			if lines[0] != "mode: "+c.Mode {
				return vf.Fail("the merged profile begins with %q", lines[0])
			}
			done, last := map[string]bool{}, ""
			for _, l := range lines[1:] {
				i := strings.LastIndex(l, " ")
				n := -1
				fmt.Sscan(l[i+1:], &n)
				if _, twice := got[l[:i]]; twice {
					return vf.Fail("block %s is there twice", l[:i])
				}
				got[l[:i]] = n
				if f := l[:strings.Index(l, ":")]; f != last {
					if done[f] {
						return vf.Fail("the blocks of %s are not together", f)
					}
					done[f], last = true, f
				}
			}
			for k, n := range want {
				if g, ok := got[k]; !ok || g != n {
					return vf.Fail("block %s: %d (present: %v), want %d", k, g, ok, n)
				}
			}
			if len(got) != len(want) {
				return vf.Fail("%d blocks, want %d", len(got), len(want))
			}
			out := vf.Outcome{Classes: []string{c.Mode}}
			for _, n := range seen {
				out.NonTrivial = out.NonTrivial || n > 1
			}
			return out
		}})
}

// T01: performance profiles are merged into one with the sums of the samples.
type sample struct {
	Stack []int
	N     int64
}

func TestT01_pprof(t *testing.T) {
	type pprofCase struct{ Profiles [][]sample }
	vf.Run(t, vf.Prop[pprofCase]{ID: "T01", Sub: "pprof", Rule: "two profiles have samples", Quick: 8000, Thorough: 200000,
		Gen: func(t *rapid.T) pprofCase {
			c := pprofCase{}
			for i := vf.Range(t, "profiles", 1, 4); i > 0; i-- {
				var ss []sample
				for k := vf.Range(t, "samples", 0, 5); k > 0; k-- {
					s := sample{N: int64(vf.Range(t, "n", 1, 50))}
					for d := vf.Range(t, "depth", 1, 3); d > 0; d-- {
						s.Stack = append(s.Stack, vf.U(t, "f", 4))
					}
					ss = append(ss, s)
				}
				c.Profiles = append(c.Profiles, ss)
			}
			return c
		},
		Check: func(c pprofCase) vf.Outcome {
			dir := scratch()
			defer os.RemoveAll(dir)
			want := map[string]int64{}
			var files []string
			full := 0
			for i, ss := range c.Profiles {
				p := &profile.Profile{SampleType: []*profile.ValueType{{Type: "n", Unit: "count"}}, PeriodType: &profile.ValueType{Type: "n", Unit: "count"}, Period: 1}
				var locs []*profile.Location
				for f := 0; f < 4; f++ {
					fn := &profile.Function{ID: uint64(f + 1), Name: fmt.Sprintf("f%d", f), Filename: "f.go"}
					p.Function = append(p.Function, fn)
					l := &profile.Location{ID: uint64(f + 1), Line: []profile.Line{{Function: fn, Line: int64(f + 1)}}}
					p.Location, locs = append(p.Location, l), append(locs, l)
				}
				for _, s := range ss {
					x := &profile.Sample{Value: []int64{s.N}}
					key := ""
					for _, f := range s.Stack {
						x.Location = append(x.Location, locs[f])
						key += fmt.Sprintf("f%d;", f)
					}
					p.Sample = append(p.Sample, x)
					want[key] += s.N
				}
				if len(ss) > 0 {
					full++
				}
				file := filepath.Join(dir, fmt.Sprintf("prof.%d", i))
				o, err := os.Create(file)
				if err != nil {
					return vf.Outcome{Err: err}
				}
				if err := p.Write(o); err != nil {
					return vf.Outcome{Err: err}
				}
				o.Close()
				files = append(files, file)
			}
			dst := filepath.Join(dir, "merged")
			if err := internal.MergeProfiles(files, dst); err != nil {
				return vf.Fail("cannot merge: %v", err)
			}
			in, err := os.Open(dst)
			if err != nil {
				return vf.Outcome{Err: err}
			}
			defer in.Close()
			m, err := profile.Parse(in)
			if err != nil {
				return vf.Fail("cannot read the merged profile: %v", err)
			}
			got := map[string]int64{}
			for _, s := range m.Sample {
				key := ""
				for _, l := range s.Location {
					key += l.Line[0].Function.Name + ";"
				}
				got[key] += s.Value[0]
			}
			if err := sameCounts(got, want); err != nil {
				return vf.Outcome{Err: err}
			}
			for _, f := range files {
				if _, err := os.Stat(f); err == nil {
					return vf.Fail("%s is left", filepath.Base(f))
				}
			}
			return vf.Outcome{NonTrivial: full > 1}
		}})
}

func sameCounts(got, want map[string]int64) error {
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if got[k] != want[k] {
			return fmt.Errorf("%s: %d, want %d", k, got[k], want[k])
		}
	}
	return nil
}
