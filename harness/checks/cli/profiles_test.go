package cli

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/google/pprof/profile"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

type profCase struct {
	Suites                                    []suite
	Procs                                     int
	KeepGoing, Separate, OutDir, Cover, Named bool
	Kinds                                     []string // cpu, mem, block, mutex
	JSON                                      bool
}

func genProfiles(t *rapid.T) profCase {
	c := profCase{Procs: 1, KeepGoing: vf.Pct(t, "keep going", 60), Separate: vf.Pct(t, "separate", 40), OutDir: vf.Pct(t, "outdir", 35),
		Cover: vf.Pct(t, "cover", 80), Named: vf.Pct(t, "named", 50), JSON: vf.Pct(t, "json", 40)}
	if vf.Pct(t, "parallel", 60) {
		c.Procs = vf.Range(t, "procs", 2, 4)
	}
	for _, kind := range []string{"cpu", "mem", "block", "mutex"} {
		if !c.Cover || vf.Pct(t, "any", 25) {
			if vf.Pct(t, kind, map[string]int{"cpu": 15}[kind]+25) {
				c.Kinds = append(c.Kinds, kind)
			}
		}
	}
	where := append([]string{}, paths...)
	for i, n := 0, vf.Range(t, "suites", 1, 4); i < n; i++ {
		k := vf.U(t, "path", len(where))
		s := suite{Path: where[k], Precompiled: vf.Pct(t, "precompiled", 25)}
		where = append(where[:k:k], where[k+1:]...)
		s.B.Name = fmt.Sprintf("suite %d", i)
		s.B.Plain = len(c.Kinds) == 0 && !s.Precompiled && vf.Pct(t, "plain", 12)
		focus := len(c.Kinds) == 0 && vf.Pct(t, "focus", 12)
		if s.B.Plain {
			s.B.Fail = vf.Pick(t, "fail", 0, 0, -1)
		} else {
			for k := vf.U(t, "specs", 6); k > 0; k-- {
				p := spec{Text: fmt.Sprintf("spec-%d-%d", i, k), Do: vf.Pick(t, "do", "pass", "pass", "pass", "skip", "pending"), Ms: vf.Pick(t, "ms", 0, 0, 20)}
				if !focus && vf.Pct(t, "trouble", 15) {
					p.Do = vf.Pick(t, "what", "fail", "panic", "exit1", "exit0", "kill")
				}
				p.F = focus && p.Do != "pending" && vf.Pct(t, "focused", 50)
				s.B.Specs = append(s.B.Specs, p)
			}
		}
		c.Suites = append(c.Suites, s)
	}
	return c
}

func (c profCase) args() (as []string) {
	on := func(b bool, a string) {
		if b {
			as = append(as, a)
		}
	}
	on(c.KeepGoing, "--keep-going")
	on(c.Separate, "--keep-separate-coverprofiles")
	on(c.OutDir, "--output-dir=out/put")
	on(c.Cover && !c.Named, "--cover")
	on(c.Cover && c.Named, "--coverprofile="+c.cover())
	on(c.JSON, "--json-report=r.json")
	on(c.Procs > 1, fmt.Sprintf("--procs=%d", c.Procs))
	for _, kind := range c.Kinds {
		as = append(as, fmt.Sprintf("--%sprofile=%s.out", kind, kind))
	}
	as = append(as, "--no-color")
	for _, s := range c.Suites {
		if s.Precompiled {
			as = append(as, filepath.Join(s.Path, "pre.test"))
		} else {
			as = append(as, "./"+s.Path)
		}
	}
	return
}

func (c profCase) cover() string {
	if c.Named {
		return "my cover.prof"
	}
	return "coverprofile.out"
}

// asset is where what a suite generates is to be
func (c profCase) asset(s suite, name string) string {
	if c.OutDir {
		return filepath.Join("out/put", strings.NewReplacer("/", "_", " ", "_").Replace(s.Path)+"_"+name)
	}
	return filepath.Join(s.Path, name)
}

// T07: the profiles that ginkgo leaves are those of the processes that ran.
func TestT07_profiles(t *testing.T) {
	vf.Run(t, vf.Prop[profCase]{ID: "T07", Sub: "profiles", Rule: "profiles of two processes or suites are merged", Quick: 480, Thorough: 15000, Gen: genProfiles, Check: checkProfiles})
}

func checkProfiles(c profCase) vf.Outcome {
	top, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	root := filepath.Join(top, "root")
	fixture := os.Getenv("VF_FIXTURE")
	if c.Cover {
		fixture = os.Getenv("VF_FIXTURE_COVER")
	}
	for _, s := range c.Suites {
		s.put(root, fixture)
	}
	before := files(root)
	out, errOut, exit, stuck := ginkgo(top, fixture, c.args())
	if stuck != "" {
		return vf.Fail("ginkgo %q %s: %s\n%s", c.args(), stuck, clip(out), clip(errOut))
	}
	merged, err := c.judge(root, before, exit, out)
	if err != nil {
		return vf.Fail("ginkgo %q: %s\n--- output ---\n%s\n--- error output ---\n%s", c.args(), err, clip(out), clip(errOut))
	}
	return vf.Outcome{NonTrivial: merged > 1, Classes: []string{fmt.Sprintf("exit %d", exit), fmt.Sprintf("%d kinds", len(c.Kinds)), fmt.Sprintf("cover %v", c.Cover)}}
}

// counts is how often Mark ran with each argument
type counts [6]int

// readCover reads a cover profile of mark.go; there is none in an empty one
func readCover(file string) (c counts, any bool, err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return c, false, err
	}
	lines := strings.Split(strings.TrimSpace(string(data)), "\n")
	if len(lines) == 1 && (lines[0] == "" || strings.HasPrefix(lines[0], "mode: ")) {
		return c, false, nil
	}
	if lines[0] != "mode: atomic" {
		return c, false, fmt.Errorf("the first line is %q", lines[0])
	}
	type block struct{ line, n, count int }
	blocks := []block{}
	for _, l := range lines[1:] {
		file, rest, _ := strings.Cut(l, ":")
		if !strings.HasSuffix(file, "/fixture/mark.go") {
			return c, false, fmt.Errorf("there is a line %q", l)
		}
		var b block
		var x int
		if _, err := fmt.Sscanf(rest, "%d.%d,%d.%d %d %d", &b.line, &x, &x, &x, &b.n, &b.count); err != nil {
			return c, false, fmt.Errorf("there is a line %q", l)
		}
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].line < blocks[j].line })
	if len(blocks) != 8 {
		return c, false, fmt.Errorf("there are %d blocks, want 8:\n%s", len(blocks), data)
	}
	total := 0
	for i := range c {
		c[i] = blocks[i+1].count
		total += c[i]
	}
	if blocks[0].count != total || blocks[7].count != 0 {
		return c, false, fmt.Errorf("the first block ran %d times, the last %d, and the others %v", blocks[0].count, blocks[7].count, c)
	}
	return c, true, nil
}

func (c profCase) judge(root string, before map[string]bool, exit int, out string) (merged int, err error) {
	e := runCase{Suites: c.Suites, Procs: c.Procs, KeepGoing: c.KeepGoing}.expect()
	if exit != e.exit {
		return 0, fmt.Errorf("exit status %d, want %d", exit, e.exit)
	}
	after := files(root)
	allowed := map[string]bool{}
	var all counts
	profiled, focused, unfocused := 0, false, 0
	for i, s := range c.Suites {
		f := e.fates[i]
		if f.how != "ran" {
			continue
		}
		ranOn := map[int][]int{} // the specs that ran on a process
		dead := map[int]bool{}
		log, _ := os.ReadFile(filepath.Join(root, s.Path, "ran.log"))
		for _, l := range strings.Split(string(log), "\n") {
			w := strings.Fields(l)
			if len(w) == 4 && w[0] == "spec" {
				proc, _ := strconv.Atoi(w[3])
				for k, p := range s.B.Specs {
					if p.Text == w[2] {
						ranOn[proc] = append(ranOn[proc], k)
						dead[proc] = dead[proc] || p.Do == "exit1" || p.Do == "kill"
					}
				}
			}
		}
		alive := c.Procs - len(dead)
		if s.B.Plain {
			alive = 1
		}
		focus := f.last.focus && f.last.passed
		var want counts
		for proc, ks := range ranOn {
			if dead[proc] {
				continue
			}
			for _, k := range ks {
				want[k]++
				if !focus {
					all[k]++
				}
			}
		}
		for proc := range dead {
			if !dead[proc] {
				alive++
			}
		}
		focused = focused || focus
		if !focus {
			unfocused++
			profiled += alive
		}
		if c.Cover && c.Separate && !focus {
			file := c.asset(s, c.cover())
			allowed[file] = true
			if !after[file] {
				if alive > 0 {
					return 0, fmt.Errorf("%s is missing, the files are %v", file, keys(after))
				}
			} else if got, any, err := readCover(filepath.Join(root, file)); err != nil || any != (alive > 0) || got != want {
				return 0, fmt.Errorf("%s: %v of %v, want %v of %v: %v", file, got, any, want, alive > 0, err)
			}
		}
		for _, kind := range c.Kinds {
			file := c.asset(s, kind+".out")
			allowed[file] = true
			if !after[file] {
				if alive > 0 {
					return 0, fmt.Errorf("%s is missing, the files are %v", file, keys(after))
				}
				continue
			}
			data, err := os.Open(filepath.Join(root, file))
			if err != nil {
				return 0, err
			}
			p, err := profile.Parse(data)
			data.Close()
			if err != nil {
				if alive == 0 {
					continue
				}
				return 0, fmt.Errorf("%s: %w", file, err)
			}
			sampled := map[string]string{"cpu": "samples", "mem": "alloc_objects", "block": "contentions", "mutex": "contentions"}[kind]
			if p.SampleType[0].Type != sampled {
				return 0, fmt.Errorf("%s is a profile of %s, want one of %s", file, p.SampleType[0].Type, sampled)
			}
			if c.Procs > 1 {
				merged += alive
			}
		}
	}
	if c.Cover && !c.Separate && unfocused > 0 {
		merged += profiled
		file := c.cover()
		if c.OutDir {
			file = filepath.Join("out/put", file)
		}
		allowed[file] = true
		if !after[file] {
			return 0, fmt.Errorf("%s is missing, the files are %v", file, keys(after))
		}
		got, any, err := readCover(filepath.Join(root, file))
		if err != nil || any != (profiled > 0) || got != all {
			return 0, fmt.Errorf("%s: %v of %v, want %v of %v: %v", file, got, any, all, profiled > 0, err)
		}
		covered := 0
		for _, n := range all {
			if n > 0 {
				covered++
			}
		}
		said := "composite coverage: [no statements]"
		if covered > 0 {
			said = fmt.Sprintf("composite coverage: %.1f%% of statements", 100*float64(covered+1)/8)
			if focused {
				said += " however some suites did not contribute because they included programatically focused specs"
			}
		}
		if !strings.Contains(out, said+"\n") {
			return 0, fmt.Errorf("the output does not say %q", said)
		}
	} else if c.Cover && c.Separate {
		merged += profiled
	}
	if c.JSON {
		allowed["r.json"], allowed["out/put/r.json"] = !c.OutDir, c.OutDir
		file := "r.json"
		if c.OutDir {
			file = "out/put/r.json"
		}
		var rs []types.Report
		data, err := os.ReadFile(filepath.Join(root, file))
		if err == nil {
			err = json.Unmarshal(data, &rs)
		}
		if err != nil {
			return 0, fmt.Errorf("%s: %w", file, err)
		}
		for i, s := range c.Suites {
			n := 0
			for _, r := range rs {
				if r.SuitePath == filepath.Join(root, s.Path) {
					n++
				}
			}
			if n != 1 && !s.B.Plain && !(n == 0 && e.fates[i].how == "ran" && e.fates[i].last.dies) {
				return 0, fmt.Errorf("%s: %d reports of %s", file, n, s.Path)
			}
		}
	}
	if len(c.Kinds) > 0 {
		for i, s := range c.Suites {
			name := filepath.Base(s.Path)
			kept := filepath.Join(s.Path, name+".test")
			if c.OutDir {
				kept = strings.TrimSuffix(c.asset(s, ""), "_") + ".test"
			} else if s.Precompiled {
				continue
			}
			allowed[kept] = true
			if e.fates[i].how == "ran" && !after[kept] {
				return 0, fmt.Errorf("%s is missing, the files are %v", kept, keys(after))
			}
			if e.fates[i].how != "ran" {
				allowed[filepath.Join(s.Path, name+".test")] = true // it can have been compiled
			}
		}
	}
	for f := range after {
		if base := filepath.Base(f); !before[f] && !allowed[f] && base != "ran.log" && base != "compiled.log" {
			return 0, fmt.Errorf("%s is left behind", f)
		}
	}
	return merged, nil
}
