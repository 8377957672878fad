package engine

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/lf"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"github.com/onsi/ginkgo/v2/types"
	"pgregory.net/rapid"
)

// E09: dry runs and previews tell what a real run does.
func TestE09_preview(t *testing.T) {
	vf.Run(t, vf.Prop[*selCase]{ID: "E09", Sub: "preview", Rule: "some specs will run and some will not", Quick: 20000, Thorough: 500000,
		Gen: genSel,
		Check: func(c *selCase) vf.Outcome {
			specs, hasFocus := c.filters()
			preview, during, changed, res := prog.PreviewThenRun(c.P)
			if changed != "" {
				return vf.Fail("the preview left the configuration changed: %s", changed)
			}
			_, exp, err := prog.CheckRun(res, c.P, specs, hasFocus, prog.AllAspects)
			out := vf.Outcome{}
			if exp != nil {
				out.Known = exp.Known
			}
			if err != nil {
				out.Err = fmt.Errorf("after a preview, the run is not what it should be: %s", err)
				return out
			}
			for _, l := range during {
				tag := strings.TrimRight(strings.SplitN(l, "#", 2)[0], "0123456789")
				switch tag {
				case "RBE", "RAE", "RBS", "RAS":
				default:
					if !strings.Contains(l, " sees ") && !strings.HasPrefix(l, "will ") && !strings.HasPrefix(l, "did ") && tag != "X" && tag != "B" {
						return vf.Fail("a preview ran a body: %s", l)
					}
				}
			}
			// the same specs, in the same order, marked as to be run or not
			ours := map[int]*prog.Spec{}
			for _, s := range specs {
				ours[s.It.ID] = s
			}
			order := prog.Order(res.Trace)
			seen := []int{}
			run, not := 0, 0
			for _, r := range preview.SpecReports {
				if !r.LeafNodeType.Is(types.NodeTypeIt) {
					continue
				}
				s := ours[r.LeafNodeLocation.LineNumber]
				if s == nil {
					return vf.Fail("the preview lists an unknown spec at line %d", r.LeafNodeLocation.LineNumber)
				}
				seen = append(seen, s.It.ID)
				want := types.SpecStatePassed
				if s.Pending() {
					want = types.SpecStatePending
				} else if s.Skip {
					want = types.SpecStateSkipped
				}
				if r.State != want {
					return vf.Fail("the preview says spec %d is %s, expected %s", s.It.ID, r.State, want)
				}
				if want == types.SpecStatePassed {
					run++
				} else {
					not++
				}
				if r.NumAttempts != 0 {
					return vf.Fail("the preview says spec %d was attempted %d times", s.It.ID, r.NumAttempts)
				}
			}
			if len(seen) != len(specs) {
				return vf.Fail("the preview lists %d specs, the suite has %d", len(seen), len(specs))
			}
			if len(order) > 0 && fmt.Sprint(order) != fmt.Sprint(seen) {
				return vf.Fail("the preview lists the specs in the order %v, they ran in the order %v", seen, order)
			}
			if preview.PreRunStats.SpecsThatWillRun != run || preview.PreRunStats.TotalSpecs != len(specs) {
				return vf.Fail("the preview counts %+v, expected %d of %d", preview.PreRunStats, run, len(specs))
			}
			out.NonTrivial = run > 0 && not > 0
			return out
		}})
}

// ordCase is a tree (every spec carries a label of its own) and what else the order must not depend on.
type ordCase struct {
	P    *P
	Perm []int // shuffles the definition order of siblings
}

type ordGen struct {
	t     *rapid.T
	id    int
	specs int
	loop  bool
}

func (g *ordGen) level(depth int, file string, line *int, inOrdered bool) []*prog.Node {
	kids := []*prog.Node{}
	n := vf.Range(g.t, "kids", 1, 4)
	for i := 0; i < n && g.specs < 14; i++ {
		g.id++
		k := &prog.Node{ID: g.id, File: file}
		// generated in a loop: same line, different text
		if !(g.loop && i > 0 && vf.Pct(g.t, "sameline", 40)) {
			*line += vf.Range(g.t, "gap", 1, 9)
		}
		k.Line = *line
		k.Text = fmt.Sprintf("%s%d", vf.Pick(g.t, "word", "z", "a", "m"), g.id)
		if depth < 3 && vf.Pct(g.t, "container", 50) {
			k.Kind = "C"
			k.Dec.Ordered = vf.Pct(g.t, "ordered", 25)
			inner := *line
			k.Kids = g.level(depth+1, file, &inner, inOrdered || k.Dec.Ordered)
			if !g.loop {
				*line = inner
			}
		} else {
			g.specs++
			k.Kind = "It"
			k.Dec.Labels = []string{fmt.Sprintf("u%d", k.ID)}
		}
		kids = append(kids, k)
	}
	return kids
}

func genOrd(t *rapid.T) *ordCase {
	g := &ordGen{t: t, loop: vf.Pct(t, "loop", 40)}
	c := &ordCase{P: &P{}}
	tops := vf.Range(t, "tops", 1, 6)
	line := map[string]*int{}
	for i := 0; i < tops; i++ {
		f := vf.Pick(t, "file", files...)
		if line[f] == nil {
			line[f] = new(int)
		}
		g.id++
		*line[f] += vf.Range(t, "gap", 1, 9)
		n := &prog.Node{ID: g.id, File: f, Line: *line[f], Text: fmt.Sprintf("t%d", g.id)}
		if vf.Pct(t, "topit", 20) {
			n.Kind = "It"
			n.Dec.Labels = []string{fmt.Sprintf("u%d", n.ID)}
		} else {
			n.Kind = "C"
			n.Dec.Ordered = vf.Pct(t, "ordered", 20)
			n.Kids = g.level(1, f, line[f], n.Dec.Ordered)
		}
		c.P.Top = append(c.P.Top, n)
	}
	c.P.Conf.Seed = int64(vf.Range(t, "seed", 1, 100000))
	c.P.Conf.RandomizeAll = vf.Pct(t, "randall", 40)
	for i := 0; i < 24; i++ {
		c.Perm = append(c.Perm, vf.U(t, "perm", 24))
	}
	return c
}

// uid is the label that names a spec.
func uid(labels []string) string {
	for _, l := range labels {
		if strings.HasPrefix(l, "u") {
			return l
		}
	}
	return "?"
}

// uids reads the order off the reports.
func uids(res *prog.Result) []string {
	out := []string{}
	for _, r := range res.Reports {
		if r.LeafNodeType.Is(types.NodeTypeIt) {
			out = append(out, uid(r.LeafNodeLabels))
		}
	}
	return out
}

func clone(ns []*prog.Node, inOrdered bool, f func(kids []*prog.Node, inOrdered bool) []*prog.Node) []*prog.Node {
	out := []*prog.Node{}
	for _, n := range ns {
		m := *n
		m.Kids = clone(n.Kids, inOrdered || n.Dec.Ordered, f)
		out = append(out, &m)
	}
	return f(out, inOrdered)
}

// S03: the order of specs.
func TestS03_order(t *testing.T) {
	vf.Run(t, vf.Prop[*ordCase]{ID: "S03", Sub: "order", Rule: "three or more top-level nodes and a container with several specs", Quick: 15000, Thorough: 400000,
		Gen: genOrd,
		Check: func(c *ordCase) vf.Outcome {
			specs := c.P.Specs()
			base := uids(prog.RunSerial(c.P))
			// a permutation of the specs
			want := []string{}
			top := map[string]int{}
			group := map[string]int{}
			def := map[string]int{}
			for i, s := range specs {
				u := s.It.Dec.Labels[0]
				want = append(want, u)
				top[u] = append(s.Path, s.It)[0].ID
				group[u] = s.Group()
				def[u] = i
			}
			a, b := append([]string{}, base...), append([]string{}, want...)
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, " ") != strings.Join(b, " ") {
				return vf.Fail("the specs run are %v, the suite has %v", base, want)
			}
			contiguous := func(what string, key map[string]int) error {
				done := map[int]bool{}
				for i, u := range base {
					if i > 0 && key[base[i-1]] == key[u] {
						continue
					}
					if done[key[u]] {
						return fmt.Errorf("%s is not contiguous in %v", what, base)
					}
					done[key[u]] = true
				}
				return nil
			}
			if err := contiguous("an Ordered container", group); err != nil {
				return vf.Outcome{Err: err}
			}
			for i := 1; i < len(base); i++ {
				u, v := base[i-1], base[i]
				if group[u] == group[v] && def[u] > def[v] {
					return vf.Fail("specs of an Ordered container do not run in definition order: %v", base)
				}
			}
			loop := false
			lines := map[string]bool{}
			c.P.Walk(func(n *prog.Node, _ []*prog.Node) {
				k := fmt.Sprintf("%s:%d", n.FileName(), n.LineNumber())
				loop = loop || lines[k]
				lines[k] = true
			})
			if !c.P.Conf.RandomizeAll {
				if err := contiguous("a top-level container", top); err != nil {
					return vf.Outcome{Err: err}
				}
				for i := 1; i < len(base) && !loop; i++ {
					u, v := base[i-1], base[i]
					if top[u] == top[v] && def[u] > def[v] {
						return vf.Fail("within a top-level container specs do not run in the order they appear: %v", base)
					}
				}
			}
			same := func(how string, p *P) error {
				if got := uids(prog.RunSerial(p)); strings.Join(got, " ") != strings.Join(base, " ") {
					return fmt.Errorf("with the same seed, %s changes the order from %v to %v", how, base, got)
				}
				return nil
			}
			k := 0
			shuffled := *c.P
			shuffled.Top = clone(c.P.Top, false, func(kids []*prog.Node, inOrdered bool) []*prog.Node {
				if inOrdered {
					return kids
				}
				out := append([]*prog.Node{}, kids...)
				for i := len(out) - 1; i > 0; i-- {
					j := c.Perm[k%len(c.Perm)] % (i + 1)
					k++
					out[i], out[j] = out[j], out[i]
				}
				return out
			})
			k = 0
			other := *c.P // what specs do, how they are filtered and what surrounds them does not matter
			other.Top = clone(c.P.Top, false, func(kids []*prog.Node, inOrdered bool) []*prog.Node {
				out := []*prog.Node{}
				for _, n := range kids {
					x := c.Perm[k%len(c.Perm)]
					k++
					switch {
					case x < 4:
						n.Dec.Pending = true
					case x < 6 && n.Kind == "It":
						n.Dec.Focus = true
					case x < 9 && n.Kind == "It":
						n.Acts = []prog.Act{{Op: "fail", Msg: "m"}}
					case x < 12 && !inOrdered:
						n.Dec.Serial = true
					case x < 15:
						n.Dec.Flake = 2
					}
					if x%5 == 0 {
						out = append(out, &prog.Node{Kind: "BE", ID: 1000 + k, File: "/prog/other.go"})
					}
					out = append(out, n)
				}
				return out
			})
			other.Suite = []*prog.Node{{Kind: "BS", ID: 999}, {Kind: "AS", ID: 998}}
			if c.Perm[0]%3 == 0 {
				other.Conf.Focus = []string{"z|t"}
			}
			if c.Perm[1]%3 == 0 {
				other.Conf.DryRun = true
			}
			if c.Perm[2]%3 == 0 {
				other.Conf.LabelFilter = "u1 || u3 || u5"
			}
			for _, err := range []error{same("running again", c.P), same("defining siblings in another order", &shuffled), same("changing bodies, filters and setup", &other)} {
				if err != nil {
					return vf.Outcome{Err: err}
				}
			}
			multi := false
			cnt := map[int]int{}
			for _, u := range base {
				cnt[top[u]]++
				multi = multi || cnt[top[u]] > 1
			}
			out := vf.Outcome{NonTrivial: len(cnt) >= 3 && multi, Evals: 4}
			if loop {
				out.Classes = append(out.Classes, "shared-lines")
			}
			if c.P.Conf.RandomizeAll {
				out.Classes = append(out.Classes, "randomize-all")
			}
			return out
		}})
}

type seedCase struct {
	Tops, Kids int
	RandAll    bool
	Ordered    bool
	From       int
}

// S03: the seed decides, and every order can come up.
func TestS03_seeds(t *testing.T) {
	vf.Run(t, vf.Prop[*seedCase]{ID: "S03", Sub: "seeds", Rule: "every case (hundreds of seeds each)", Quick: 120, Thorough: 3000,
		Gen: func(t *rapid.T) *seedCase {
			return &seedCase{Tops: vf.Range(t, "tops", 2, 3), Kids: vf.Range(t, "kids", 1, 2), RandAll: vf.Pct(t, "all", 50), Ordered: vf.Pct(t, "ordered", 30), From: vf.Range(t, "from", 0, 1000000)}
		},
		Check: func(c *seedCase) vf.Outcome {
			p := &P{}
			id := 0
			for i := 0; i < c.Tops; i++ {
				id++
				n := &prog.Node{Kind: "C", ID: id}
				n.Dec.Ordered = c.Ordered
				for j := 0; j < c.Kids; j++ {
					id++
					n.Kids = append(n.Kids, &prog.Node{Kind: "It", ID: id, Dec: prog.Dec{Labels: []string{fmt.Sprintf("u%d", id)}}})
				}
				p.Top = append(p.Top, n)
			}
			p.Conf.RandomizeAll = c.RandAll
			units := c.Tops
			if c.RandAll && !c.Ordered {
				units = c.Tops * c.Kids
			}
			want := 1
			for i := 2; i <= units; i++ {
				want *= i
			}
			if units > 4 {
				want = 40 // of 720: enough to see that the seed matters
			}
			runs := 60
			if want > 2 {
				runs = 160
			}
			if want > 6 {
				runs = 420
			}
			seen := map[string]int{}
			for i := 0; i < runs; i++ {
				p.Conf.Seed = int64(c.From + i)
				seen[strings.Join(uids(prog.RunSerial(p)), " ")]++
			}
			if len(seen) < want {
				return vf.Fail("%d seeds give %d different orders of %d units, expected %d: %v", runs, len(seen), units, want, seen)
			}
			if units <= 4 && len(seen) > want {
				return vf.Fail("%d seeds give %d different orders, there are only %d: %v", runs, len(seen), want, seen)
			}
			return vf.Outcome{NonTrivial: true, Evals: runs}
		}})
}

// E13: reports describe their spec.
func TestE13_describe(t *testing.T) {
	vf.Run(t, vf.Prop[*selCase]{ID: "E13", Sub: "describe", Rule: "a spec in a container, with labels or decorators", Quick: 15000, Thorough: 400000,
		Gen: func(t *rapid.T) *selCase {
			pf := selProfile
			pf.Ordered, pf.Serial, pf.Flake, pf.MPR, pf.Bad, pf.Masks = 25, 20, 15, 10, 20, true
			c := &selCase{P: prog.Gen(t, pf)}
			decorate(t, c.P)
			c.P.Conf.Desc = vf.Pick(t, "desc", "", "My Suite")
			for vf.Pct(t, "slabel", 30) {
				c.P.Conf.SuiteLabels = append(c.P.Conf.SuiteLabels, vf.Pick(t, "slabel", lf.LabelPool...))
			}
			return c
		},
		Check: func(c *selCase) vf.Outcome {
			res := prog.RunSerial(c.P)
			if res.BuildErr != nil {
				return vf.Outcome{Err: res.BuildErr}
			}
			byID := map[int]*prog.Spec{}
			for _, s := range c.P.Specs() {
				byID[s.It.ID] = s
			}
			if len(res.Reports) != len(res.Report.SpecReports) {
				return vf.Fail("%d reports were announced, the suite report holds %d", len(res.Reports), len(res.Report.SpecReports))
			}
			out := vf.Outcome{}
			uniq := func(ls []string, serial bool) string {
				m := map[string]bool{}
				for _, l := range ls {
					m[l] = true
				}
				if serial {
					m["Serial"] = true
				}
				o := []string{}
				for l := range m {
					o = append(o, l)
				}
				sort.Strings(o)
				return strings.Join(o, ",")
			}
			sorted := func(ls []string) string {
				o := append([]string{}, ls...)
				sort.Strings(o)
				return strings.Join(o, ",")
			}
			for i, r := range res.Reports {
				if res.Report.SpecReports[i].LeafNodeLocation != r.LeafNodeLocation || res.Report.SpecReports[i].State != r.State {
					return vf.Fail("report %d of the suite report is not the one announced", i)
				}
				if r.ParallelProcess != 1 || r.RunningInParallel {
					return vf.Fail("a serial run reports process %d, parallel %v", r.ParallelProcess, r.RunningInParallel)
				}
				if r.NumAttempts > 0 && (r.StartTime.IsZero() || r.EndTime.Before(r.StartTime) || r.RunTime != r.EndTime.Sub(r.StartTime)) {
					return vf.Fail("spec at line %d: start %s, end %s, run time %s", r.LeafNodeLocation.LineNumber, r.StartTime, r.EndTime, r.RunTime)
				}
				if !r.LeafNodeType.Is(types.NodeTypeIt) {
					continue
				}
				s := byID[r.LeafNodeLocation.LineNumber]
				if s == nil {
					return vf.Fail("a report for an unknown spec: %+v", r.LeafNodeLocation)
				}
				texts, locs := []string{}, []string{}
				for _, n := range s.Path {
					texts = append(texts, n.Title())
					locs = append(locs, fmt.Sprintf("%s:%d", n.FileName(), n.LineNumber()))
				}
				gotLocs := []string{}
				for _, l := range r.ContainerHierarchyLocations {
					gotLocs = append(gotLocs, l.String())
				}
				bad := func(what string, got, want any) vf.Outcome {
					return vf.Fail("spec %d: %s reported as %q, expected %q", s.It.ID, what, fmt.Sprint(got), fmt.Sprint(want))
				}
				if fmt.Sprint(r.ContainerHierarchyTexts) != fmt.Sprint(texts) {
					return bad("container texts", r.ContainerHierarchyTexts, texts)
				}
				if fmt.Sprint(gotLocs) != fmt.Sprint(locs) {
					return bad("container locations", gotLocs, locs)
				}
				if r.LeafNodeText != s.It.Title() || r.LeafNodeLocation.FileName != s.It.FileName() {
					return bad("leaf", r.LeafNodeText+" "+r.LeafNodeLocation.FileName, s.It.Title()+" "+s.It.FileName())
				}
				full := strings.Join(append(append([]string{}, texts...), s.It.Title()), " ")
				if s.It.Title() == "" {
					full = strings.Join(texts, " ")
				}
				if r.FullText() != full {
					return bad("full text", r.FullText(), full)
				}
				for k, n := range s.Path {
					if got, want := sorted(r.ContainerHierarchyLabels[k]), uniq(n.Dec.Labels, n.Dec.Serial); got != want {
						return bad("container labels", got, want)
					}
				}
				if got, want := sorted(r.LeafNodeLabels), uniq(s.It.Dec.Labels, s.It.Dec.Serial); got != want {
					return bad("labels", got, want)
				}
				if got, want := sorted(r.Labels()), strings.Join(s.Labels(nil), ","); got != want {
					return bad("all labels", got, want)
				}
				if r.IsSerial != s.Serial() || r.IsInOrderedContainer != (s.OrderedAt() >= 0) {
					return bad("serial/ordered", fmt.Sprint(r.IsSerial, r.IsInOrderedContainer), fmt.Sprint(s.Serial(), s.OrderedAt() >= 0))
				}
				if len(s.Path) > 0 && (len(r.Labels()) > 0 || r.IsInOrderedContainer) {
					out.NonTrivial = true
				}
			}
			desc := c.P.Conf.Desc
			if desc == "" {
				desc = "Suite"
			}
			rep := res.Report
			if rep.SuiteDescription != desc || sorted(rep.SuiteLabels) != sorted(c.P.Conf.SuiteLabels) || rep.SuitePath != "/prog" || rep.SuiteConfig.RandomSeed != c.P.Conf.Seed {
				return vf.Fail("the suite is described as %q %q %q seed %d", rep.SuiteDescription, rep.SuiteLabels, rep.SuitePath, rep.SuiteConfig.RandomSeed)
			}
			if rep.RunTime != rep.EndTime.Sub(rep.StartTime) || rep.RunTime < 0 {
				return vf.Fail("the suite ran from %s to %s, in %s", rep.StartTime, rep.EndTime, rep.RunTime)
			}
			return out
		}})
}
