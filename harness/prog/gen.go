package prog

import (
	"fmt"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/vf"
	"pgregory.net/rapid"
)

// Profile steers the generator.
type Profile struct {
	MaxTop, MaxKids, MaxDepth int
	MaxSpecs                  int
	Ordered                   int // percent of containers marked Ordered (top-most on their path)
	CoF                       int // percent of those also ContinueOnFailure
	AllNodes                  int // percent chance (per slot) of BeforeAll/AfterAll in Ordered containers
	Once                      int // percent of each-nodes marked OncePerOrdered
	Setup                     int // percent chance (per slot) of a setup node
	Crowd                     int // percent of slots with many setup nodes
	Report                    int // percent chance (per slot) of a report node
	Suite                     int // percent chance of each suite-level node
	Sync                      int // percent of those that are Synchronized (30 at least)
	Focus, Pending, Serial    int
	Flake, MPR                int // percent of containers/Its carrying the decorator
	ConfFlake, ConfMPR        int // percent
	FailFast                  int
	DryRun                    int
	Bad                       int // percent of bodies that do something other than pass
	Skips, Aborts, Panics     int // weights among bad
	BadReport                 int // percent of report nodes that fail
	Cleanup                   int // percent of bodies that register cleanups
	BadCleanup                int
	Narrate                   int // percent of bodies that write, add entries, By
	Time                      int // percent of specs that involve timeouts
	Ints                      int // percent of programs with interrupts
	Flags                     int // percent of FailOnPending/FailOnEmpty
	EmptyText                 bool
	Sleep                     int  // percent of bodies that take a while
	ByProc                    int  // percent of what happens in suite-level nodes that happens on some processes only
	MaskIts                   bool // Masks, in the bodies of specs only
	Masks                     bool // bad acts apply on some executions only
}

type gen struct {
	t        *rapid.T
	p        Profile
	id       int
	specs    int
	ints     bool
	intsLeft int
	timed    bool
}

func (g *gen) pct(label string, n int) bool { return vf.Pct(g.t, label, n) }

func (g *gen) n(label string, lo, hi int) int { return vf.Range(g.t, label, lo, hi) }

func (g *gen) nid() int { g.id++; return g.id }

// Gen generates a program.
func Gen(t *rapid.T, p Profile) *Prog {
	g := &gen{t: t, p: p}
	pr := &Prog{}
	pr.Conf.Seed = int64(g.n("seed", 1, 1000))
	pr.Conf.RandomizeAll = g.pct("randall", 30)
	pr.Conf.FailFast = g.pct("failfast", p.FailFast)
	pr.Conf.DryRun = g.pct("dryrun", p.DryRun)
	pr.Conf.FailOnPending = g.pct("fop", p.Flags)
	pr.Conf.FailOnEmpty = g.pct("foe", p.Flags)
	if g.pct("cflake", p.ConfFlake) {
		pr.Conf.Flake = g.n("cflake", 1, 4)
	} else if g.pct("cmpr", p.ConfMPR) {
		pr.Conf.MPR = g.n("cmpr", 1, 4)
	}
	g.ints = g.pct("ints", p.Ints)
	if g.ints {
		g.intsLeft = 4
	}
	for _, k := range []string{"RBS", "BS", "AS", "RAS"} {
		if g.pct("suite"+k, p.Suite) {
			n := &Node{Kind: k, ID: g.nid()}
			if (k == "BS" || k == "AS") && g.pct("sync", max(30, p.Sync)) {
				n.Kind = map[string]string{"BS": "SBS", "AS": "SAS"}[k]
				n.Acts2 = g.acts(n.Kind, "suite")
				if k == "BS" && g.pct("data", p.ByProc) {
					n.HasData = true
					n.Data = make([]byte, vf.Pick(g.t, "datalen", 0, 1, 3, 40, 5000))
					for i := range n.Data {
						n.Data[i] = byte(i*37 + g.id)
					}
				}
			}
			n.Acts = g.acts(n.Kind, "suite")
			pr.Suite = append(pr.Suite, n)
			if (k == "RBS" || k == "RAS") && g.pct("suite2", 30) {
				m := &Node{Kind: k, ID: g.nid()}
				m.Acts = g.acts(k, "suite")
				pr.Suite = append(pr.Suite, m)
			}
		}
	}
	pr.Top = g.level(0, false, false, p.MaxTop, true)
	return pr
}

// level generates the children of a container (or of the root).
func (g *gen) level(depth int, inOrdered, serialOK bool, maxKids int, top bool) []*Node {
	kids := []*Node{}
	p := g.p
	setup := func() {
		crowd := 0
		if g.pct("crowd", p.Crowd) {
			crowd = g.n("crowd", 4, 9)
		}
		for crowd > 0 || g.pct("setup", p.Setup) {
			crowd--
			kinds := []string{"BE", "AE", "JBE", "JAE"}
			n := &Node{Kind: vf.Pick(g.t, "kind", kinds...), ID: g.nid()}
			n.Dec.Once = g.pct("once", p.Once)
			n.Dec.Ctx = g.pct("ctx", 25)
			n.Acts = g.acts(n.Kind, "setup")
			kids = append(kids, n)
		}
		if inOrdered && !top {
			for g.pct("all", p.AllNodes) {
				n := &Node{Kind: vf.Pick(g.t, "kind", "BA", "AA"), ID: g.nid()}
				n.Dec.Ctx = g.pct("ctx", 25)
				n.Acts = g.acts(n.Kind, "setup")
				kids = append(kids, n)
			}
		}
		if g.pct("report", p.Report) {
			n := &Node{Kind: vf.Pick(g.t, "kind", "RBE", "RAE"), ID: g.nid()}
			n.Acts = g.acts(n.Kind, "report")
			kids = append(kids, n)
		}
	}
	setup()
	count := g.n("kids", 1, maxKids)
	for i := 0; i < count; i++ {
		if g.specs >= p.MaxSpecs {
			break
		}
		if depth < p.MaxDepth && g.pct("container", 45) {
			kids = append(kids, g.container(depth, inOrdered))
		} else {
			kids = append(kids, g.it(inOrdered))
		}
		if g.pct("late", 25) {
			setup()
		}
	}
	return kids
}

func (g *gen) container(depth int, inOrdered bool) *Node {
	n := &Node{Kind: "C", ID: g.nid()}
	g.mark(n)
	if g.pct("ordered", g.p.Ordered) {
		n.Dec.Ordered = true
		if !inOrdered && g.pct("cof", g.p.CoF) {
			n.Dec.CoF = true
		}
	}
	if !inOrdered && g.pct("serial", g.p.Serial) {
		n.Dec.Serial = true
	}
	if g.p.EmptyText && g.pct("notext", 10) {
		n.Text = "-"
	}
	n.Kids = g.level(depth+1, inOrdered || n.Dec.Ordered, false, g.p.MaxKids, false)
	return n
}

func (g *gen) mark(n *Node) {
	if g.pct("focus", g.p.Focus) {
		n.Dec.Focus = true
	} else if g.pct("pending", g.p.Pending) {
		n.Dec.Pending = true
	}
	if g.pct("flake", g.p.Flake) {
		n.Dec.Flake = g.n("flake", 1, 4)
	} else if g.pct("mpr", g.p.MPR) {
		n.Dec.MPR = g.n("mpr", 1, 4)
	}
}

func (g *gen) it(inOrdered bool) *Node {
	g.specs++
	n := &Node{Kind: "It", ID: g.nid()}
	g.mark(n)
	if !inOrdered && g.pct("serial", g.p.Serial) {
		n.Dec.Serial = true
	}
	n.Dec.Ctx = g.pct("ctx", 25)
	n.Acts = g.acts("It", "it")
	return n
}

func (g *gen) msg(s string) string { return fmt.Sprintf("%s%d", s, g.nid()) }

func (g *gen) acts(kind, class string) []Act {
	if g.p.MaskIts {
		g.p.Masks = kind == "It"
	}
	out := []Act{}
	p := g.p
	if g.pct("sleep", p.Sleep) {
		out = append(out, Act{Op: "sleep", N: g.n("ms", 1, 4)})
	}
	if p.ByProc > 0 && class == "suite" {
		defer func() {
			for i := range out {
				if g.pct("byproc", p.ByProc) {
					out[i].Procs = uint8(g.n("procs", 1, 15))
				}
			}
		}()
	}
	narrate := func(prob int) {
		for g.pct("narrate", prob) {
			op := vf.Pick(g.t, "narr", "gw", "out", "entry", "by", "bycb")
			a := Act{Op: op, Msg: g.msg(op), ID: g.nid(), N: g.n("vis", 0, 2)}
			if op == "gw" || op == "out" {
				a.Msg += vf.Pick(g.t, "nl", "\n", "", "é\n")
			}
			if op == "bycb" && g.pct("bysub", 50) {
				a.Sub = []Act{{Op: "gw", Msg: g.msg("inby") + "\n"}}
				if g.pct("bybad", p.Bad/2) {
					a.Sub = append(a.Sub, g.bad("bad"))
				}
			}
			out = append(out, a)
		}
	}
	narrate(p.Narrate)
	if class == "report" {
		if g.intsLeft > 0 && g.pct("rint", 12) {
			g.intsLeft--
			out = append(out, Act{Op: "int", On: uint8(g.n("maskv", 1, 15))})
			return out
		}
		if g.pct("badreport", p.BadReport) {
			b := g.bad("bad")
			if b.Op == "skip" {
				b.Op = "fail"
			}
			out = append(out, b)
		}
		return out
	}
	if kind == "RBS" || kind == "RAS" {
		if g.pct("badreport", p.BadReport) {
			b := g.bad("bad")
			if b.Op == "skip" {
				b.Op = "fail"
			}
			out = append(out, b)
		}
		return out
	}
	for g.pct("cleanup", p.Cleanup) {
		out = append(out, g.cleanup())
	}
	bad := p.Bad
	if class == "setup" {
		bad = bad / 2
	}
	if class == "suite" {
		bad = bad / 3
	}
	if g.pct("isbad", bad) {
		out = append(out, g.bad("bad"))
	}
	if (g.ints || p.Time > 0) && len(out) > 0 && out[len(out)-1].Op == "gofail" && g.pct("letgo", 30) {
		out = append(out, Act{Op: "letgo"})
	}
	if g.intsLeft > 0 && g.pct("int", 25) {
		g.intsLeft--
		op := "int"
		if g.pct("int2", 15) {
			op = "int2"
		}
		out = append(out, Act{Op: op, On: 1})
		if g.pct("afterint", 40) {
			out = append(out, g.bad("bad"))
		}
	}
	if g.pct("latecleanup", p.Cleanup/3) {
		out = append(out, g.cleanup())
	}
	return out
}

func (g *gen) cleanup() Act {
	a := Act{Op: "cleanup", ID: g.nid(), Msg: vf.Pick(g.t, "variant", "", "", "err", "args", "ctx", "ctxargs", "ctxboth", "ownctx", "nilargs", "variadic")}
	if g.p.Narrate > 0 && g.pct("xgw", 20) {
		a.Sub = append(a.Sub, Act{Op: "gw", Msg: g.msg("x") + "\n"})
	}
	if g.pct("badcleanup", g.p.BadCleanup) {
		b := g.bad("bad")
		if b.Op == "skip" {
			b.Op = "fail"
		}
		if a.Msg != "" && g.pct("reterr", 50) {
			b = Act{Op: "reterr", On: b.On}
		}
		a.Sub = append(a.Sub, b)
	}
	if g.intsLeft > 0 && g.pct("xint", 15) {
		g.intsLeft--
		a.Sub = append(a.Sub, Act{Op: "int", On: 1})
	}
	if g.p.Masks && g.pct("mask", 20) {
		a.On = uint8(g.n("maskv", 1, 15))
	}
	return a
}

func (g *gen) bad(label string) Act {
	ops := []string{"fail", "fail", "gofail"}
	for i := 0; i < g.p.Skips; i++ {
		ops = append(ops, "skip")
	}
	for i := 0; i < g.p.Panics; i++ {
		ops = append(ops, "panic", "goexit")
	}
	for i := 0; i < g.p.Aborts; i++ {
		ops = append(ops, "abort")
	}
	a := Act{Op: vf.Pick(g.t, label, ops...), Msg: g.msg("m")}
	if g.p.Masks && g.pct("mask", 70) {
		a.On = uint8(g.n("maskv", 1, 15))
	}
	return a
}

// Timed makes bodies of the program block until they are told to stop (or for ever), with node, spec or suite
// timeouts in play. Only bodies that block have short timeouts; all other durations are long.
func Timed(t *rapid.T, pr *Prog) *Prog {
	g := &gen{t: t, id: 1000}
	mode := vf.Pick(t, "mode", "node", "node", "spec", "suite")
	pr.Conf.GraceMS = 25
	type slot struct {
		n  *Node
		x  *Act
		up *Node
	}
	slots := []slot{}
	var cleanups func(n *Node, acts []Act)
	cleanups = func(n *Node, acts []Act) {
		for i := range acts {
			if acts[i].Op == "cleanup" {
				slots = append(slots, slot{x: &acts[i], up: n})
			}
		}
	}
	pr.Walk(func(n *Node, path []*Node) {
		switch n.Kind {
		case "C", "RBE", "RAE":
			return
		}
		if n.Kind == "It" && mode == "spec" {
			n.Dec.Ctx, n.Dec.SpecTimeoutMS = true, 250
		}
		if n.Kind == "It" && (mode == "node" || mode == "suite") && g.pct("longspec", 25) {
			n.Dec.Ctx, n.Dec.SpecTimeoutMS = true, 600000
		}
		slots = append(slots, slot{n: n})
		cleanups(n, n.Acts)
	})
	if mode != "spec" {
		for _, n := range pr.Suite {
			if n.Kind == "BS" || n.Kind == "AS" {
				slots = append(slots, slot{n: n})
				cleanups(n, n.Acts)
			}
		}
	}
	if mode == "suite" {
		pr.Conf.TimeoutMS = 300
	} else if g.pct("longsuite", 20) {
		pr.Conf.TimeoutMS = 600000
	}
	if len(slots) == 0 {
		return pr
	}
	k := g.n("waits", 1, 3)
	used := map[int]bool{}
	for j := 0; j < k; j++ {
		i := g.n("slot", 0, len(slots)-1)
		if used[i] {
			continue
		}
		used[i] = true
		s := slots[i]
		a := Act{Op: vf.Pick(t, "waitop", "wait", "wait", "hang"), On: 1}
		acts := []Act{a}
		if a.Op == "wait" && g.pct("failafter", 35) {
			acts = append(acts, Act{Op: vf.Pick(t, "fa", "fail", "skip", "panic"), Msg: g.msg("late")})
		} else if g.pct("gofailbefore", 20) {
			acts = append([]Act{{Op: "gofail", Msg: g.msg("early"), On: 1}}, acts...)
		}
		if s.x != nil {
			// only a cleanup that takes a context can have a timeout
			if mode == "node" || mode == "spec" && g.pct("shortcleanup", 40) {
				s.x.Msg, s.x.N = "ctx", 25
			}
			s.x.Sub = append(acts, s.x.Sub...)
			continue
		}
		if mode == "node" {
			s.n.Dec.Ctx, s.n.Dec.NodeTimeoutMS = true, 25
		} else if k := s.n.Kind; (k == "AE" || k == "AA" || k == "JAE") && mode == "spec" && g.pct("shortnode", 50) || k == "AS" && g.pct("shortnode", 50) {
			// also once the time of the spec, or the suite, is up
			s.n.Dec.Ctx, s.n.Dec.NodeTimeoutMS = true, 30
		} else if k := s.n.Kind; (k == "It" || k == "BE" || k == "BA" || k == "JBE") && g.pct("longnode", 20) {
			s.n.Dec.Ctx, s.n.Dec.NodeTimeoutMS = true, 600000
		}
		// before anything that ends the body
		s.n.Acts = append(acts, s.n.Acts...)
	}
	return pr
}
