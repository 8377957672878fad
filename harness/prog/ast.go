// Package prog holds the little spec language the checks generate: a tree of Ginkgo nodes whose bodies are
// lists of actions. A program is plain data (JSON), so that a failing one is its own replay file.
package prog

import "strings"

// Act is one thing a node body does. On is a bitmask over executions of the body: bit (n-1)%8 set means the
// act happens on the n-th execution.
type Act struct {
	Op  string
	On  uint8  `json:",omitempty"` // 0 means always
	Msg string `json:",omitempty"`
	ID  int    `json:",omitempty"` // cleanups have an id of their own
	Sub []Act  `json:",omitempty"` // what the cleanup / the By callback does
	N   int    `json:",omitempty"`
	// Procs is a bitmask of the processes the act happens on (0: all of them)
	Procs uint8 `json:",omitempty"`
}

// OnProc says whether the act happens on process proc.
func (a Act) OnProc(proc int) bool { return a.Procs == 0 || a.Procs&(1<<uint(proc-1)) != 0 }

func (a Act) Applies(n int) bool { return a.On == 0 || a.On&(1<<uint((n-1)%8)) != 0 }

// Dec are the decorators of a node.
type Dec struct {
	Focus, Pending, Serial, Ordered, CoF, Once bool     `json:",omitempty"`
	Labels                                     []string `json:",omitempty"`
	Flake, MPR                                 int      `json:",omitempty"`
	NodeTimeoutMS, SpecTimeoutMS, GraceMS      int      `json:",omitempty"`
	Ctx                                        bool     `json:",omitempty"` // body takes a SpecContext
}

// Node is a container ("C"), a subject ("It") or a setup/report node
// (BE, JBE, AE, JAE, BA, AA, RBE, RAE; BS, AS, SBS, SAS, RBS, RAS at suite level).
type Node struct {
	Kind    string
	ID      int
	Text    string  `json:",omitempty"`
	File    string  `json:",omitempty"`
	Line    int     `json:",omitempty"`
	Dec     Dec     `json:",omitempty"`
	Acts    []Act   `json:",omitempty"`
	Acts2   []Act   `json:",omitempty"` // the all-procs (SBS) / proc-1 (SAS) body
	Kids    []*Node `json:",omitempty"`
	Data    []byte  `json:",omitempty"` // what the first body of a SBS returns, if HasData
	HasData bool    `json:",omitempty"`
}

// SBSData is what the first process hands to all processes.
func (n *Node) SBSData() []byte {
	if n.HasData {
		return n.Data
	}
	return []byte("data-" + itoa(n.ID))
}

func (n *Node) IsContainer() bool { return n.Kind == "C" }

// Conf is the part of the suite configuration a program is run with.
type Conf struct {
	Seed                  int64
	RandomizeAll          bool     `json:",omitempty"`
	FailFast              bool     `json:",omitempty"`
	FailOnPending         bool     `json:",omitempty"`
	FailOnEmpty           bool     `json:",omitempty"`
	DryRun                bool     `json:",omitempty"`
	Flake, MPR            int      `json:",omitempty"`
	Focus, Skip           []string `json:",omitempty"`
	FocusFiles, SkipFiles []string `json:",omitempty"`
	LabelFilter           string   `json:",omitempty"`
	SuiteLabels           []string `json:",omitempty"`
	Desc                  string   `json:",omitempty"`
	Procs                 int      `json:",omitempty"`
	TimeoutMS             int      `json:",omitempty"`
	GraceMS               int      `json:",omitempty"`
}

// Prog is a whole suite.
type Prog struct {
	Suite []*Node `json:",omitempty"` // suite-level nodes
	Top   []*Node
	Conf  Conf
}

// Walk visits every node of the tree with its ancestors (outermost first).
func (p *Prog) Walk(f func(n *Node, path []*Node)) {
	var rec func(ns []*Node, path []*Node)
	rec = func(ns []*Node, path []*Node) {
		for _, n := range ns {
			f(n, path)
			if n.IsContainer() {
				rec(n.Kids, append(append([]*Node{}, path...), n))
			}
		}
	}
	rec(p.Top, nil)
}

// Spec is one It with what applies to it.
type Spec struct {
	It    *Node
	Path  []*Node   // containers, outermost first
	Level [][]*Node // Level[k]: the setup nodes at nesting level k (k = 0..len(Path)), in definition order
	Skip  bool      // filtered out
	Focus bool
}

func (s *Spec) Pending() bool {
	for _, n := range s.nodes() {
		if n.Dec.Pending {
			return true
		}
	}
	return false
}

func (s *Spec) nodes() []*Node { return append(append([]*Node{}, s.Path...), s.It) }

func (s *Spec) Serial() bool {
	for _, n := range s.nodes() {
		if n.Dec.Serial {
			return true
		}
	}
	return false
}

// OrderedAt is the index in Path of the outermost Ordered container (-1: none).
func (s *Spec) OrderedAt() int {
	for i, n := range s.Path {
		if n.Dec.Ordered {
			return i
		}
	}
	return -1
}

// Text is the text filters match against (without the suite description).
func (s *Spec) Text() string {
	out := []string{}
	for _, n := range s.nodes() {
		if t := n.text(); t != "" {
			out = append(out, t)
		}
	}
	return strings.Join(out, " ")
}

// Specs lists the specs of the program in definition order.
func (p *Prog) Specs() []*Spec {
	out := []*Spec{}
	var rec func(kids []*Node, path []*Node, levels [][]*Node)
	rec = func(kids []*Node, path []*Node, levels [][]*Node) {
		here := []*Node{}
		for _, k := range kids {
			if k.Kind != "C" && k.Kind != "It" {
				here = append(here, k)
			}
		}
		lv := append(append([][]*Node{}, levels...), here)
		for _, k := range kids {
			switch k.Kind {
			case "It":
				out = append(out, &Spec{It: k, Path: path, Level: lv})
			case "C":
				rec(k.Kids, append(append([]*Node{}, path...), k), lv)
			}
		}
	}
	rec(p.Top, nil, nil)
	return out
}

func (n *Node) text() string {
	if n.Text == "-" {
		return ""
	}
	if n.Text == "" {
		switch n.Kind {
		case "C":
			return "c" + itoa(n.ID)
		case "It":
			return "s" + itoa(n.ID)
		}
	}
	return n.Text
}

func (n *Node) file() string {
	if n.File == "" {
		return "/prog/suite_test.go"
	}
	return n.File
}

func (n *Node) line() int {
	if n.Line == 0 {
		return n.ID
	}
	return n.Line
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// FileName and LineNumber are where the node says it is.
func (n *Node) FileName() string { return n.file() }
func (n *Node) LineNumber() int  { return n.line() }

// Title is the node's text.
func (n *Node) Title() string { return n.text() }
