package reports

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/rep"
)

var stateNames = []string{"passed", "failed", "skipped", "pending", "panicked", "timedout", "interrupted", "aborted"}
var leafNames = []string{"It", "BeforeSuite", "SynchronizedBeforeSuite", "AfterSuite", "SynchronizedAfterSuite", "ReportBeforeSuite", "ReportAfterSuite", "DeferCleanup (Suite)"}

// seq looks for texts, one behind the other.
type seq struct {
	what, out string
	pos       int
	tr        func(string) string // what becomes of a text on its way to the output
	err       error
}

func (s *seq) need(text string) {
	if s.err != nil || text == "" {
		return
	}
	if s.tr != nil {
		text = s.tr(text)
	}
	i := strings.Index(s.out[s.pos:], text)
	switch {
	case i >= 0:
		s.pos += i + len(text)
	case strings.Contains(s.out, text):
		s.err = fmt.Errorf("%s: %q is too early, or less often there than expected, in\n%s", s.what, text, s.out)
	default:
		s.err = fmt.Errorf("%s: %q is missing in\n%s", s.what, text, s.out)
	}
}

func (s *seq) words(texts ...string) {
	for _, t := range rep.Tokens(texts...) {
		s.need(t)
	}
}

// once: the words of their own of these texts are there, once each (or not at all).
func once(what, out string, shown bool, texts ...string) error {
	for _, t := range rep.Tokens(texts...) {
		n := strings.Count(out, t)
		if shown && n != 1 || !shown && n != 0 {
			return fmt.Errorf("%s: %q is there %d times (to be shown: %v) in\n%s", what, t, n, shown, out)
		}
	}
	return nil
}

func (s *seq) loc(l rep.Loc) {
	if l.Custom != "" {
		s.words(l.Custom) // as far as it is not taken for a style
		return
	}
	s.need(fmt.Sprintf("%s:%d", l.File, l.Line))
}

func (s *seq) progress(p *rep.Progress) {
	s.words(p.Msg)
	if p.Leaf != "" {
		s.words(p.Texts...)
		s.words(p.Leaf)
		s.loc(p.LeafLoc)
	}
	s.need(rep.NodeTypes[p.NodeType].String())
	if p.NodeType != 0 {
		s.words(p.Node)
	}
	s.loc(p.NodeLoc)
	if p.Step != "" {
		s.words(p.Step)
		s.loc(p.StepLoc)
	}
	spec := func(g rep.Goroutine) {
		s.need(fmt.Sprintf("goroutine %d [%s]", g.ID, g.State))
		for _, c := range g.Stack {
			s.need(c.Func)
			s.need(fmt.Sprintf("%s:%d", c.File, c.Line))
			if c.High {
				s.words(c.Source...)
			}
		}
	}
	high := func(g rep.Goroutine) bool {
		for _, c := range g.Stack {
			if c.High {
				return true
			}
		}
		return false
	}
	for _, g := range p.Gs {
		if g.Spec {
			spec(g)
			break
		}
	}
	s.words(p.Add...)
	for _, want := range []bool{true, false} {
		for _, g := range p.Gs {
			if !g.Spec && high(g) == want {
				spec(g)
			}
		}
	}
}

// failure: all there is to say about a failure.
func (s *seq) failure(state int, f *rep.Fail, more bool) {
	s.need(fmt.Sprintf("[%s] ", strings.ToUpper(stateNames[state])))
	s.words(f.Msg)
	s.need("[" + rep.NodeTypes[f.NodeType].String() + "]")
	s.loc(f.Loc)
	if f.Panic != "" {
		s.words(f.Panic)
		for _, l := range strings.Split(f.Loc.Stack, "\n") {
			s.need(l)
		}
	}
	if f.PR != nil {
		s.progress(f.PR)
	}
	if more && f.More != nil {
		s.failure(f.More.State, f.More, true)
	}
}

// item is a part of a timeline.
type item struct {
	off, order int
	emit       func(s *seq)
	key        string // the text that names it
	hidden     bool   // from the console
	vv         bool   // shown in full detail only
}

func items(p rep.Spec, full bool) []item {
	var out []item
	add := func(tl rep.TL, key string, emit func(s *seq)) *item {
		out = append(out, item{off: tl.Offset, order: tl.Order, key: key, emit: emit})
		return &out[len(out)-1]
	}
	fail := func(state int, f *rep.Fail, more bool) {
		key := f.Msg
		if !full {
			key = ""
		}
		add(f.TL, key, func(s *seq) {
			if full {
				s.failure(state, f, more)
				return
			}
			s.need("[" + strings.ToUpper(stateNames[state]) + "]")
			s.need("[" + rep.NodeTypes[f.NodeType].String() + "]")
			s.loc(f.Loc)
		})
	}
	if p.Fail != nil {
		fail(p.State, p.Fail, false)
		if p.Fail.More != nil {
			fail(p.Fail.More.State, p.Fail.More, true)
		}
	}
	for i := range p.Add {
		fail(p.Add[i].State, &p.Add[i], true)
	}
	for _, e := range p.Entries {
		it := add(e.TL, e.Name, func(s *seq) {
			s.words(e.Name)
			s.loc(e.Loc)
			if shown, ok := e.Shown(); ok {
				s.words(shown)
			}
		})
		it.hidden = e.Vis == 2
	}
	for i := range p.Progress {
		add(p.Progress[i].TL, p.Progress[i].Msg, func(s *seq) { s.progress(&p.Progress[i]) })
	}
	for _, e := range p.Events {
		key := e.Msg
		if e.Type > 3 {
			key = ""
		}
		it := add(e.TL, key, func(s *seq) {
			switch e.Type {
			case 0:
				s.need("STEP: ")
				s.words(e.Msg)
			case 1:
				s.need("END STEP: ")
				s.words(e.Msg)
			case 2:
				s.need("> Enter [" + rep.NodeTypes[e.NodeType].String() + "]")
				s.words(e.Msg)
			case 3:
				s.need("< Exit [" + rep.NodeTypes[e.NodeType].String() + "]")
				s.words(e.Msg)
			case 4:
				s.need(fmt.Sprintf("Attempt #%d Passed", e.Attempt))
			case 5:
				s.need(fmt.Sprintf("Attempt #%d Failed", e.Attempt))
			}
		})
		it.vv = e.Type >= 1 && e.Type <= 3
	}
	sort.Slice(out, func(i, j int) bool { return out[i].order < out[j].order })
	return out
}

// timeline: what was written to the GinkgoWriter, with what happened in between.
func timeline(what, out string, gw string, list []item, verbatim bool, tr func(string) string) error {
	s := &seq{what: what, out: out, tr: tr}
	chunk := func(c string) {
		if verbatim {
			s.need(c)
		}
		s.pos = max(0, s.pos)
		if !verbatim {
			s.words(c)
		}
	}
	cursor := 0
	for _, it := range list {
		chunk(gw[cursor:it.off])
		cursor = it.off
		it.emit(s)
	}
	chunk(gw[cursor:])
	return s.err
}

// xmlText is what XML can say of a text.
func xmlText(s string) string {
	out := &strings.Builder{}
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		s = s[n:]
		if r == utf8.RuneError && n == 1 || r < 0x20 && r != '\t' && r != '\n' && r != '\r' || r == 0xFFFE || r == 0xFFFF {
			r = utf8.RuneError
		}
		out.WriteRune(r)
	}
	return out.String()
}

func read(file string) string {
	data, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	return string(data)
}
