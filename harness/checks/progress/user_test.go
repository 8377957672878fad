// Package progress checks the progress reports that Ginkgo makes of a run. Its user code is in files of its own, as far as the compiler knows.
package progress

import (
	ginkgo "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/types"
)

type goroutine struct {
	links []func(g *goroutine, i int)
	id    uint64
	ready chan bool
	stop  chan bool
}

//line /vfuser/body/body.go:11
func (r *runner) body(n *node) func(internal.SpecContext) {
	return func(ctx internal.SpecContext) {
		r.enter(n, ctx)
	}
}

func (r *runner) plain(n *node) func() {
	return func() {
		r.enter(n, nil)
	}
}

func (r *runner) reporting(n *node) func(internal.SpecContext, types.SpecReport) {
	return func(ctx internal.SpecContext, _ types.SpecReport) {
		r.enter(n, ctx)
	}
}

//line /vfuser/req/req.go:21
func (r *runner) wait() {
	r.requests <- true
	<-r.answers
}

//line /vfuser/leak/leak.go:31
func (r *runner) hang() {
	<-r.end
}

//line /vfuser/a/steps.go:51
func byInA(text string, f ...func()) {
	ginkgo.By(text, f...)
}

//line /vfuser/d/steps.go:61
func byInD(text string, f ...func()) {
	ginkgo.By(text, f...)
}

//line /vfuser/steps/steps.go:71
func byInSteps(text string, f ...func()) {
	ginkgo.By(text, f...)
}

//line /vfuser/a/g.go:7
func inA(g *goroutine, i int) {
	g.links[i](g, i+1)
}

//line /vfuser/a/sub/g.go:7
func inASub(g *goroutine, i int) {
	g.links[i](g, i+1)
}

//line /vfuser/b/g.go:7
func inB(g *goroutine, i int) {
	g.links[i](g, i+1)
}

//line /vfuser/c/g.go:7
func inC(g *goroutine, i int) {
	g.links[i](g, i+1)
}

//line /vfuser/d/short.go:40
func inShort(g *goroutine, i int) {
	g.links[i](g, i+1)
}

//line /vfuser/d/first.go:1
func inFirst(g *goroutine, i int) { g.links[i](g, i+1) }

//line /vfuser/d/last.go:4
func inLast(g *goroutine, i int) {
	g.links[i](g, i+1)
}

//line /vfuser/d/dir.go:4
func inDir(g *goroutine, i int) {
	g.links[i](g, i+1)
}

//line /vfuser/d/end.go:41
func block(g *goroutine, _ int) {
	close(g.ready)
	<-g.stop
}

//line tables.go:1
var userFuncs = []struct {
	f    func(g *goroutine, i int)
	file string
	line int
}{
	{inA, "a/g.go", 8}, {inASub, "a/sub/g.go", 8}, {inB, "b/g.go", 8}, {inC, "c/g.go", 8},
	{inShort, "d/short.go", 41}, {inFirst, "d/first.go", 1}, {inLast, "d/last.go", 5}, {inDir, "d/dir.go", 5},
}

var bys = []struct {
	f  func(text string, f ...func())
	at types.CodeLocation
}{
	{byInA, types.CodeLocation{FileName: "/vfuser/a/steps.go", LineNumber: 52}},
	{byInD, types.CodeLocation{FileName: "/vfuser/d/steps.go", LineNumber: 62}},
	{byInSteps, types.CodeLocation{FileName: "/vfuser/steps/steps.go", LineNumber: 72}},
}

// what is on disk under the first and the second source root: a number of lines, -1 for no file, -2 for a directory
var onDisk = map[string][2]int{
	"body/body.go": {30, -1}, "req/req.go": {-1, 23}, "leak/leak.go": {33, -1}, "a/g.go": {20, 30}, "a/sub/g.go": {-1, 10},
	"b/g.go": {-1, -1}, "c/g.go": {9, -1}, "d/short.go": {3, 60}, "d/first.go": {1, -1}, "d/last.go": {5, -1}, "d/dir.go": {-2, 8}, "d/end.go": {0, -1},
}
