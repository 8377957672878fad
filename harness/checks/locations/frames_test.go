// Code made by hand-written tables: the functions of which chains of calls are made. Every one is in a file of its own, as far as the compiler knows.
package locations

import (
	ginkgo "github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/types"
)

//line /vfuser/plain.go:1
func plain(c *chain, i int) {
	c.links[i](c, i+1)
}

//line /vfuser/plain2.go:1
func plain2(c *chain, i int) {
	if i > 0 {
		c.links[i](c, i+1)
	}
}

//line /vfuser/outer.go:1
func outer(c *chain, i int) {
	inlined(c, i)
}
func inlined(c *chain, i int) { c.links[i](c, i+1) }

//line /vfuser/closure.go:1
func closure(c *chain, i int) {
	func() {
		c.links[i](c, i+1)
	}()
}

//line /vfuser/method.go:1
type obj struct{ x int }
func (o *obj) method(c *chain, i int) {
	c.links[i](c, i+1)
}
func method(c *chain, i int) {
	(&obj{}).method(c, i)
}

//line /vfuser/generic.go:1
func generic[T any](c *chain, i int, _ T) {
	c.links[i](c, i+1)
}
func genericInt(c *chain, i int) {
	generic(c, i, 1)
}

//line /vfuser/helper.go:1
func helper(c *chain, i int) {
	ginkgo.GinkgoHelper()
	c.links[i](c, i+1)
}

//line /vfuser/helper2.go:1
func helper2(c *chain, i int) {
	c.x++
	ginkgo.GinkgoHelper()
	c.links[i](c, i+1)
}

//line /vfuser/helperT.go:1
func helperT(c *chain, i int) {
	ginkgo.GinkgoT().Helper()
	c.links[i](c, i+1)
}

//line /vfuser/helperTB.go:1
func helperTB(c *chain, i int) {
	ginkgo.GinkgoTB().Helper()
	c.links[i](c, i+1)
}

//line /vfuser/marked.go:1
func marked(c *chain, i int) {
	markCaller()
	c.links[i](c, i+1)
}
func markCaller() { types.MarkAsHelper(1) }

//line /vfuser/markedSelf.go:1
func markedSelf(c *chain, i int) {
	types.MarkAsHelper()
	plainIn(c, i)
}
func plainIn(c *chain, i int) { c.links[i](c, i+1) }

//line /vfuser/helperMethod.go:1
func (o obj) helperMethod(c *chain, i int) {
	ginkgo.GinkgoHelper()
	c.links[i](c, i+1)
}
func callsHelperMethod(c *chain, i int) {
	obj{}.helperMethod(c, i)
}

//line /vfuser/helperGeneric.go:1
func helperGeneric[T any](c *chain, i int, _ T) {
	ginkgo.GinkgoHelper()
	c.links[i](c, i+1)
}
func callsHelperGeneric(c *chain, i int) {
	if i%2 == 0 {
		helperGeneric(c, i, "")
	} else {
		helperGeneric(c, i, 1)
	}
}

//line /vfuser/helperOfClosure.go:1
func helperOfClosure(c *chain, i int) {
	ginkgo.GinkgoHelper()
	func() {
		c.links[i](c, i+1)
	}()
}

//line /vfuser/closureHelper.go:1
func closureHelper(c *chain, i int) {
	func() {
		ginkgo.GinkgoHelper()
		c.links[i](c, i+1)
	}()
}

//line /vfuser/recursive.go:1
func recursive(c *chain, i int) { recurse(c, i, 12) }
func recurse(c *chain, i, n int) {
	ginkgo.GinkgoHelper()
	if n > 0 {
		recurse(c, i, n-1)
	} else {
		c.links[i](c, i+1)
	}
}

//line /vfuser/deep.go:1
func deep(c *chain, i int) {
	dive(c, i, 60)
}
func dive(c *chain, i, n int) {
	ginkgo.GinkgoHelper()
	if n > 0 {
		dive(c, i, n-1)
	} else {
		c.links[i](c, i+1)
	}
}

//line /vfuser/inGo.go:1
func inGo(c *chain, i int) {
	done := make(chan bool)
	go func() {
		defer close(done)
		defer ginkgo.GinkgoRecover()
		c.links[i](c, i+1)
	}()
	<-done
}

//line /vfuser/inGoT.go:1
func inGoT(c *chain, i int) {
	done := make(chan bool)
	go func() {
		defer close(done)
		defer ginkgo.GinkgoT().GinkgoRecover()
		c.links[i](c, i+1)
	}()
	<-done
}

//line /vfuser/inGoTB.go:1
func inGoTB(c *chain, i int) {
	t := ginkgo.GinkgoTB()
	done := make(chan bool)
	go func() {
		defer close(done)
		defer t.GinkgoT.GinkgoRecover()
		c.links[i](c, i+1)
	}()
	<-done
}

//line /vfuser/by.go:1
func by(c *chain, i int) {
	ginkgo.By("step", func() {
		c.links[i](c, i+1)
	})
}

//line /vfuser/helperBy.go:1
func helperBy(c *chain, i int) {
	ginkgo.GinkgoHelper()
	ginkgo.By("step", func() {
		ginkgo.GinkgoHelper()
		c.links[i](c, i+1)
	})
}

//line /vfuser/ops.go:1
func opFail(c *chain, _ int) { ginkgo.Fail("failed", c.skips()...) }
func opSkip(c *chain, _ int) { ginkgo.Skip("skipped", c.skips()...) }
func opAbortSuite(c *chain, _ int) { ginkgo.AbortSuite("aborted", c.skips()...) }
func oppanic(c *chain, _ int) { panic("on purpose") }
func opBy(c *chain, _ int) { ginkgo.By("look here") }
func opByCallback(c *chain, _ int) { ginkgo.By("look here", func() {}) }
func opAddReportEntry(c *chain, _ int) { ginkgo.AddReportEntry("entry", c.decs(1)...) }
func opAddReportEntry2(c *chain, _ int) { ginkgo.AddReportEntry("entry", 1, 2) }
func opDeferCleanup(c *chain, _ int) { ginkgo.DeferCleanup(c.decs(failing)...) }
func opDeferCleanupLast(c *chain, _ int) { ginkgo.DeferCleanup(append([]any{failingArg}, c.decs("x")...)...) }
func opT_Cleanup(c *chain, _ int) { ginkgo.GinkgoT().Cleanup(failing) }
func opTB_Cleanup(c *chain, _ int) { ginkgo.GinkgoTB().Cleanup(failing) }
func opT_DeferCleanup(c *chain, _ int) { ginkgo.GinkgoT().DeferCleanup(failing) }
func opT_Error(c *chain, _ int) { ginkgo.GinkgoT().Error("failed") }
func opT_Errorf(c *chain, _ int) { ginkgo.GinkgoT().Errorf("%s", "failed") }
func opT_Fail(c *chain, _ int) { ginkgo.GinkgoT().Fail() }
func opT_FailNow(c *chain, _ int) { ginkgo.GinkgoT().FailNow() }
func opT_Fatal(c *chain, _ int) { ginkgo.GinkgoT().Fatal("failed") }
func opT_Fatalf(c *chain, _ int) { ginkgo.GinkgoT().Fatalf("%s", "failed") }
func opT_Skip(c *chain, _ int) { ginkgo.GinkgoT().Skip("x") }
func opT_SkipNow(c *chain, _ int) { ginkgo.GinkgoT().SkipNow() }
func opT_Skipf(c *chain, _ int) { ginkgo.GinkgoT().Skipf("x") }
func opT_k__Error(c *chain, _ int) { ginkgo.GinkgoT(c.Skip + 1).Error("failed") }
func opT_k__Skip(c *chain, _ int) { ginkgo.GinkgoT(c.Skip + 1).Skip("failed") }
func opTB_Error(c *chain, _ int) { ginkgo.GinkgoTB().Error("failed") }
func opTB_Errorf(c *chain, _ int) { ginkgo.GinkgoTB().Errorf("%s", "failed") }
func opTB_Fail(c *chain, _ int) { ginkgo.GinkgoTB().Fail() }
func opTB_FailNow(c *chain, _ int) { ginkgo.GinkgoTB().FailNow() }
func opTB_Fatal(c *chain, _ int) { ginkgo.GinkgoTB().Fatal("failed") }
func opTB_Fatalf(c *chain, _ int) { ginkgo.GinkgoTB().Fatalf("%s", "failed") }
func opTB_Skip(c *chain, _ int) { ginkgo.GinkgoTB().Skip("x") }
func opTB_SkipNow(c *chain, _ int) { ginkgo.GinkgoTB().SkipNow() }
func opTB_Skipf(c *chain, _ int) { ginkgo.GinkgoTB().Skipf("x") }
func opTB_k__Error(c *chain, _ int) { ginkgo.GinkgoTB(c.Skip + 2).Error("failed") }
func opT_AddReportEntryVisibilityAlways(c *chain, _ int) { ginkgo.GinkgoT().AddReportEntryVisibilityAlways("entry") }
func opT_AddReportEntryVisibilityNever(c *chain, _ int) { ginkgo.GinkgoT().AddReportEntryVisibilityNever("entry") }
func opT_AddReportEntryVisibilityFailureOrVerbose(c *chain, _ int) { ginkgo.GinkgoT().AddReportEntryVisibilityFailureOrVerbose("entry", 1) }
func opT_TempDir(c *chain, _ int) { c.t.TempDir() }
func opTB_TempDir(c *chain, _ int) { c.tb.TempDir() }
func opT_Setenv(c *chain, _ int) { c.t.Setenv("VF_LOCATIONS", "1") }
func opTB_Setenv(c *chain, _ int) { c.tb.Setenv("VF_LOCATIONS", "1") }
func opT_Chdir(c *chain, _ int) { c.t.Chdir("/") }
func opTB_Chdir(c *chain, _ int) { c.tb.Chdir("/") }
func opT_Context(c *chain, _ int) { c.t.Context() }
func opTB_Context(c *chain, _ int) { c.tb.Context() }
func opDescribe(c *chain, _ int) { ginkgo.Describe("node", c.decs(oneSpec)...) }
func opFDescribe(c *chain, _ int) { ginkgo.FDescribe("node", c.decs(oneSpec)...) }
func opPDescribe(c *chain, _ int) { ginkgo.PDescribe("node", c.decs(oneSpec)...) }
func opXDescribe(c *chain, _ int) { ginkgo.XDescribe("node", c.decs(oneSpec)...) }
func opContext(c *chain, _ int) { ginkgo.Context("node", c.decs(oneSpec)...) }
func opFContext(c *chain, _ int) { ginkgo.FContext("node", c.decs(oneSpec)...) }
func opPContext(c *chain, _ int) { ginkgo.PContext("node", c.decs(oneSpec)...) }
func opXContext(c *chain, _ int) { ginkgo.XContext("node", c.decs(oneSpec)...) }
func opWhen(c *chain, _ int) { ginkgo.When("node", c.decs(oneSpec)...) }
func opFWhen(c *chain, _ int) { ginkgo.FWhen("node", c.decs(oneSpec)...) }
func opPWhen(c *chain, _ int) { ginkgo.PWhen("node", c.decs(oneSpec)...) }
func opXWhen(c *chain, _ int) { ginkgo.XWhen("node", c.decs(oneSpec)...) }
func opIt(c *chain, _ int) { ginkgo.It("node", c.decs(nothing)...) }
func opFIt(c *chain, _ int) { ginkgo.FIt("node", c.decs(nothing)...) }
func opPIt(c *chain, _ int) { ginkgo.PIt("node", c.decs(nothing)...) }
func opXIt(c *chain, _ int) { ginkgo.XIt("node", c.decs(nothing)...) }
func opSpecify(c *chain, _ int) { ginkgo.Specify("node", c.decs(nothing)...) }
func opFSpecify(c *chain, _ int) { ginkgo.FSpecify("node", c.decs(nothing)...) }
func opPSpecify(c *chain, _ int) { ginkgo.PSpecify("node", c.decs(nothing)...) }
func opXSpecify(c *chain, _ int) { ginkgo.XSpecify("node", c.decs(nothing)...) }
func opBeforeEach(c *chain, _ int) { ginkgo.BeforeEach(c.decs(fail)...) }
func opAfterEach(c *chain, _ int) { ginkgo.AfterEach(c.decs(fail)...) }
func opJustBeforeEach(c *chain, _ int) { ginkgo.JustBeforeEach(c.decs(fail)...) }
func opJustAfterEach(c *chain, _ int) { ginkgo.JustAfterEach(c.decs(fail)...) }
func opBeforeAll(c *chain, _ int) { ginkgo.BeforeAll(c.decs(fail)...) }
func opAfterAll(c *chain, _ int) { ginkgo.AfterAll(c.decs(fail)...) }
func opReportBeforeEach(c *chain, _ int) { ginkgo.ReportBeforeEach(failReport, c.decs()...) }
func opReportAfterEach(c *chain, _ int) { ginkgo.ReportAfterEach(failReport, c.decs()...) }
func opDescribeTable(c *chain, _ int) { ginkgo.DescribeTable("node", c.decs(oneOf("DescribeTable"), ginkgo.Entry("entry"))...) }
func opFDescribeTable(c *chain, _ int) { ginkgo.FDescribeTable("node", c.decs(oneOf("FDescribeTable"), ginkgo.Entry("entry"))...) }
func opPDescribeTable(c *chain, _ int) { ginkgo.PDescribeTable("node", c.decs(oneOf("PDescribeTable"), ginkgo.Entry("entry"))...) }
func opXDescribeTable(c *chain, _ int) { ginkgo.XDescribeTable("node", c.decs(oneOf("XDescribeTable"), ginkgo.Entry("entry"))...) }
func opDescribeTableSubtree(c *chain, _ int) { ginkgo.DescribeTableSubtree("node", c.decs(oneOf("DescribeTableSubtree"), ginkgo.Entry("entry"))...) }
func opFDescribeTableSubtree(c *chain, _ int) { ginkgo.FDescribeTableSubtree("node", c.decs(oneOf("FDescribeTableSubtree"), ginkgo.Entry("entry"))...) }
func opPDescribeTableSubtree(c *chain, _ int) { ginkgo.PDescribeTableSubtree("node", c.decs(oneOf("PDescribeTableSubtree"), ginkgo.Entry("entry"))...) }
func opXDescribeTableSubtree(c *chain, _ int) { ginkgo.XDescribeTableSubtree("node", c.decs(oneOf("XDescribeTableSubtree"), ginkgo.Entry("entry"))...) }
func opEntry(c *chain, _ int) { c.entry = ginkgo.Entry("entry", c.decs()...) }
func opFEntry(c *chain, _ int) { c.entry = ginkgo.FEntry("entry", c.decs()...) }
func opPEntry(c *chain, _ int) { c.entry = ginkgo.PEntry("entry", c.decs()...) }
func opXEntry(c *chain, _ int) { c.entry = ginkgo.XEntry("entry", c.decs()...) }
func opBeforeSuite(c *chain, _ int) { ginkgo.BeforeSuite(nothing, c.decs()...) }
func opAfterSuite(c *chain, _ int) { ginkgo.AfterSuite(nothing, c.decs()...) }
func opSynchronizedBeforeSuite(c *chain, _ int) { ginkgo.SynchronizedBeforeSuite(nothing, nothing, c.decs()...) }
func opSynchronizedAfterSuite(c *chain, _ int) { ginkgo.SynchronizedAfterSuite(nothing, nothing, c.decs()...) }
func opReportBeforeSuite(c *chain, _ int) { ginkgo.ReportBeforeSuite(okReport, c.decs()...) }
func opReportAfterSuite(c *chain, _ int) { ginkgo.ReportAfterSuite("node", okReport, c.decs()...) }

//line /vfuser/base.go:1
func baseIn(c *chain) func() {
	return func() {
		c.links[0](c, 1)
		c.after()
	}
}

func base(c *chain) {
	c.links[0](c, 1)
}

//line tables.go:1
var links = []link{
	{name: "plain", f: plain, frames: func(int) []frame { return []frame{{"/vfuser/plain.go", 2, false, false}} }},
	{name: "plain2", f: plain2, frames: func(int) []frame { return []frame{{"/vfuser/plain2.go", 3, false, false}} }},
	{name: "outer", f: outer, frames: func(int) []frame { return []frame{{"/vfuser/outer.go", 2, false, false}, {"/vfuser/outer.go", 4, false, false}} }},
	{name: "closure", f: closure, frames: func(int) []frame { return []frame{{"/vfuser/closure.go", 4, false, false}, {"/vfuser/closure.go", 3, false, false}} }},
	{name: "method", f: method, frames: func(int) []frame { return []frame{{"/vfuser/method.go", 6, false, false}, {"/vfuser/method.go", 3, false, false}} }},
	{name: "generic", f: genericInt, frames: func(int) []frame { return []frame{{"/vfuser/generic.go", 5, false, false}, {"/vfuser/generic.go", 2, false, false}} }},
	{name: "helper", f: helper, frames: func(int) []frame { return []frame{{"/vfuser/helper.go", 3, true, false}} }},
	{name: "helper2", f: helper2, frames: func(int) []frame { return []frame{{"/vfuser/helper2.go", 4, true, false}} }},
	{name: "helperT", f: helperT, frames: func(int) []frame { return []frame{{"/vfuser/helperT.go", 3, true, false}} }},
	{name: "helperTB", f: helperTB, frames: func(int) []frame { return []frame{{"/vfuser/helperTB.go", 3, true, false}} }},
	{name: "marked", f: marked, frames: func(int) []frame { return []frame{{"/vfuser/marked.go", 3, true, false}} }},
	{name: "markedSelf", f: markedSelf, frames: func(int) []frame { return []frame{{"/vfuser/markedSelf.go", 3, true, false}, {"/vfuser/markedSelf.go", 5, false, false}} }},
	{name: "helperMethod", f: callsHelperMethod, frames: func(int) []frame { return []frame{{"/vfuser/helperMethod.go", 6, false, false}, {"/vfuser/helperMethod.go", 3, true, false}} }},
	{name: "helperGeneric", f: callsHelperGeneric, frames: func(i int) []frame { return []frame{{"/vfuser/helperGeneric.go", 7 + 2*(i%2), false, false}, {"/vfuser/helperGeneric.go", 3, true, false}} }},
	{name: "helperOfClosure", f: helperOfClosure, frames: func(int) []frame { return []frame{{"/vfuser/helperOfClosure.go", 5, true, false}, {"/vfuser/helperOfClosure.go", 4, false, false}} }},
	{name: "closureHelper", f: closureHelper, frames: func(int) []frame { return []frame{{"/vfuser/closureHelper.go", 5, false, false}, {"/vfuser/closureHelper.go", 4, true, false}} }},
	{name: "recursive", f: recursive, frames: func(int) []frame { return []frame{{"/vfuser/recursive.go", 1, false, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 5, true, false}, {"/vfuser/recursive.go", 7, true, false}} }},
	{name: "deep", f: deep, frames: func(int) []frame { return []frame{{"/vfuser/deep.go", 2, false, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 7, true, false}, {"/vfuser/deep.go", 9, true, false}} }},
	{name: "inGo", f: inGo, frames: func(int) []frame { return []frame{{"/vfuser/inGo.go", 6, false, false}} }, goes: 3},
	{name: "inGoT", f: inGoT, frames: func(int) []frame { return []frame{{"/vfuser/inGoT.go", 6, false, false}} }, goes: 3},
	{name: "inGoTB", f: inGoTB, frames: func(int) []frame { return []frame{{"/vfuser/inGoTB.go", 7, false, false}} }, goes: 4},
	{name: "by", f: by, frames: func(int) []frame { return []frame{{"/vfuser/by.go", 2, false, false}, {"", 0, true, true}, {"/vfuser/by.go", 3, false, false}} }, run: true},
	{name: "helperBy", f: helperBy, frames: func(int) []frame { return []frame{{"/vfuser/helperBy.go", 3, true, false}, {"", 0, true, true}, {"/vfuser/helperBy.go", 5, true, false}} }, run: true},
}

var ops = []op{
	{"Fail", "run", opFail, 1},
	{"Skip", "run", opSkip, 2},
	{"AbortSuite", "run", opAbortSuite, 3},
	{"panic", "run", oppanic, 4},
	{"By", "run", opBy, 5},
	{"ByCallback", "run", opByCallback, 6},
	{"AddReportEntry", "run", opAddReportEntry, 7},
	{"AddReportEntry2", "run", opAddReportEntry2, 8},
	{"DeferCleanup", "run", opDeferCleanup, 9},
	{"DeferCleanupLast", "run", opDeferCleanupLast, 10},
	{"T.Cleanup", "run", opT_Cleanup, 11},
	{"TB.Cleanup", "run", opTB_Cleanup, 12},
	{"T.DeferCleanup", "run", opT_DeferCleanup, 13},
	{"T.Error", "run", opT_Error, 14},
	{"T.Errorf", "run", opT_Errorf, 15},
	{"T.Fail", "run", opT_Fail, 16},
	{"T.FailNow", "run", opT_FailNow, 17},
	{"T.Fatal", "run", opT_Fatal, 18},
	{"T.Fatalf", "run", opT_Fatalf, 19},
	{"T.Skip", "run", opT_Skip, 20},
	{"T.SkipNow", "run", opT_SkipNow, 21},
	{"T.Skipf", "run", opT_Skipf, 22},
	{"T(k).Error", "run", opT_k__Error, 23},
	{"T(k).Skip", "run", opT_k__Skip, 24},
	{"TB.Error", "run", opTB_Error, 25},
	{"TB.Errorf", "run", opTB_Errorf, 26},
	{"TB.Fail", "run", opTB_Fail, 27},
	{"TB.FailNow", "run", opTB_FailNow, 28},
	{"TB.Fatal", "run", opTB_Fatal, 29},
	{"TB.Fatalf", "run", opTB_Fatalf, 30},
	{"TB.Skip", "run", opTB_Skip, 31},
	{"TB.SkipNow", "run", opTB_SkipNow, 32},
	{"TB.Skipf", "run", opTB_Skipf, 33},
	{"TB(k).Error", "run", opTB_k__Error, 34},
	{"T.AddReportEntryVisibilityAlways", "run", opT_AddReportEntryVisibilityAlways, 35},
	{"T.AddReportEntryVisibilityNever", "run", opT_AddReportEntryVisibilityNever, 36},
	{"T.AddReportEntryVisibilityFailureOrVerbose", "run", opT_AddReportEntryVisibilityFailureOrVerbose, 37},
	{"T.TempDir", "run", opT_TempDir, 38},
	{"TB.TempDir", "run", opTB_TempDir, 39},
	{"T.Setenv", "run", opT_Setenv, 40},
	{"TB.Setenv", "run", opTB_Setenv, 41},
	{"T.Chdir", "run", opT_Chdir, 42},
	{"TB.Chdir", "run", opTB_Chdir, 43},
	{"T.Context", "run", opT_Context, 44},
	{"TB.Context", "run", opTB_Context, 45},
	{"Describe", "container", opDescribe, 46},
	{"FDescribe", "container", opFDescribe, 47},
	{"PDescribe", "container", opPDescribe, 48},
	{"XDescribe", "container", opXDescribe, 49},
	{"Context", "container", opContext, 50},
	{"FContext", "container", opFContext, 51},
	{"PContext", "container", opPContext, 52},
	{"XContext", "container", opXContext, 53},
	{"When", "container", opWhen, 54},
	{"FWhen", "container", opFWhen, 55},
	{"PWhen", "container", opPWhen, 56},
	{"XWhen", "container", opXWhen, 57},
	{"It", "it", opIt, 58},
	{"FIt", "it", opFIt, 59},
	{"PIt", "it", opPIt, 60},
	{"XIt", "it", opXIt, 61},
	{"Specify", "it", opSpecify, 62},
	{"FSpecify", "it", opFSpecify, 63},
	{"PSpecify", "it", opPSpecify, 64},
	{"XSpecify", "it", opXSpecify, 65},
	{"BeforeEach", "setup", opBeforeEach, 66},
	{"AfterEach", "setup", opAfterEach, 67},
	{"JustBeforeEach", "setup", opJustBeforeEach, 68},
	{"JustAfterEach", "setup", opJustAfterEach, 69},
	{"BeforeAll", "setup", opBeforeAll, 70},
	{"AfterAll", "setup", opAfterAll, 71},
	{"ReportBeforeEach", "setup", opReportBeforeEach, 72},
	{"ReportAfterEach", "setup", opReportAfterEach, 73},
	{"DescribeTable", "table", opDescribeTable, 74},
	{"FDescribeTable", "table", opFDescribeTable, 75},
	{"PDescribeTable", "table", opPDescribeTable, 76},
	{"XDescribeTable", "table", opXDescribeTable, 77},
	{"DescribeTableSubtree", "table", opDescribeTableSubtree, 78},
	{"FDescribeTableSubtree", "table", opFDescribeTableSubtree, 79},
	{"PDescribeTableSubtree", "table", opPDescribeTableSubtree, 80},
	{"XDescribeTableSubtree", "table", opXDescribeTableSubtree, 81},
	{"Entry", "entry", opEntry, 82},
	{"FEntry", "entry", opFEntry, 83},
	{"PEntry", "entry", opPEntry, 84},
	{"XEntry", "entry", opXEntry, 85},
	{"BeforeSuite", "suite", opBeforeSuite, 86},
	{"AfterSuite", "suite", opAfterSuite, 87},
	{"SynchronizedBeforeSuite", "suite", opSynchronizedBeforeSuite, 88},
	{"SynchronizedAfterSuite", "suite", opSynchronizedAfterSuite, 89},
	{"ReportBeforeSuite", "suite", opReportBeforeSuite, 90},
	{"ReportAfterSuite", "suite", opReportAfterSuite, 91},
}
