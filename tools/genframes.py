# links: name, code lines, frames outermost first: (line index, helper), flags
links = [
 ("plain", ["func plain(c *chain, i int) {", "	c.links[i](c, i+1)", "}"], [(2,0)]),
 ("plain2", ["func plain2(c *chain, i int) {", "	if i > 0 {", "		c.links[i](c, i+1)", "	}", "}"], [(3,0)]),
 ("outer", ["func outer(c *chain, i int) {", "	inlined(c, i)", "}", "func inlined(c *chain, i int) { c.links[i](c, i+1) }"], [(2,0),(4,0)]),
 ("closure", ["func closure(c *chain, i int) {", "	func() {", "		c.links[i](c, i+1)", "	}()", "}"], [(4,0),(3,0)]),
 ("method", ["type obj struct{ x int }", "func (o *obj) method(c *chain, i int) {", "	c.links[i](c, i+1)", "}", "func method(c *chain, i int) {","	(&obj{}).method(c, i)","}"], [(6,0),(3,0)]),
 ("generic", ["func generic[T any](c *chain, i int, _ T) {", "	c.links[i](c, i+1)", "}", "func genericInt(c *chain, i int) {","	generic(c, i, 1)","}"], [(5,0),(2,0)]),
 ("helper", ["func helper(c *chain, i int) {", "	ginkgo.GinkgoHelper()", "	c.links[i](c, i+1)", "}"], [(3,1)]),
 ("helper2", ["func helper2(c *chain, i int) {", "	c.x++", "	ginkgo.GinkgoHelper()", "	c.links[i](c, i+1)", "}"], [(4,1)]),
 ("helperT", ["func helperT(c *chain, i int) {", "	ginkgo.GinkgoT().Helper()", "	c.links[i](c, i+1)", "}"], [(3,1)]),
 ("helperTB", ["func helperTB(c *chain, i int) {", "	ginkgo.GinkgoTB().Helper()", "	c.links[i](c, i+1)", "}"], [(3,1)]),
 ("marked", ["func marked(c *chain, i int) {", "	markCaller()", "	c.links[i](c, i+1)", "}", "func markCaller() { types.MarkAsHelper(1) }"], [(3,1)]),
 ("markedSelf", ["func markedSelf(c *chain, i int) {", "	types.MarkAsHelper()", "	plainIn(c, i)", "}", "func plainIn(c *chain, i int) { c.links[i](c, i+1) }"], [(3,1),(5,0)]),
 ("helperMethod", ["func (o obj) helperMethod(c *chain, i int) {", "	ginkgo.GinkgoHelper()", "	c.links[i](c, i+1)", "}", "func callsHelperMethod(c *chain, i int) {","	obj{}.helperMethod(c, i)","}"], [(6,0),(3,1)]),
 ("helperGeneric", ["func helperGeneric[T any](c *chain, i int, _ T) {", "	ginkgo.GinkgoHelper()", "	c.links[i](c, i+1)", "}", "func callsHelperGeneric(c *chain, i int) {","	if i%2 == 0 {","		helperGeneric(c, i, \"\")","	} else {","		helperGeneric(c, i, 1)","	}","}"], None),
 ("helperOfClosure", ["func helperOfClosure(c *chain, i int) {", "	ginkgo.GinkgoHelper()", "	func() {", "		c.links[i](c, i+1)", "	}()", "}"], [(5,1),(4,0)]),
 ("closureHelper", ["func closureHelper(c *chain, i int) {", "	func() {", "		ginkgo.GinkgoHelper()", "		c.links[i](c, i+1)", "	}()", "}"], [(5,0),(4,1)]),
 ("recursive", ["func recursive(c *chain, i int) { recurse(c, i, 12) }", "func recurse(c *chain, i, n int) {", "	ginkgo.GinkgoHelper()", "	if n > 0 {", "		recurse(c, i, n-1)", "	} else {", "		c.links[i](c, i+1)", "	}", "}"], [(1,0)]+[(5,1)]*12+[(7,1)]),
 ("deep", ["func deep(c *chain, i int) {", "	dive(c, i, 60)", "}", "func dive(c *chain, i, n int) {", "	ginkgo.GinkgoHelper()", "	if n > 0 {", "		dive(c, i, n-1)", "	} else {", "		c.links[i](c, i+1)", "	}", "}"], [(2,0)]+[(7,1)]*60+[(9,1)]),
 ("inGo", ["func inGo(c *chain, i int) {", "	done := make(chan bool)", "	go func() {", "		defer close(done)", "		defer ginkgo.GinkgoRecover()", "		c.links[i](c, i+1)", "	}()", "	<-done", "}"], [(6,0)]),
 ("inGoT", ["func inGoT(c *chain, i int) {", "	done := make(chan bool)", "	go func() {", "		defer close(done)", "		defer ginkgo.GinkgoT().GinkgoRecover()", "		c.links[i](c, i+1)", "	}()", "	<-done", "}"], [(6,0)]),
 ("inGoTB", ["func inGoTB(c *chain, i int) {", "	t := ginkgo.GinkgoTB()", "	done := make(chan bool)", "	go func() {", "		defer close(done)", "		defer t.GinkgoT.GinkgoRecover()", "		c.links[i](c, i+1)", "	}()", "	<-done", "}"], [(7,0)]),
 ("by", ["func by(c *chain, i int) {", "	ginkgo.By(\"step\", func() {", "		c.links[i](c, i+1)", "	})", "}"], [(2,0),"G",(3,0)]),
 ("helperBy", ["func helperBy(c *chain, i int) {", "	ginkgo.GinkgoHelper()", "	ginkgo.By(\"step\", func() {", "		ginkgo.GinkgoHelper()", "		c.links[i](c, i+1)", "	})", "}"], [(3,1),"G",(5,1)]),
]
# ops: name, statement
run = [
 ("Fail", 'ginkgo.Fail("failed", c.skips()...)'), ("Skip", 'ginkgo.Skip("skipped", c.skips()...)'), ("AbortSuite", 'ginkgo.AbortSuite("aborted", c.skips()...)'),
 ("panic", 'panic("on purpose")'),
 ("By", 'ginkgo.By("look here")'), ("ByCallback", 'ginkgo.By("look here", func() {})'),
 ("AddReportEntry", 'ginkgo.AddReportEntry("entry", c.decs(1)...)'), ("AddReportEntry2", 'ginkgo.AddReportEntry("entry", 1, 2)'),
 ("DeferCleanup", 'ginkgo.DeferCleanup(c.decs(failing)...)'), ("DeferCleanupLast", 'ginkgo.DeferCleanup(append([]any{failingArg}, c.decs("x")...)...)'),
 ("T.Cleanup", 'ginkgo.GinkgoT().Cleanup(failing)'), ("TB.Cleanup", 'ginkgo.GinkgoTB().Cleanup(failing)'),
 ("T.DeferCleanup", 'ginkgo.GinkgoT().DeferCleanup(failing)'),
 ("T.Error", 'ginkgo.GinkgoT().Error("failed")'), ("T.Errorf", 'ginkgo.GinkgoT().Errorf("%s", "failed")'), ("T.Fail", 'ginkgo.GinkgoT().Fail()'), ("T.FailNow", 'ginkgo.GinkgoT().FailNow()'),
 ("T.Fatal", 'ginkgo.GinkgoT().Fatal("failed")'), ("T.Fatalf", 'ginkgo.GinkgoT().Fatalf("%s", "failed")'), ("T.Skip", 'ginkgo.GinkgoT().Skip("x")'), ("T.SkipNow", 'ginkgo.GinkgoT().SkipNow()'), ("T.Skipf", 'ginkgo.GinkgoT().Skipf("x")'),
 ("T(k).Error", 'ginkgo.GinkgoT(c.Skip + 1).Error("failed")'), ("T(k).Skip", 'ginkgo.GinkgoT(c.Skip + 1).Skip("failed")'),
 ("TB.Error", 'ginkgo.GinkgoTB().Error("failed")'), ("TB.Errorf", 'ginkgo.GinkgoTB().Errorf("%s", "failed")'), ("TB.Fail", 'ginkgo.GinkgoTB().Fail()'), ("TB.FailNow", 'ginkgo.GinkgoTB().FailNow()'),
 ("TB.Fatal", 'ginkgo.GinkgoTB().Fatal("failed")'), ("TB.Fatalf", 'ginkgo.GinkgoTB().Fatalf("%s", "failed")'), ("TB.Skip", 'ginkgo.GinkgoTB().Skip("x")'), ("TB.SkipNow", 'ginkgo.GinkgoTB().SkipNow()'), ("TB.Skipf", 'ginkgo.GinkgoTB().Skipf("x")'),
 ("TB(k).Error", 'ginkgo.GinkgoTB(c.Skip + 2).Error("failed")'),
 ("T.AddReportEntryVisibilityAlways", 'ginkgo.GinkgoT().AddReportEntryVisibilityAlways("entry")'), ("T.AddReportEntryVisibilityNever", 'ginkgo.GinkgoT().AddReportEntryVisibilityNever("entry")'), ("T.AddReportEntryVisibilityFailureOrVerbose", 'ginkgo.GinkgoT().AddReportEntryVisibilityFailureOrVerbose("entry", 1)'),
 ("T.TempDir", 'c.t.TempDir()'), ("TB.TempDir", 'c.tb.TempDir()'), ("T.Setenv", 'c.t.Setenv("VF_LOCATIONS", "1")'), ("TB.Setenv", 'c.tb.Setenv("VF_LOCATIONS", "1")'),
 ("T.Chdir", 'c.t.Chdir("/")'), ("TB.Chdir", 'c.tb.Chdir("/")'), ("T.Context", 'c.t.Context()'), ("TB.Context", 'c.tb.Context()'),
]
cont = ["Describe","FDescribe","PDescribe","XDescribe","Context","FContext","PContext","XContext","When","FWhen","PWhen","XWhen"]
its = ["It","FIt","PIt","XIt","Specify","FSpecify","PSpecify","XSpecify"]
tables = ["DescribeTable","FDescribeTable","PDescribeTable","XDescribeTable","DescribeTableSubtree","FDescribeTableSubtree","PDescribeTableSubtree","XDescribeTableSubtree"]
entries = ["Entry","FEntry","PEntry","XEntry"]
setups = ["BeforeEach","AfterEach","JustBeforeEach","JustAfterEach","BeforeAll","AfterAll"]
tree = []
for x in cont: tree.append((x,'container', f'ginkgo.{x}("node", c.decs(oneSpec)...)'))
for x in its: tree.append((x,'it', f'ginkgo.{x}("node", c.decs(nothing)...)'))
for x in setups: tree.append((x,'setup', f'ginkgo.{x}(c.decs(fail)...)'))
for x in ["ReportBeforeEach","ReportAfterEach"]: tree.append((x,'setup', f'ginkgo.{x}(failReport, c.decs()...)'))
for x in tables: tree.append((x,'table', f'ginkgo.{x}("node", c.decs(oneOf("{x}"), ginkgo.Entry("entry"))...)'))
for x in entries:
  tree.append((x,'entry', f'c.entry = ginkgo.{x}("entry", c.decs()...)'))
suite = []
for x in ["BeforeSuite","AfterSuite"]: suite.append((x,'suite', f'ginkgo.{x}(nothing, c.decs()...)'))
for x in ["SynchronizedBeforeSuite","SynchronizedAfterSuite"]: suite.append((x,'suite', f'ginkgo.{x}(nothing, nothing, c.decs()...)'))
for x in ["ReportBeforeSuite"]: suite.append((x,'suite', f'ginkgo.{x}(okReport, c.decs()...)'))
for x in ["ReportAfterSuite"]: suite.append((x,'suite', f'ginkgo.{x}("node", okReport, c.decs()...)'))

out = ["// Code made by hand-written tables: the functions of which chains of calls are made. Every one is in a file of its own, as far as the compiler knows.", "package locations", "", "import (", '	ginkgo "github.com/onsi/ginkgo/v2"', '	"github.com/onsi/ginkgo/v2/types"', ")", ""]
tab = ["var links = []link{"]
for name, code, frames in links:
    out.append(f"//line /vfuser/{name}.go:1")
    out += code
    out.append("")
    import re
    fn = {"method":"method","generic":"genericInt","helperMethod":"callsHelperMethod","helperGeneric":"callsHelperGeneric"}.get(name,name)
    if frames is None:
        tab.append('	{name: "%s", f: %s, frames: func(i int) []frame { return []frame{{"/vfuser/%s.go", 7 + 2*(i%%2), false, false}, {"/vfuser/%s.go", 3, true, false}} }},' % (name, fn, name, name))
        continue
    fs = []
    for f in frames:
        fs.append('{"", 0, true, true}' if f == "G" else '{"/vfuser/%s.go", %d, %s, false}' % (name, f[0], "true" if f[1] else "false"))
    extra = ", goes: %d" % (4 if name == "inGoTB" else 3) if name.startswith("inGo") else ""
    runonly = ", run: true" if "y" in name and "By" in name or name == "by" else ""
    tab.append('	{name: "%s", f: %s, frames: func(int) []frame { return []frame{%s} }%s%s},' % (name, fn, ", ".join(fs), extra, runonly))
tab.append("}")
n = 0
ops = ["var ops = []op{"]
out.append("//line /vfuser/ops.go:1")
def fnname(n): return "op" + re.sub(r"\W","_",n)
for name, stmt in run:
    n += 1
    out.append("func %s(c *chain, _ int) { %s }" % (fnname(name), stmt))
    ops.append('	{"%s", "run", %s, %d},' % (name, fnname(name), n))
for name, kind, stmt in tree+suite:
    n += 1
    out.append("func %s(c *chain, _ int) { %s }" % (fnname(name), stmt))
    ops.append('	{"%s", "%s", %s, %d},' % (name, kind, fnname(name), n))
ops.append("}")
out += ["", "//line /vfuser/base.go:1", "func baseIn(c *chain) func() {", "	return func() {", "		c.links[0](c, 1)", "		c.after()", "	}", "}", "", "func base(c *chain) {", "	c.links[0](c, 1)", "}", "", "//line tables.go:1"]
open("frames_test.go","w").write("\n".join(out+tab+[""]+ops)+"\n")
