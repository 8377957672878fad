package dsl

import (
	"context"
	"io"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/verifx/prog"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// recorder keeps the reports of a run.
type recorder struct {
	reporters.NoopReporter
	specs  []types.SpecReport
	report types.Report
}

func (r *recorder) DidRun(s types.SpecReport)    { r.specs = append(r.specs, s) }
func (r *recorder) SuiteDidEnd(rep types.Report) { r.report = rep }

func config() types.SuiteConfig {
	return types.SuiteConfig{RandomSeed: 1, ParallelProcess: 1, ParallelTotal: 1, Timeout: time.Hour, GracePeriod: time.Minute}
}

// with makes a suite the one that the DSL builds.
func with(suite *internal.Suite, failer *internal.Failer, f func()) {
	oldSuite, oldFailer := global.Suite, global.Failer
	global.Suite, global.Failer = suite, failer
	defer func() { global.Suite, global.Failer = oldSuite, oldFailer }()
	f()
}

// run runs a suite whose tree is built.
func run(suite *internal.Suite, failer *internal.Failer, conf types.SuiteConfig) (*recorder, bool, bool) {
	r := &recorder{}
	w := internal.NewWriter(io.Discard)
	w.SetMode(internal.WriterModeBufferOnly)
	ok, focus := suite.Run("suite", nil, "/suite", failer, r, w, prog.NewFakeOI(), prog.NewInterrupter(), nil, func(func()) context.CancelFunc { return func() {} }, conf)
	return r, ok, focus
}
