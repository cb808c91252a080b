package ginkgo

import (
	"context"
	"io"
	"os"

	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// vzReporter records what the suite reports.
type vzReporter struct {
	reporters.NoopReporter
	did []types.SpecReport
	end []types.Report
}

func (r *vzReporter) DidRun(report types.SpecReport)  { r.did = append(r.did, report) }
func (r *vzReporter) SuiteDidEnd(report types.Report) { r.end = append(r.end, report) }

type vzInterrupts struct{ c chan any }

func (i *vzInterrupts) Status() interrupt_handler.InterruptStatus {
	return interrupt_handler.InterruptStatus{Channel: i.c}
}

// vzRunGlobal builds and runs what the DSL declared.
func vzRunGlobal(conf types.SuiteConfig) (*vzReporter, bool, bool) {
	err := global.Suite.BuildTree()
	vf.Assert(err == nil, "a valid tree is built")
	rep := &vzReporter{}
	w := internal.NewWriter(io.Discard)
	w.SetMode(internal.WriterModeBufferOnly)
	ok, focus := global.Suite.Run("suite", nil, "/suite", global.Failer, rep, w, internal.NoopOutputInterceptor{}, &vzInterrupts{make(chan any)}, nil, func(func()) context.CancelFunc { return func() {} }, conf)
	return rep, ok, focus
}

func vzFresh() {
	global.InitializeGlobals()
	suiteDidRun = false
	suiteConfig, reporterConfig = types.NewDefaultSuiteConfig(), types.NewDefaultReporterConfig()
	suiteConfig.RandomSeed = 1
	deprecationTracker = types.NewDeprecationTracker()
	GinkgoWriter = internal.NewWriter(os.Stdout)
}
