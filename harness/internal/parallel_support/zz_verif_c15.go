package parallel_support

import (
	"strconv"
	"sync"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

type vzLog struct {
	reporters.NoopReporter
	mu    sync.Mutex
	order []string
	end   types.Report
}

func (l *vzLog) note(s string) {
	l.mu.Lock()
	l.order = append(l.order, s)
	l.mu.Unlock()
}
func (l *vzLog) SuiteWillBegin(r types.Report) { l.note("begin") }
func (l *vzLog) WillRun(r types.SpecReport)    { l.note("will " + r.LeafNodeText) }
func (l *vzLog) DidRun(r types.SpecReport)     { l.note("did " + r.LeafNodeText) }
func (l *vzLog) SuiteDidEnd(r types.Report)    { l.note("end"); l.end = r }

// However the requests of the processes interleave in the server, each group of specs is handed out once, each spec is
// announced once between the beginning and the end of the suite, and the aggregated report has everything.
//
//verif:use internal/parallel_support/zz_verif_server.go
//verif:quick 120s
//verif:thorough 300s
//verif:bounds the real server handler called by 2 processes at once (thorough: 3), each of which begins, fetches the counter and reports one spec, fetches it once more, and ends, successfully or not, or of which one just begins and ends; up to 4 preemptions (3 with 3 processes) at synchronisation operations
//verif:reach done failed idle
func VerifC15_Server() {
	n := 2 + vf.Tier()
	log := &vzLog{}
	h := VzHandler(n, log)
	vf.RPC = func(addr, method string, args, reply any) error { return vf.Dispatch(h, method, args, reply) }
	failing := vf.Pick("failing", n+1)
	idle := vf.Pick("process without specs", n+1)
	busy := n
	clients := []Client{}
	for k := 1; k <= n; k++ {
		clients = append(clients, VzClient(h, strconv.Itoa(k)))
	}
	got := make([][]int, n+1)
	errs := 0
	vf.Races(true)
	preempt := 4 - vf.Tier()
	if idle > 0 {
		busy--
		preempt -= 2
		vf.Reach("idle")
	}
	vf.Schedules(2, preempt)
	var wg sync.WaitGroup
	for k := 1; k <= n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := clients[k-1]
			ok := func(err error) {
				if err != nil {
					errs++
				}
			}
			ok(c.PostSuiteWillBegin(types.Report{}))
			if k == idle {
				report := types.Report{SuiteSucceeded: k != failing}
				if k == failing {
					report.SpecialSuiteFailureReasons = []string{"reason"}
				}
				ok(c.PostSuiteDidEnd(report))
				return
			}
			i, err := c.FetchNextCounter()
			ok(err)
			r := types.SpecReport{LeafNodeText: strconv.Itoa(i), State: types.SpecStatePassed}
			ok(c.PostDidRun(r))
			j, err := c.FetchNextCounter()
			ok(err)
			ok(c.PostSuiteDidEnd(types.Report{SpecReports: types.SpecReports{r}, SuiteSucceeded: k != failing}))
			got[k] = []int{i, j}
		}()
	}
	wg.Wait()
	vf.Schedules(0, 0)
	vf.Assert(errs == 0, "no request fails")
	seen := make([]int, 2*n)
	for k := 1; k <= n; k++ {
		if k == idle {
			continue
		}
		vf.Assert(len(got[k]) == 2 && got[k][0] < got[k][1], "a process receives increasing indices")
		for _, i := range got[k] {
			vf.Assert(i >= 0 && i < 2*busy, "indices are handed out without gaps")
			seen[i]++
			vf.Assert(seen[i] == 1, "no index is handed out twice")
		}
	}
	vf.Assert(len(log.order) == 2+2*busy, "everything is announced once")
	vf.Assert(log.order[0] == "begin" && log.order[len(log.order)-1] == "end", "everything is announced between the beginning and the end of the suite")
	announced := map[string]int{}
	for i := 1; i+2 < len(log.order); i += 2 {
		vf.Assert(log.order[i][:5] == "will " && log.order[i+1] == "did "+log.order[i][5:], "each spec is announced and completed in one go")
		announced[log.order[i]]++
	}
	for k := 1; k <= n; k++ {
		if k == idle {
			continue
		}
		vf.Assert(announced["will "+strconv.Itoa(got[k][0])] == 1, "each spec is announced once")
	}
	vf.Assert(len(log.end.SpecialSuiteFailureReasons) > 0 == (idle > 0 && idle == failing), "the aggregated report has every process's reasons")
	vf.Assert(len(log.end.SpecReports) == busy, "the aggregated report has every spec")
	vf.Assert(log.end.SuiteSucceeded == (failing == 0), "the run succeeds exactly when every process did")
	vf.Assert(VzDone(h), "the server is done when every process has ended")
	vf.Assert(vf.RaceCount() == 0, "the server is free of data races")
	if failing == 0 {
		vf.Reach("done")
	} else {
		vf.Reach("failed")
	}
}
