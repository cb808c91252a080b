package parallel_support

import (
	"strconv"
	"sync"
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// What process 1 hands over before it exits reaches everybody who waits for it, whenever they ask; who waits for a
// process that exited without handing anything over is told so; and nobody is told before it is so.
//
//verif:use internal/parallel_support/zz_verif_server.go internal/parallel_support/zz_verif_c15.go
//verif:quick 120s
//verif:thorough 300s
//verif:synctest
//verif:bounds the real server handler and 2 real clients (thorough: 3); process 1 hands over the state and data of the setup or of ReportBeforeSuite (or nothing) and exits, while the others wait for it and exit, and process 1 waits for them or for their reports; up to 5 preemptions (3 with 3 processes) at synchronisation operations
//verif:reach setup report gone waits reports lost
func VerifC16_Handover() {
	n := 2 + vf.Tier()
	h := VzHandler(n, &vzLog{})
	vf.RPC = func(addr, method string, args, reply any) error { return vf.Dispatch(h, method, args, reply) }
	POLLING_INTERVAL = time.Second
	clients := []Client{nil}
	alive := make([]bool, n+1)
	var mu sync.Mutex
	for k := 1; k <= n; k++ {
		clients = append(clients, VzClient(h, strconv.Itoa(k)))
		alive[k] = true
		VzRegisterAlive(h, k, func() bool {
			mu.Lock()
			defer mu.Unlock()
			return alive[k]
		})
	}
	exit := func(k int) {
		mu.Lock()
		alive[k] = false
		mu.Unlock()
	}
	what := vf.Pick("what", 5)
	posts := what >= 2 || vf.Bool("posts")
	state := []types.SpecState{types.SpecStatePassed, types.SpecStateFailed, types.SpecStateSkipped}[vf.Pick("state", 3)]
	lost := what == 4 && vf.Bool("lost")
	vf.Races(true)
	vf.Schedules(2, 5-2*vf.Tier())
	var wg sync.WaitGroup
	for k := 1; k <= n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := clients[k]
			switch {
			case what == 0 && k == 1:
				if posts {
					c.PostSynchronizedBeforeSuiteCompleted(state, []byte("data"))
				}
				exit(1)
			case what == 1 && k == 1:
				if posts {
					c.PostReportBeforeSuiteCompleted(state)
				}
				exit(1)
			case what == 0:
				s, data, err := c.BlockUntilSynchronizedBeforeSuiteData()
				if posts {
					vf.Assert(err == nil && s == state && string(data) == "data", "who waits for the setup gets what process 1 handed over")
					vf.Reach("setup")
				} else {
					vf.Assert(err != nil && s == types.SpecStateInvalid, "who waits for the setup is told when process 1 has gone")
					vf.Reach("gone")
				}
			case what == 1:
				s, err := c.BlockUntilReportBeforeSuiteCompleted()
				if posts {
					vf.Assert(err == nil && s == state, "who waits for ReportBeforeSuite gets what process 1 handed over")
					vf.Reach("report")
				} else {
					vf.Assert(err == nil && s == types.SpecStateFailed, "who waits for ReportBeforeSuite is told when process 1 has gone")
				}
			case k != 1:
				if !(lost && k == n) {
					c.PostSuiteDidEnd(types.Report{SpecReports: types.SpecReports{{LeafNodeText: strconv.Itoa(k)}}, SuiteSucceeded: state == types.SpecStatePassed})
				}
				exit(k)
			case what == 4:
				r, err := c.BlockUntilAggregatedNonprimaryProcsReport()
				mu.Lock()
				for j := 2; j <= n; j++ {
					vf.Assert(!alive[j], "process 1 waits until every other process has finished")
				}
				mu.Unlock()
				if lost {
					vf.Assert(err != nil, "process 1 is told when a process exited without a report")
					vf.Reach("lost")
				} else {
					vf.Assert(err == nil && len(r.SpecReports) == n-1 && r.SuiteSucceeded == (state == types.SpecStatePassed), "process 1 gets the reports of all other processes")
					vf.Reach("reports")
				}
			default:
				err := c.BlockUntilNonprimaryProcsHaveFinished()
				mu.Lock()
				for j := 2; j <= n; j++ {
					vf.Assert(err == nil && !alive[j], "process 1 waits until every other process has finished")
				}
				mu.Unlock()
				vf.Reach("waits")
			}
		}()
	}
	wg.Wait()
	vf.Schedules(0, 0)
	vf.Assert(vf.RaceCount() == 0, "the server is free of data races")
}
