package internal

import (
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// Distributing specs over processes runs each spec exactly once, keeps ordered containers together and in order, and
// runs serial specs on process 1 after every other process has exited.
//
//verif:use internal/parallel_support/zz_verif_server.go internal/zz_verif_par.go
//verif:quick 200s
//verif:thorough 600s
//verif:synctest
//verif:bounds 2 (thorough: 3) processes sharing the real server handler through the real client; two plain specs, an ordered container of two specs and a serial spec (each of the last two optional; the ordered container may be serial), under every order in which the processes start, reach their specs and exit, every shuffle, and every pass/fail of one spec
//verif:reach split serial serialcontainer failed alone
func VerifC15_Distribution() {
	p := vzNewPar(2 + vf.Tier())
	ordered := vf.Bool("ordered container")
	serialC := ordered && vf.Bool("serial container")
	serial := !serialC && vf.Bool("serial spec")
	failing := []string{"", "i1", "o1", "s1"}[vf.Pick("failing", 4)]
	vf.Assume(failing != "o1" || ordered)
	vf.Assume(failing != "s1" || serial)
	all := vf.Bool("randomizeAll")
	names := []string{"i1", "i2"}
	if ordered {
		names = append(names, "o1", "o2")
	}
	if serial {
		names = append(names, "s1")
	}
	aliveDuring := map[string]bool{}
	p.run(func(k int, w *vzWorld) {
		w.conf.RandomizeAllSpecs = all
		body := func(name string) func() {
			return func() {
				p.gate(k, name)
				p.hit(k, name)
				for j := 2; j <= p.total; j++ {
					aliveDuring[name] = aliveDuring[name] || p.alive[j]
				}
				if name == failing {
					w.conclude(name, vzFail)
				}
			}
		}
		w.add(types.NodeTypeContainer, "D", func() {
			w.add(types.NodeTypeIt, "i1", body("i1"))
			w.add(types.NodeTypeIt, "i2", body("i2"))
		})
		if ordered {
			args := []any{Ordered}
			if serialC {
				args = append(args, Serial)
			}
			w.add(types.NodeTypeContainer, "O", append(args, func() {
				w.add(types.NodeTypeIt, "o1", body("o1"))
				w.add(types.NodeTypeIt, "o2", body("o2"))
			})...)
		}
		if serial {
			w.add(types.NodeTypeIt, "s1", Serial, body("s1"))
		}
	})
	procs := map[string]int{}
	pos := map[string]int{}
	used := map[int]bool{}
	for i, h := range p.hits {
		vf.Assert(procs[h.name] == 0, "no spec runs on two processes, or twice")
		procs[h.name] = h.proc
		pos[h.name] = i
		used[h.proc] = true
	}
	if len(used) > 1 {
		vf.Reach("split")
	} else {
		vf.Reach("alone")
	}
	anyBad := false
	for _, name := range names {
		if name == "o2" && failing == "o1" {
			vf.Assert(procs["o2"] == 0, "a failure in an ordered container skips the rest of it")
			continue
		}
		vf.Assert(procs[name] != 0, "every spec runs on some process")
		anyBad = anyBad || name == failing
	}
	if ordered && failing != "o1" {
		vf.Assert(procs["o1"] == procs["o2"] && pos["o1"] < pos["o2"], "an ordered container stays on one process and in order")
	}
	for _, name := range names {
		if name == "s1" || serialC && strings.HasPrefix(name, "o") && procs[name] != 0 {
			vf.Assert(procs[name] == 1, "serial specs run on process 1")
			vf.Assert(!aliveDuring[name], "serial specs run after every other process has finished")
			if name == "s1" {
				vf.Reach("serial")
			} else {
				vf.Reach("serialcontainer")
			}
		}
	}
	// reports
	seen := map[string]int{}
	for _, r := range p.server.did {
		seen[r.LeafNodeText]++
		vf.Assert(procs[r.LeafNodeText] == r.ParallelProcess || procs[r.LeafNodeText] == 0, "a spec's report names the process that ran it")
		want := types.SpecState(types.SpecStatePassed)
		if r.LeafNodeText == failing {
			want = types.SpecStateFailed
			vf.Reach("failed")
		} else if r.LeafNodeText == "o2" && failing == "o1" {
			want = types.SpecStateSkipped
		}
		vf.Assert(r.State == want, "the server receives the state each spec ended in")
	}
	vf.Assert(len(p.server.did) == len(names), "the server receives one report for each spec")
	for _, name := range names {
		vf.Assert(seen[name] == 1, "the server receives the report of every spec exactly once")
	}
	vf.Assert(len(p.server.begin) == 1 && len(p.server.end) == 1, "the server announces the beginning and the end of the suite once")
	vf.Assert(p.server.order[0] == "begin" && p.server.order[len(p.server.order)-1] == "end", "the server's reports lie between the beginning and the end of the suite")
	agg := p.server.end[0]
	vf.Assert(len(agg.SpecReports) == len(names), "the aggregated report has every spec once")
	cnt := map[string]int{}
	for _, r := range agg.SpecReports {
		cnt[r.LeafNodeText]++
	}
	for _, name := range names {
		vf.Assert(cnt[name] == 1, "the aggregated report has every spec once")
	}
	vf.Assert(agg.SuiteSucceeded == !anyBad, "the aggregated report succeeds exactly when every process did")
}
