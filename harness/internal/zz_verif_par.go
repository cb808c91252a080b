package internal

import (
	"context"
	"fmt"
	"time"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// vzPar is several processes of one parallel run in one world: each has its own suite, reporter and real client; the
// server's real handler is shared. Everything a process does between two gates happens at once; which process goes on
// at a gate is chosen by the harness.
type vzPar struct {
	total   int
	server  *vzReporter
	handler *parallel_support.ServerHandler
	worlds  []*vzWorld // per process, from 1
	clients []parallel_support.Client
	real    []*interrupt_handler.InterruptHandler
	alive   []bool
	crashed []bool
	gates   []chan bool // the gate at which a process waits
	where   []string
	hits    []vzHit
	order   int // how many orderings were chosen
	stuck   bool
	crash   int // how many processes may still crash
	aborts  bool

	crashedAt   string
	crashedProc int
}

type vzHit struct {
	name string
	proc int
	spec string
	out  int
}

const vzStep = 20 * time.Second

func vzNewPar(total int) *vzPar {
	p := &vzPar{total: total, server: &vzReporter{}}
	parallel_support.POLLING_INTERVAL = 1037 * time.Millisecond // never together with a step
	interrupt_handler.ABORT_POLLING_INTERVAL = time.Second
	p.handler = parallel_support.VzHandler(total, p.server)
	vf.RPC = func(addr, method string, args, reply any) error {
		return vf.Dispatch(p.handler, method, args, reply)
	}
	seed := vf.Seed("seed")
	n := total + 1
	p.worlds, p.clients, p.real = make([]*vzWorld, n), make([]parallel_support.Client, n), make([]*interrupt_handler.InterruptHandler, n)
	p.alive, p.crashed, p.gates, p.where = make([]bool, n), make([]bool, n), make([]chan bool, n), make([]string, n)
	for k := 1; k <= total; k++ {
		w := &vzWorld{
			suite: NewSuite(), failer: NewFailer(), rep: &vzReporter{}, ih: &vzInterrupts{c: make(chan any)},
			conf:  types.SuiteConfig{ParallelTotal: total, ParallelProcess: k, RandomSeed: seed, ParallelHost: "x"},
			icept: NoopOutputInterceptor{}, outcome: map[string]int{}, allowed: map[string][]int{},
		}
		p.clients[k] = parallel_support.VzClient(p.handler, fmt.Sprint(k))
		w.client = p.clients[k]
		p.worlds[k] = w
		p.alive[k] = true
		parallel_support.VzRegisterAlive(p.handler, k, func() bool { return p.alive[k] })
	}
	return p
}

// gate waits until the harness lets process k go on.
func (p *vzPar) gate(k int, where string) {
	if p.crashed[k] {
		return
	}
	c := make(chan bool)
	p.where[k] = where
	p.gates[k] = c
	<-c
}

// gateOr is gate for a node with a context: it returns false when the context is cancelled first.
func (p *vzPar) gateOr(k int, where string, ctx context.Context) bool {
	c := make(chan bool)
	p.where[k] = where
	p.gates[k] = c
	select {
	case <-c:
		return true
	case <-ctx.Done():
		p.gates[k] = nil
		return false
	}
}

func (p *vzPar) hit(k int, name string) {
	if p.crashed[k] { // what is left of a crashed process does not count
		return
	}
	p.hits = append(p.hits, vzHit{name: name, proc: k, spec: p.worlds[k].suite.CurrentSpecReport().LeafNodeText})
}

// run runs all processes; decl declares the nodes of process k.
func (p *vzPar) run(decl func(k int, w *vzWorld)) {
	done := 0
	for k := 1; k <= p.total; k++ {
		w := p.worlds[k]
		decl(k, w)
		vf.Assert(w.suite.BuildTree() == nil, "a valid tree is built")
		w.w = NewWriter(vzDiscard{})
		w.w.SetMode(WriterModeBufferOnly)
		var ih interrupt_handler.InterruptHandlerInterface = w.ih
		if p.aborts {
			p.real[k] = interrupt_handler.NewInterruptHandler(p.clients[k])
			ih = p.real[k]
		}
		go func() {
			p.gate(k, "start")
			w.succ, w.focus = w.suite.Run("suite", w.labels, "/suite", w.failer, w.rep, w.w, w.icept, ih, w.client, func(func()) context.CancelFunc { return func() {} }, w.conf)
			if !p.crashed[k] {
				p.gate(k, "exit")
			}
			p.alive[k] = false
			if p.real[k] != nil {
				p.real[k].Stop()
			}
			if !p.crashed[k] {
				p.clients[k].Close()
			}
			done++
		}()
	}
	idle := 0
	time.Sleep(vzStep / 40)
	for done < p.total {
		time.Sleep(vzStep)
		ready := []int{}
		for k := 1; k <= p.total; k++ {
			if p.gates[k] != nil {
				ready = append(ready, k)
			}
		}
		if len(ready) == 0 {
			idle++
			if idle > 3 {
				p.stuck = true
				break
			}
			continue
		}
		idle = 0
		k := ready[0]
		if len(ready) > 1 {
			k = ready[vf.Pick("next process", len(ready))]
		}
		if p.crash > 0 && p.where[k] != "exit" && vf.Bool("crash at "+p.where[k]) {
			p.crash--
			p.crashedAt, p.crashedProc = p.where[k], k
			p.crashed[k] = true
			p.alive[k] = false
			p.clients[k].Close()
		}
		c := p.gates[k]
		p.gates[k] = nil
		c <- true
	}
	vf.Assert(!p.stuck, "no process waits for ever")
	if p.stuck {
		vf.Exit()
	}
}

type vzDiscard struct{}

func (vzDiscard) Write(b []byte) (int, error) { return len(b), nil }
