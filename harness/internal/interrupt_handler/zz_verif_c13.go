package interrupt_handler

import (
	"os"
	"syscall"
	"time"

	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
)

// vzClient is a client whose only question is whether another process has aborted.
type vzClient struct {
	parallel_support.Client
	abort chan struct{}
}

func (c *vzClient) ShouldAbort() bool {
	select {
	case <-c.abort:
		return true
	default:
		return false
	}
}

// Every signal raises the interrupt level by one, up to the last, and wakes whoever waits on the current channel; an
// abort by another process is seen by the next query at the latest.
//
//verif:quick 200s
//verif:thorough 300s
//verif:bounds a handler with or without a client; up to 5 signals (each of two kinds) or an abort by another process first, each awaited by two waiters or noticed by polling or by the next query; one schedule
//verif:reach polled queried bailout saturated stopped
func VerifC13_Handler() { vzHandler(5) }

// The same for all schedules of the goroutines involved.
//
//verif:quick 200s
//verif:thorough 300s
//verif:bounds as above with up to 2 events (thorough: 3), all schedules at blocking points
//verif:reach polled queried stopped
func VerifC13_HandlerSchedules() {
	vf.Schedules(1, 0)
	vzHandler(2 + vf.Tier())
}

func vzHandler(n int) {
	ABORT_POLLING_INTERVAL = 20 * time.Millisecond
	var client parallel_support.Client
	other := &vzClient{abort: make(chan struct{})}
	parallel := vf.Bool("parallel")
	if parallel {
		client = other
	}
	h := NewInterruptHandler(client, os.Interrupt, syscall.SIGTERM)
	st := h.Status()
	vf.Assert(st.Level == InterruptLevelUninterrupted && !st.Interrupted() && st.Cause == InterruptCauseInvalid, "nothing is interrupted at first")
	level := InterruptLevelUninterrupted
	aborted := false
	for i := 0; i < n; i++ {
		e := vf.Pick("event", 5)
		if e == 0 {
			break
		}
		old := h.Status()
		vf.Assert(old.Level == level, "the level stays what it is between interrupts")
		woken := make(chan bool, 2)
		wait := func() {
			<-old.Channel
			woken <- true
		}
		switch e {
		case 1, 2: // a signal
			go wait()
			go wait()
			sig := syscall.SIGINT
			if e == 2 {
				sig = syscall.SIGTERM
			}
			vf.Signal(sig)
			if level == InterruptLevelBailOut {
				vf.Reach("saturated")
				time.Sleep(50 * time.Millisecond)
				vf.Assert(len(woken) == 0 && h.Status().Level == level, "after the last level nothing changes any more")
				h.Stop()
				return
			}
			<-woken
			<-woken
			level++
			st := h.Status()
			vf.Assert(st.Level == level, "a signal raises the level by one")
			vf.Assert(st.Cause == InterruptCauseSignal, "the cause of the interrupt is the last one")
			vf.Assert(st.Interrupted() && st.ShouldIncludeProgressReport() && st.Message() == "Interrupted by User", "an interrupt by the user says so")
		case 3, 4: // an abort by another process
			if !parallel || aborted || level > 0 {
				vf.Exit()
			}
			aborted = true
			close(other.abort)
			if e == 3 {
				vf.Reach("polled")
				go wait()
				<-woken
			} else {
				vf.Reach("queried")
			}
			level++
			st := h.Status()
			vf.Assert(st.Level == level, "an abort by another process is seen at once")
			vf.Assert(st.Cause == InterruptCauseAbortByOtherProcess, "the cause is the abort by another process")
			vf.Assert(st.Interrupted() && !st.ShouldIncludeProgressReport() && st.Message() == "Interrupted by Other Ginkgo Process", "an abort by another process says so")
			<-old.Channel
		}
		vf.Assert(h.Status().Channel != old.Channel, "every level has its own channel")
	}
	if level == InterruptLevelBailOut {
		vf.Reach("bailout")
	}
	h.Stop()
	vf.Reach("stopped")
}
