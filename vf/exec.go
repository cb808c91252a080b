package vf

import (
	"bytes"
	"errors"
	"io"
	"os"
	"os/exec"
	"syscall"
)

// Exec plays the programs that the code under test starts (symbolic executor only; a native replay starts real ones).
// It returns the exit code, or minus the signal that killed the program. A program whose StartError is not nil does
// not start.
var (
	Exec       func(c *exec.Cmd) int
	StartError func(c *exec.Cmd) error
)

type execProc struct {
	c    *exec.Cmd
	done chan bool
	code int
}

type execState struct {
	ps   *os.ProcessState
	code int
}

var (
	execProcs  []*execProc
	execStates []execState
)

var errNoExec = errors.New("executable file not found in $PATH")

func mCommand(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func mCmdStart(c *exec.Cmd) error {
	if StartError != nil {
		if err := StartError(c); err != nil {
			return err
		}
	}
	if Exec == nil {
		return errNoExec
	}
	p := &execProc{c: c, done: make(chan bool)}
	execProcs = append(execProcs, p)
	go func() {
		p.code = Exec(c)
		close(p.done)
	}()
	return nil
}

func mCmdWait(c *exec.Cmd) error {
	for _, p := range execProcs {
		if p.c == c {
			<-p.done
			ps := &os.ProcessState{}
			execStates = append(execStates, execState{ps, p.code})
			c.ProcessState = ps
			if p.code != 0 {
				return &exec.ExitError{ProcessState: ps}
			}
			return nil
		}
	}
	return errors.New("exec: not started")
}

func mCmdRun(c *exec.Cmd) error {
	if err := mCmdStart(c); err != nil {
		return err
	}
	return mCmdWait(c)
}

func mCmdCombinedOutput(c *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := mCmdRun(c)
	return b.Bytes(), err
}

func mCmdOutput(c *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := mCmdRun(c)
	return b.Bytes(), err
}

func mExitErrorError(e *exec.ExitError) string { return "exit status" }

func execCode(ps *os.ProcessState) int {
	for _, s := range execStates {
		if s.ps == ps {
			return s.code
		}
	}
	return 0
}

func mPSExited(ps *os.ProcessState) bool { return execCode(ps) >= 0 }
func mPSExitCode(ps *os.ProcessState) int {
	if c := execCode(ps); c >= 0 {
		return c
	}
	return -1
}
func mPSSuccess(ps *os.ProcessState) bool { return execCode(ps) == 0 }
func mPSPid(ps *os.ProcessState) int      { return 4243 }
func mPSSys(ps *os.ProcessState) any {
	c := execCode(ps)
	if c < 0 {
		return syscall.WaitStatus(-c)
	}
	return syscall.WaitStatus(c << 8)
}

// WriteOut writes to an output of a program played by Exec.
func WriteOut(w io.Writer, s string) {
	if w != nil {
		w.Write([]byte(s))
	}
}
