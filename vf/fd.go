package vf

import (
	"io"
	"io/fs"
	"os"
	"runtime"
	"syscall"
)

// File descriptors of the model: descriptors refer to open file descriptions - a file, the end of a pipe, or the
// process's own console - which live until their last descriptor is closed.

type fdPipe struct {
	data    []byte
	writers int
	readers int
	wake    chan struct{}
}

func (p *fdPipe) changed() {
	was := p.wake
	p.wake = make(chan struct{})
	close(was)
}

type fdDesc struct {
	file  *fsHandle
	pipe  *fdPipe
	write bool
	refs  int
}

type fdFile struct {
	f    *os.File
	fd   int
	name string
}

var (
	fdStdout, fdStderr = os.Stdout, os.Stderr
	fdTab              = []*fdDesc{{refs: 1}, {refs: 1, write: true}, {refs: 1, write: true}}
	fdFiles            = []*fdFile{{fdStdout, 1, "/dev/stdout"}, {fdStderr, 2, "/dev/stderr"}}
)

func fdGet(fd int) *fdDesc {
	if fd < 0 || fd >= len(fdTab) {
		return nil
	}
	return fdTab[fd]
}

func fdAdd(d *fdDesc) int {
	d.refs++
	if p := d.pipe; p != nil {
		if d.write {
			p.writers++
		} else {
			p.readers++
		}
	}
	for i, e := range fdTab {
		if e == nil {
			fdTab[i] = d
			return i
		}
	}
	fdTab = append(fdTab, d)
	return len(fdTab) - 1
}

func fdDrop(fd int) error {
	d := fdGet(fd)
	if d == nil {
		return syscall.EBADF
	}
	fdTab[fd] = nil
	fdUnref(d)
	return nil
}

func fdUnref(d *fdDesc) {
	d.refs--
	if p := d.pipe; p != nil {
		if d.write {
			p.writers--
		} else {
			p.readers--
		}
		p.changed()
	}
}

func fdOf(f *os.File) *fdFile {
	for _, e := range fdFiles {
		if e.f == f {
			return e
		}
	}
	return nil
}

func mPipe() (*os.File, *os.File, error) {
	p := &fdPipe{wake: make(chan struct{})}
	r := &fdFile{new(os.File), fdAdd(&fdDesc{pipe: p}), "|0"}
	w := &fdFile{new(os.File), fdAdd(&fdDesc{pipe: p, write: true}), "|1"}
	fdFiles = append(fdFiles, r, w)
	return r.f, w.f, nil
}

func mNewFile(fd uintptr, name string) *os.File {
	e := &fdFile{new(os.File), int(fd), name}
	fdFiles = append(fdFiles, e)
	return e.f
}

func mFd(f *os.File) uintptr {
	if h := fsOf(f); h != nil {
		if h.closed {
			return ^uintptr(0)
		}
		if h.fd == 0 {
			h.fd = fdAdd(&fdDesc{file: h})
		}
		return uintptr(h.fd)
	}
	if e := fdOf(f); e != nil {
		return uintptr(e.fd)
	}
	return ^uintptr(0)
}

func mDup(fd int) (int, error) {
	d := fdGet(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	return fdAdd(d), nil
}

func mDup2(from, to int) error {
	runtime.Gosched()
	d := fdGet(from)
	if d == nil || to < 0 {
		return syscall.EBADF
	}
	if from == to {
		return nil
	}
	for len(fdTab) <= to {
		fdTab = append(fdTab, nil)
	}
	was := fdTab[to]
	fdTab[to] = nil
	if n := fdAdd(d); n != to {
		fdTab[n], fdTab[to] = nil, d
	}
	if was != nil {
		fdUnref(was)
	}
	return nil
}

func mFcntlInt(fd uintptr, cmd, arg int) (int, error) {
	if fdGet(int(fd)) == nil {
		return -1, syscall.EBADF
	}
	return 0, nil
}

func fdWrite(f *os.File, b []byte) (int, error) {
	e := fdOf(f)
	if e == nil {
		return len(b), nil
	}
	runtime.Gosched()
	d := fdGet(e.fd)
	if e.fd < 0 || d == nil {
		return 0, fsErr("write", e.name, fs.ErrClosed)
	}
	if d.file != nil {
		return fsWrite(d.file, b)
	}
	if p := d.pipe; p != nil {
		if p.readers == 0 {
			return 0, fsErr("write", e.name, syscall.EPIPE)
		}
		p.data = append(p.data, b...)
		p.changed()
	}
	return len(b), nil
}

func fdRead(f *os.File, b []byte) (int, error) {
	e := fdOf(f)
	if e == nil {
		return 0, io.EOF
	}
	for {
		d := fdGet(e.fd)
		if e.fd < 0 || d == nil {
			return 0, fsErr("read", e.name, fs.ErrClosed)
		}
		p := d.pipe
		if p == nil {
			return 0, io.EOF
		}
		if len(p.data) > 0 {
			n := copy(b, p.data)
			p.data = p.data[n:]
			return n, nil
		}
		if p.writers == 0 {
			return 0, io.EOF
		}
		wake := p.wake
		<-wake
	}
}

func fdWriteTo(f *os.File, w io.Writer) (int64, error) {
	total := int64(0)
	buf := make([]byte, 64)
	for {
		n, err := fdRead(f, buf)
		if n > 0 {
			k, werr := w.Write(buf[:n])
			total += int64(k)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func fdClose(f *os.File) error {
	runtime.Gosched()
	e := fdOf(f)
	if e == nil {
		return nil
	}
	if e.fd < 0 {
		return fsErr("close", e.name, fs.ErrClosed)
	}
	fd := e.fd
	e.fd = -1
	return fdDrop(fd)
}
