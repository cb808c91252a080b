package vf

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Dir is a directory of its own for the harness. Under the symbolic executor the file system is the model below; a
// native replay works in a scratch directory that is removed at the end.
func Dir() string { // the replay's working directory is scratch already
	if scratch == "" {
		wd, _ := os.Getwd()
		scratch = filepath.Join(wd, "work")
		os.MkdirAll(scratch, 0o755)
	}
	return scratch
}

var scratch string

// FSFault, when set, is asked before every operation of the modelled file system.
var FSFault func(op, path string) error

// Env holds the environment of the model.
var Env = map[string]string{}

func mDir() string { return "/vf/work" }

type fsNode struct {
	name string // absolute, clean
	dir  bool
	mode os.FileMode
	data []byte
	mod  int64
}

type fsHandle struct {
	f      *os.File
	n      *fsNode
	off    int
	app    bool
	closed bool
	fd     int // its descriptor, once it was asked for
}

var (
	fsNodes   = []*fsNode{{name: "/", dir: true, mode: 0755}, {name: "/vf", dir: true, mode: 0755}, {name: "/vf/work", dir: true, mode: 0755}, {name: "/vf/cwd", dir: true, mode: 0755}, {name: "/tmp", dir: true, mode: 0777}}
	fsHandles []*fsHandle
	fsCwd     = "/vf/cwd"
	fsTemp    int
)

func fsAbs(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = fsCwd + "/" + p
	}
	return filepath.Clean(p)
}

func fsFind(p string) *fsNode {
	p = fsAbs(p)
	for _, n := range fsNodes {
		if n.name == p {
			return n
		}
	}
	return nil
}

func fsErr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

var errNotDir, errIsDir, errNotEmpty = errors.New("not a directory"), errors.New("is a directory"), errors.New("directory not empty")

func fsAsk(op, path string) error {
	if FSFault != nil {
		if err := FSFault(op, path); err != nil {
			return fsErr(op, path, err)
		}
	}
	return nil
}

func fsMake(op, path string, dir bool, mode os.FileMode) (*fsNode, error) {
	up := fsFind(filepath.Dir(fsAbs(path)))
	if path == "" || up == nil {
		return nil, fsErr(op, path, fs.ErrNotExist)
	}
	if !up.dir {
		return nil, fsErr(op, path, errNotDir)
	}
	n := &fsNode{name: fsAbs(path), dir: dir, mode: mode, mod: time.Now().UnixNano()}
	fsNodes = append(fsNodes, n)
	return n, nil
}

func mOpenFile(path string, flag int, perm os.FileMode) (*os.File, error) {
	if err := fsAsk("open", path); err != nil {
		return nil, err
	}
	n := fsFind(path)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, fsErr("open", path, fs.ErrNotExist)
		}
		var err error
		if n, err = fsMake("open", path, false, perm); err != nil {
			return nil, err
		}
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, fsErr("open", path, fs.ErrExist)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, fsErr("open", path, errIsDir)
		}
		if flag&os.O_TRUNC != 0 {
			n.data, n.mod = nil, time.Now().UnixNano()
		}
	}
	h := &fsHandle{f: new(os.File), n: n, app: flag&os.O_APPEND != 0}
	fsHandles = append(fsHandles, h)
	return h.f, nil
}

func mOpen(path string) (*os.File, error) { return mOpenFile(path, os.O_RDONLY, 0) }
func mCreate(path string) (*os.File, error) {
	return mOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func mCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	fsTemp++
	num := "17" + string(rune('0'+fsTemp/10%10)) + string(rune('0'+fsTemp%10))
	name := pattern + num
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		name = pattern[:i] + num + pattern[i+1:]
	}
	return mOpenFile(dir+"/"+name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func mMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	fsTemp++
	name := dir + "/" + pattern + "17" + string(rune('0'+fsTemp/10%10)) + string(rune('0'+fsTemp%10))
	return name, mMkdir(name, 0700)
}

func fsOf(f *os.File) *fsHandle {
	for _, h := range fsHandles {
		if h.f == f {
			return h
		}
	}
	return nil
}

func mFileName(f *os.File) string {
	if h := fsOf(f); h != nil {
		return h.n.name
	}
	if e := fdOf(f); e != nil {
		return e.name
	}
	return "/dev/stdout"
}

func mFileWrite(f *os.File, b []byte) (int, error) {
	h := fsOf(f)
	if h == nil {
		return fdWrite(f, b)
	}
	if h.closed {
		return 0, fsErr("write", h.n.name, fs.ErrClosed)
	}
	return fsWrite(h, b)
}

func fsWrite(h *fsHandle, b []byte) (int, error) {
	if err := fsAsk("write", h.n.name); err != nil {
		return 0, err
	}
	if h.app {
		h.off = len(h.n.data)
	}
	if h.off == len(h.n.data) {
		h.n.data = append(h.n.data, b...)
	} else {
		rest := []byte{}
		if h.off+len(b) < len(h.n.data) {
			rest = h.n.data[h.off+len(b):]
		}
		h.n.data = append(append(append([]byte{}, h.n.data[:h.off]...), b...), rest...)
	}
	h.off += len(b)
	h.n.mod = time.Now().UnixNano()
	return len(b), nil
}

func mFileWriteString(f *os.File, s string) (int, error) { return mFileWrite(f, []byte(s)) }

func mFileRead(f *os.File, b []byte) (int, error) {
	h := fsOf(f)
	if h == nil {
		return fdRead(f, b)
	}
	if h.closed {
		return 0, fsErr("read", h.n.name, fs.ErrClosed)
	}
	if h.n.dir {
		return 0, fsErr("read", h.n.name, errIsDir)
	}
	if err := fsAsk("read", h.n.name); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.off:])
	h.off += n
	return n, nil
}

func mFileWriteTo(f *os.File, w io.Writer) (int64, error) {
	h := fsOf(f)
	if h == nil {
		return fdWriteTo(f, w)
	}
	if h.closed {
		return 0, fsErr("read", h.n.name, fs.ErrClosed)
	}
	n, err := w.Write(h.n.data[h.off:])
	h.off += n
	return int64(n), err
}

func mFileReadFrom(f *os.File, r io.Reader) (int64, error) {
	total := int64(0)
	buf := make([]byte, 64)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			if _, werr := mFileWrite(f, buf[:n]); werr != nil {
				return total, werr
			}
			total += int64(n)
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func mFileSync(f *os.File) error { return nil }

func mFileClose(f *os.File) error {
	h := fsOf(f)
	if h == nil {
		return fdClose(f)
	}
	if h.closed {
		return fsErr("close", h.n.name, fs.ErrClosed)
	}
	h.closed = true
	if h.fd != 0 {
		return fdDrop(h.fd)
	}
	return nil
}

func mFileStat(f *os.File) (os.FileInfo, error) {
	h := fsOf(f)
	if h == nil || h.closed {
		return nil, fs.ErrClosed
	}
	return &fsInfo{h.n}, nil
}

type fsInfo struct{ n *fsNode }

func (i *fsInfo) Name() string { return filepath.Base(i.n.name) }
func (i *fsInfo) Size() int64  { return int64(len(i.n.data)) }
func (i *fsInfo) Mode() fs.FileMode {
	if i.n.dir {
		return i.n.mode | fs.ModeDir
	}
	return i.n.mode
}
func (i *fsInfo) ModTime() time.Time         { return time.Unix(0, i.n.mod) }
func (i *fsInfo) IsDir() bool                { return i.n.dir }
func (i *fsInfo) Sys() any                   { return nil }
func (i *fsInfo) Type() fs.FileMode          { return i.Mode() & fs.ModeType }
func (i *fsInfo) Info() (fs.FileInfo, error) { return i, nil }

func mStat(path string) (os.FileInfo, error) {
	if err := fsAsk("stat", path); err != nil {
		return nil, err
	}
	n := fsFind(path)
	if n == nil {
		return nil, fsErr("stat", path, fs.ErrNotExist)
	}
	return &fsInfo{n}, nil
}

func mReadFile(path string) ([]byte, error) {
	if err := fsAsk("open", path); err != nil {
		return nil, err
	}
	n := fsFind(path)
	if n == nil {
		return nil, fsErr("open", path, fs.ErrNotExist)
	}
	if n.dir {
		return nil, fsErr("read", path, errIsDir)
	}
	return append([]byte{}, n.data...), nil
}

func mWriteFile(path string, data []byte, perm os.FileMode) error {
	f, err := mOpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	if _, err = mFileWrite(f, data); err != nil {
		return err
	}
	return mFileClose(f)
}

func mReadDir(path string) ([]os.DirEntry, error) {
	if err := fsAsk("open", path); err != nil {
		return nil, err
	}
	d := fsFind(path)
	if d == nil {
		return nil, fsErr("open", path, fs.ErrNotExist)
	}
	if !d.dir {
		return nil, fsErr("readdirent", path, errNotDir)
	}
	names := []string{}
	for _, n := range fsNodes {
		if n != d && filepath.Dir(n.name) == d.name {
			names = append(names, n.name)
		}
	}
	sort.Strings(names)
	out := []os.DirEntry{}
	for _, n := range names {
		out = append(out, &fsInfo{fsFind(n)})
	}
	return out, nil
}

func mMkdir(path string, perm os.FileMode) error {
	if err := fsAsk("mkdir", path); err != nil {
		return err
	}
	if fsFind(path) != nil {
		return fsErr("mkdir", path, fs.ErrExist)
	}
	_, err := fsMake("mkdir", path, true, perm)
	return err
}

func mMkdirAll(path string, perm os.FileMode) error {
	if n := fsFind(path); n != nil {
		if !n.dir {
			return fsErr("mkdir", path, errNotDir)
		}
		return nil
	}
	if err := mMkdirAll(filepath.Dir(fsAbs(path)), perm); err != nil {
		return err
	}
	return mMkdir(path, perm)
}

func fsDrop(n *fsNode) {
	kept := []*fsNode{}
	for _, m := range fsNodes {
		if m != n {
			kept = append(kept, m)
		}
	}
	fsNodes = kept
}

func mRemove(path string) error {
	if err := fsAsk("remove", path); err != nil {
		return err
	}
	n := fsFind(path)
	if n == nil {
		return fsErr("remove", path, fs.ErrNotExist)
	}
	for _, m := range fsNodes {
		if strings.HasPrefix(m.name, n.name+"/") {
			return fsErr("remove", path, errNotEmpty)
		}
	}
	fsDrop(n)
	return nil
}

func mRemoveAll(path string) error {
	if err := fsAsk("remove", path); err != nil {
		return err
	}
	n := fsFind(path)
	if n == nil {
		return nil
	}
	kept := []*fsNode{}
	for _, m := range fsNodes {
		if m != n && !strings.HasPrefix(m.name, n.name+"/") {
			kept = append(kept, m)
		}
	}
	fsNodes = kept
	return nil
}

func mRename(from, to string) error {
	if err := fsAsk("rename", from); err != nil {
		return err
	}
	n := fsFind(from)
	up := fsFind(filepath.Dir(fsAbs(to)))
	if n == nil || up == nil || to == "" {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: fs.ErrNotExist}
	}
	if !up.dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: errNotDir}
	}
	if o := fsFind(to); o != nil && o != n {
		if o.dir {
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: fs.ErrExist}
		}
		fsDrop(o)
	}
	old := n.name
	n.name = fsAbs(to)
	for _, m := range fsNodes {
		if strings.HasPrefix(m.name, old+"/") {
			m.name = n.name + m.name[len(old):]
		}
	}
	return nil
}

func mChtimes(path string, _, mod time.Time) error {
	n := fsFind(path)
	if n == nil {
		return fsErr("chtimes", path, fs.ErrNotExist)
	}
	n.mod = mod.UnixNano()
	return nil
}

func mAbs(p string) (string, error) {
	if p == "" {
		return fsCwd, nil
	}
	return fsAbs(p), nil
}

func mGetwd() (string, error) { return fsCwd, nil }

func mChdir(dir string) error {
	n := fsFind(dir)
	if n == nil {
		return fsErr("chdir", dir, fs.ErrNotExist)
	}
	if !n.dir {
		return fsErr("chdir", dir, errNotDir)
	}
	fsCwd = n.name
	return nil
}

func mIsNotExist(err error) bool {
	return errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOENT)
}
func mIsExist(err error) bool { return errors.Is(err, fs.ErrExist) || errors.Is(err, syscall.EEXIST) }

func mGetenv(key string) string { return Env[key] }
func mLookupEnv(key string) (string, bool) {
	v, ok := Env[key]
	return v, ok
}
func mSetenv(key, value string) error { Env[key] = value; return nil }
func mUnsetenv(key string) error      { delete(Env, key); return nil }

// OnExit has f called when the program under test exits.
func OnExit(f func(code int)) {
	exitHook = f
	if setExitHook != nil {
		setExitHook(f)
	}
}

var (
	exitHook    func(code int)
	setExitHook func(func(code int)) // set by native replays
)

func exitNow(code int) {}

func mOsExit(code int) {
	if f := exitHook; f != nil {
		exitHook = nil
		f(code)
	}
	exitNow(code)
}
