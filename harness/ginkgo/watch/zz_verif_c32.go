package watch

import (
	"go/build"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/command"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
)

// The go tool and the suites are played by a few lines of shell (native replays) or vzExec (symbolic executor); what was
// compiled and run is in the file log.
const vzGo = `#!/bin/sh
[ "$1" = test ] || exit 1
name=$(basename "$PWD")
for a in "$@"; do case "$a" in --o=*|-o=*) out="${a#*=}";; esac; done
echo "compile $name" >> ../log
[ -f vf-broken ] && echo "it does not compile" && exit 1
cp ../../../bin/suite "$out"; chmod 755 "$out"
exit 0
`

const vzSuiteSh = `#!/bin/sh
echo "run $(basename "$PWD")" >> ../log
sleep 0.4
[ -f vf-fails ] && exit 1
exit 0
`

func vzRead(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	return string(b)
}

func vzHas(p string) bool { _, err := os.Stat(p); return err == nil }

func vzExec(root string) func(c *exec.Cmd) int {
	log := func(line string) { os.WriteFile(root+"/log", []byte(vzRead(root+"/log")+line+"\n"), 0o644) }
	return func(c *exec.Cmd) int {
		name := filepath.Base(c.Dir)
		if c.Path == "go" {
			if c.Args[1] != "test" {
				return 1
			}
			log("compile " + name)
			if vzHas(root + "/" + name + "/vf-broken") {
				vf.WriteOut(c.Stdout, "it does not compile\n")
				return 1
			}
			for _, a := range c.Args {
				if strings.HasPrefix(a, "--o=") {
					os.WriteFile(a[4:], []byte("suite"), 0o755)
				}
			}
			return 0
		}
		vf.Assert(vzHas(c.Path), "a suite is compiled before it runs")
		log("run " + name)
		time.Sleep(400 * time.Millisecond)
		if vzHas(root + "/" + name + "/vf-fails") {
			return 1
		}
		return 0
	}
}

const vzGinkgo = "import . \"github.com/onsi/ginkgo/v2\"\n"

type vzWatched struct {
	root  string
	depth int
	texts bool // text files are watched as well
	one   bool // alpha is the only suite that is watched
	gone  bool // beta is not there
	other bool // alpha imports other
	n     int
}

func (w *vzWatched) put(path, text string) {
	w.n++
	os.WriteFile(w.root+"/"+path, []byte(text+"// "+strconv.Itoa(w.n)+"\n"), 0o644)
}

func (w *vzWatched) beta() {
	os.MkdirAll(w.root+"/beta", 0o755)
	w.put("beta/beta_test.go", "package beta_test\n\n"+vzGinkgo+"import \"p/deep\"\n")
}

// change makes a change and says which suites have to run because of it.
func (w *vzWatched) change(kind int) (alpha, beta bool) {
	old := time.Now().Add(-time.Hour)
	switch kind {
	case 0:
		w.put("alpha/alpha_test.go", "package alpha\n\n"+vzGinkgo)
		alpha = true
	case 1:
		w.put("alpha/alpha.go", "package alpha\n\nimport \"p/lib\"\n")
		alpha, w.other = true, false
	case 2:
		w.put("lib/lib.go", "package lib\n\nimport \"p/deep\"\n")
		alpha = w.depth > 0
	case 3:
		w.put("lib/lib_test.go", "package lib\n\nimport \"p/other\"\n")
	case 4:
		w.put("deep/deep.go", "package deep\n")
		alpha, beta = w.depth > 1, w.depth > 0
	case 5:
		if vzHas(w.root + "/lib/more.go") {
			alpha = w.depth > 0
			os.Remove(w.root + "/lib/more.go")
		}
	case 6:
		w.put("lib/new"+strconv.Itoa(w.n)+".go", "package lib\n")
		os.Chtimes(w.root+"/lib/new"+strconv.Itoa(w.n-1)+".go", old, old)
		alpha = w.depth > 0
	case 7:
		w.put("alpha/README", "text\n")
		w.put("alpha/_hidden.go", "package alpha\n")
		w.put("alpha/.hidden_test.go", "package alpha\n")
		os.MkdirAll(w.root+"/alpha/sub.go", 0o755)
	case 8:
		w.put("lib/data.txt", "text\n")
		alpha = w.depth > 0 && w.texts
	case 9:
		os.RemoveAll(w.root + "/beta")
		w.gone = true
	case 10:
		if w.gone {
			w.beta()
			for _, f := range []string{"beta/beta_test.go"} {
				os.Chtimes(w.root+"/"+f, old, old)
			}
			beta, w.gone = true, false
		}
	case 11:
		w.put("alpha/alpha.go", "package alpha\n\nimport \"p/lib\"\n\nimport \"p/other\"\n")
		alpha, w.other = true, true
	case 12:
		w.put("other/other.go", "package other\n")
		alpha = w.other && w.depth > 0
	case 13:
		if vzHas(w.root + "/alpha/more_test.go") {
			alpha = true
			os.Remove(w.root + "/alpha/more_test.go")
		}
	case 14:
		alpha = w.depth > 0 && vzHas(w.root+"/lib/lib.go")
		os.Rename(w.root+"/lib/lib.go", w.root+"/lib/lob.go")
	case 15:
		os.Remove(w.root + "/alpha/vf-broken")
		w.put("alpha/alpha.go", "package alpha\n\nimport \"p/lib\"\n")
		alpha, w.other = true, false
	}
	return alpha, beta && !w.gone && !w.one
}

func (w *vzWatched) log() []string {
	return strings.Split(strings.TrimSuffix(vzRead(w.root+"/log"), "\n"), "\n")
}

func vzCount(lines []string, line string) (n int) {
	for _, l := range lines {
		if l == line {
			n++
		}
	}
	return
}

// A suite runs again after every change of its package or of a package it depends on, and only then.
//
//verif:quick 300s
//verif:thorough 600s
//verif:bounds two suites (or one of them) with dependencies in two levels, some shared, --depth 0 to 2; two (thorough: three) changes out of 16 - of tests, code, dependencies, imports and files to be ignored, deletions, renamings, files with old dates, a suite removed and restored, code that does not compile - between runs or while a suite is running
//verif:reach rerun ignored during
func VerifC32_Watch() {
	vf.Wall(true)
	dir := vf.Dir()
	w := &vzWatched{root: dir + "/src/p"}
	w.depth = vf.Concrete(vf.Pick("depth", 3))
	w.texts = vf.Bool("watch text files")
	w.one = vf.Bool("one suite")
	for _, d := range []string{"/bin", "/src/p/alpha", "/src/p/lib", "/src/p/deep", "/src/p/other"} {
		os.MkdirAll(dir+d, 0o755)
	}
	os.Chdir(w.root)
	os.WriteFile(dir+"/bin/go", []byte(vzGo), 0o755)
	os.WriteFile(dir+"/bin/suite", []byte(vzSuiteSh), 0o755)
	os.WriteFile(w.root+"/log", nil, 0o644)
	os.Setenv("PATH", dir+"/bin:"+os.Getenv("PATH"))
	os.Setenv("GO111MODULE", "off")
	build.Default.GOPATH = dir
	vf.Exec = vzExec(w.root)
	w.put("alpha/alpha.go", "package alpha\n\nimport \"p/lib\"\n")
	w.put("alpha/alpha_test.go", "package alpha\n\n"+vzGinkgo)
	w.put("alpha/more_test.go", "package alpha_test\n\n")
	w.put("alpha/vf-fails", "")
	if !w.one {
		w.put("alpha/vf-broken", "")
	}
	w.beta()
	w.put("lib/lib.go", "package lib\n\nimport \"p/deep\"\n")
	w.put("lib/more.go", "package lib\n")
	w.put("deep/deep.go", "package deep\n")
	w.put("other/other.go", "package other\n")
	args := []string{"ginkgo", "--depth=" + strconv.Itoa(w.depth)}
	if w.texts {
		args = append(args, "--watch-regexp=\\.(go|txt)$")
	}
	if w.one {
		args = append(args, "alpha")
	} else {
		args = append(args, "-r")
	}
	time.Sleep(100 * time.Millisecond)
	over := make(chan int)
	go func() {
		code := -1
		p := command.Program{Name: "ginkgo", Heading: "ginkgo", DefaultCommand: BuildWatchCommand(), Exiter: func(c int) { code = c }}
		p.RunAndExit(args)
		over <- code
	}()
	time.Sleep(600 * time.Millisecond)
	lines := w.log()
	if w.one {
		vf.Assert(len(lines) == 2 && lines[0] == "compile alpha" && lines[1] == "run alpha", "a single suite runs once at first")
	} else {
		vf.Assert(len(lines) == 1 && lines[0] == "", "suites do not run before there is a change")
	}
	begin := len(lines)
	if !w.one {
		begin = 0
	}
	// time in ms since the first check for changes; the second suite has run 800 ms after a check
	at := -400
	if w.one {
		time.Sleep(400 * time.Millisecond)
	}
	changesA, changesB, lastA, lastB := 0, 0, 0, 0
	for i := 0; i < 2+vf.Tier(); i++ {
		if i > 0 {
			next := (at + 1000) / 1000 * 1000
			if vf.Bool("while a suite is running") {
				vf.Reach("during")
				next += 200
			} else {
				next += 1600
			}
			time.Sleep(time.Duration(next-at) * time.Millisecond)
			at = next
		}
		a, b := w.change(vf.Concrete(vf.Pick("change", 16)))
		now := len(w.log())
		if vzRead(w.root+"/log") == "" {
			now = 0
		}
		if a {
			changesA++
			lastA = now
		}
		if b {
			changesB++
			lastB = now
		}
	}
	time.Sleep(3000 * time.Millisecond)
	vf.Signal(syscall.SIGINT)
	vf.Assert(<-over == 0, "the command ends well when it is interrupted")
	lines = w.log()
	check := func(name string, changes, last int) {
		n := vzCount(lines[begin:], "compile "+name)
		if changes == 0 {
			vf.Reach("ignored")
			vf.Assert(n == 0, "a suite that nothing changed for does not run")
			return
		}
		vf.Reach("rerun")
		vf.Assert(n <= changes, "a suite runs once after a change")
		vf.Assert(vzCount(lines[last:], "compile "+name) > 0, "a suite runs after it, or what it depends on, has changed")
	}
	check("alpha", changesA, lastA)
	check("beta", changesB, lastB)
	vf.Observe("log", strings.Join(lines, ","))
}
