package run

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/command"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
)

// The go tool and the compiled suites are played by a few lines of shell (native replays) or vzExec (symbolic
// executor): what they do is written in files next to the suites, what they did goes to the file log.
const vzGo = `#!/bin/sh
[ "$1" = test ] || exit 1
name=$(basename "$PWD")
for a in "$@"; do case "$a" in --o=*|-o=*) out="${a#*=}";; esac; done
echo "compile $name" >> ../log
case "$(cat vf-compile)" in
ok) cp ../bin/suite "$out"; chmod 755 "$out";;
parallel) cp ../bin/parallel "$out"; chmod 755 "$out";;
fail) echo "it does not compile"; exit 1;;
empty) echo "?   $name   [no test files]";;
esac
exit 0
`

const vzHook = `#!/bin/sh
echo "hook $1 $2" >> log
`

const vzSuiteSh = `#!/bin/sh
name=$(basename "$PWD")
last=
for a in "$@"; do last="$a"; done
echo "run $name $last" >> ../log
n=$(grep -c "^run $name " ../log)
[ -f vf-say ] && cat vf-say >&2
[ -f vf-sleep ] && sleep 0.4
[ -f vf-int ] && kill -INT $PPID && sleep 0.2
code=$(cut -d' ' -f$n vf-exit)
[ "$code" = kill ] && kill -KILL $$
exit $code
`

func vzRead(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	return string(b)
}

func vzHas(p string) bool { _, err := os.Stat(p); return err == nil }

func vzLog(dir, line string) {
	os.WriteFile(dir+"/log", []byte(vzRead(dir+"/log")+line+"\n"), 0o644)
}

func vzExec(dir string) func(c *exec.Cmd) int {
	return func(c *exec.Cmd) int {
		name := filepath.Base(c.Dir)
		at := dir + "/" + name + "/"
		if c.Path == "go" {
			if c.Args[1] != "test" {
				return 1
			}
			out := ""
			for _, a := range c.Args {
				if strings.HasPrefix(a, "--o=") {
					out = a[4:]
				}
			}
			vzLog(dir, "compile "+name)
			switch vzRead(at + "vf-compile") {
			case "ok":
				os.WriteFile(out, []byte("suite"), 0o755)
			case "fail":
				vf.WriteOut(c.Stdout, "it does not compile\n")
				return 1
			case "empty":
				vf.WriteOut(c.Stdout, "?   "+name+"   [no test files]\n")
			}
			return 0
		}
		if c.Path == "hook" {
			vzLog(dir, "hook "+c.Args[1]+" "+c.Args[2])
			return 0
		}
		vf.Assert(vzHas(c.Path), "a suite is compiled before it runs")
		vzLog(dir, "run "+name+" "+c.Args[len(c.Args)-1])
		n := strings.Count(vzRead(dir+"/log"), "run "+name+" ")
		vf.WriteOut(c.Stderr, vzRead(at+"vf-say"))
		if vzHas(at + "vf-sleep") {
			time.Sleep(400 * time.Millisecond)
		}
		if vzHas(at + "vf-int") {
			vf.Signal(syscall.SIGINT)
			time.Sleep(200 * time.Millisecond)
		}
		switch code := strings.Split(vzRead(at+"vf-exit"), " ")[n-1]; code {
		case "0":
			return 0
		case "1":
			return 1
		case "2":
			return 2
		case "197":
			return 197
		}
		return -9
	}
}

type vzSuite struct {
	name                 string
	compile              string // ok, fail, empty or nothing
	exits                []string
	filtered, warns      bool
	precompiled, foreign bool // foreign: does not use ginkgo
	sleeps, interrupts   bool
}

func (s vzSuite) write(dir string) {
	d := dir + "/" + s.name
	os.MkdirAll(d, 0o755)
	src := "package x\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"
	if s.foreign {
		src = "package x\n\nimport \"testing\"\n"
	}
	os.WriteFile(d+"/"+s.name+"_test.go", []byte(src), 0o644)
	os.WriteFile(d+"/vf-compile", []byte(s.compile), 0o644)
	os.WriteFile(d+"/vf-exit", []byte(strings.Join(s.exits, " ")), 0o644)
	if s.warns {
		os.WriteFile(d+"/vf-say", []byte("testing: warning: no tests to run\n"), 0o644)
	}
	if s.sleeps {
		os.WriteFile(d+"/vf-sleep", nil, 0o644)
	}
	if s.interrupts {
		os.WriteFile(d+"/vf-int", nil, 0o644)
	}
	if s.precompiled {
		os.WriteFile(d+"/"+s.name+".test", []byte(vzSuiteSh), 0o755)
	}
}

func vzWorld(suites []vzSuite) string {
	dir := vf.Dir()
	os.Chdir(dir)
	os.MkdirAll(dir+"/bin", 0o755)
	os.WriteFile(dir+"/bin/go", []byte(vzGo), 0o755)
	os.WriteFile(dir+"/bin/suite", []byte(vzSuiteSh), 0o755)
	os.WriteFile(dir+"/bin/hook", []byte(vzHook), 0o755)
	os.WriteFile(dir+"/log", nil, 0o644)
	os.Setenv("PATH", dir+"/bin:"+os.Getenv("PATH"))
	for _, s := range suites {
		s.write(dir)
	}
	vf.Exec = vzExec(dir)
	return dir
}

// vzGinkgo runs the command line tool and returns its exit code.
func vzGinkgo(args ...string) (code int) {
	code = -1
	run := BuildRunCommand()
	p := command.Program{Name: "ginkgo", Heading: "ginkgo", DefaultCommand: run, Exiter: func(c int) { code = c }}
	p.RunAndExit(append([]string{"ginkgo"}, args...))
	return
}
