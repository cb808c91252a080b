package run

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/google/pprof/profile"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// A process of a suite: natively a shell that notes its arguments and waits to be told how to end, while the harness
// writes the files in its place.
const vzFileSh = `#!/bin/sh
name=$(basename "$PWD")
n=1
for a in "$@"; do case "$a" in --ginkgo.parallel.process=*) n="${a#*=}";; esac; done
printf '%s\n' "$@" > ../args-$name-$n.tmp
mv ../args-$name-$n.tmp ../args-$name-$n
i=0
while [ ! -f ../exit-$name-$n ] && [ $i -lt 1500 ]; do sleep 0.02; i=$((i+1)); done
exit $(cat ../exit-$name-$n)
`

const vzGoCover = `#!/bin/sh
[ "$1" = tool ] && echo "total: (statements) 50.0%" && exit 0
[ "$1" = test ] || exit 1
name=$(basename "$PWD")
for a in "$@"; do case "$a" in --o=*|-o=*) out="${a#*=}";; esac; done
[ -f vf-broken ] && exit 1
cp ../bin/suite "$out"; chmod 755 "$out"
exit 0
`

var vzProfileKinds = []string{"block", "cpu", "mem", "mutex"}

// vzWriteFiles is what a process of a suite leaves behind.
func vzWriteFiles(suite string, number, n int, args []string) {
	one := 1 << (3*number + n)
	for _, a := range args {
		if path, ok := strings.CutPrefix(a, "--test.coverprofile="); ok {
			os.WriteFile(path, []byte("mode: count\npkg/a.go:1.2,3.4 1 "+strconv.Itoa(one)+"\npkg/"+suite+".go:1.2,3.4 1 1\n"), 0o644)
		}
		for _, k := range vzProfileKinds {
			if path, ok := strings.CutPrefix(a, "--test."+k+"profile="); ok {
				t := &profile.ValueType{Type: k, Unit: "count"}
				p := &profile.Profile{SampleType: []*profile.ValueType{t}, PeriodType: t, Comments: []string{k + " " + suite + " " + strconv.Itoa(n)}}
				b := &bytes.Buffer{}
				p.Write(b)
				os.WriteFile(path, b.Bytes(), 0o644)
			}
		}
		if path, ok := strings.CutPrefix(a, "--ginkgo.json-report="); ok && n == 1 {
			b, _ := json.Marshal([]types.Report{{SuitePath: suite, SuiteSucceeded: true}})
			os.WriteFile(path, b, 0o644)
		}
	}
	if host := vzArg(args, "parallel.host"); host != "" {
		c := parallel_support.NewClient(host)
		vf.Assert(c.Connect(), "a process reaches the server")
		c.PostSuiteWillBegin(types.Report{SuitePath: suite})
		c.PostSuiteDidEnd(types.Report{SuitePath: suite, SuiteSucceeded: true})
		c.Close()
	}
}

func vzComments(path string) string {
	f, err := os.Open(path)
	if err != nil {
		return "missing"
	}
	defer f.Close()
	p, err := profile.Parse(f)
	if err != nil {
		return "damaged"
	}
	sort.Strings(p.Comments)
	return strings.Join(p.Comments, ",")
}

// However many suites and processes there are, the files that were asked for are where they are to be and account for
// every process of every suite, and nothing else is left.
//
//verif:quick 100s
//verif:thorough 300s
//verif:bounds ginkgo run with two suites in 1 or 2 processes (thorough: up to 3), one of which may fail, have focused specs (with a process that fails or not) or not compile; with any of cover profile, block, cpu, memory and mutex profile, and JSON report; with --output-dir or not, --keep-separate-reports and --keep-separate-coverprofiles or not
//verif:use ginkgo/run/zz_verif_c24.go
//verif:reach cover separate profiles report focused broken failed
func VerifC28_Run() {
	procs := 1 + vf.Concrete(vf.Pick("processes", 2+vf.Tier()))
	outDir := vf.Bool("output dir")
	separate := vf.Bool("separate")
	what := vf.Concrete(vf.Pick("what", 6)) // cover, report, then the profiles
	alpha := vf.Concrete(vf.Pick("alpha", 5))
	odd := 1 // the process of a suite with focused specs that fails
	if alpha == 4 {
		vf.Assume(procs > 1)
		odd += vf.Concrete(vf.Pick("failing process", procs))
	}
	args := []string{"--keep-going", "--procs=" + strconv.Itoa(procs)}
	if outDir {
		args = append(args, "--output-dir=out")
	}
	switch what {
	case 0:
		args = append(args, "--coverprofile=c.out")
		if separate {
			args = append(args, "--keep-separate-coverprofiles")
		}
	case 1:
		args = append(args, "--json-report=r.json")
		if separate {
			args = append(args, "--keep-separate-reports")
		}
	default:
		vf.Assume(!separate)
		args = append(args, "--"+vzProfileKinds[what-2]+"profile=p.out")
	}
	suites := []vzSuite{{name: "alpha", compile: "ok", exits: []string{"0"}}, {name: "beta", compile: "ok", exits: []string{"0"}}}
	dir := vzWorld(suites)
	os.WriteFile(dir+"/bin/suite", []byte(vzFileSh), 0o755)
	os.WriteFile(dir+"/bin/go", []byte(vzGoCover), 0o755)
	if alpha == 3 {
		os.WriteFile(dir+"/alpha/vf-broken", nil, 0o644)
	}
	code := func(suite string, n int) int {
		if suite == "alpha" {
			if alpha == 4 && n == odd {
				return 1
			}
			return []int{0, 1, 197, 0, 197}[alpha]
		}
		return 0
	}
	number := map[string]int{"alpha": 0, "beta": 1}
	ran := map[string]int{}
	vf.Exec = func(c *exec.Cmd) int {
		name := filepath.Base(c.Dir)
		if c.Path == "go" {
			if c.Args[1] == "tool" {
				vf.WriteOut(c.Stdout, "total: (statements) 50.0%\n")
				return 0
			}
			if vzHas(dir + "/" + name + "/vf-broken") {
				return 1
			}
			for _, a := range c.Args {
				if out, ok := strings.CutPrefix(a, "--o="); ok {
					os.WriteFile(out, []byte("suite"), 0o755)
				}
			}
			return 0
		}
		n := 1
		if k := vzArg(c.Args, "parallel.process"); k != "" {
			n, _ = strconv.Atoi(k)
		}
		ran[name]++
		vzWriteFiles(name, number[name], n, c.Args)
		return code(name, n)
	}
	if !vf.Engine() {
		for name := range number {
			for n := 1; n <= procs; n++ {
				go func() {
					id := name + "-" + strconv.Itoa(n)
					for !vzHas(dir + "/args-" + id) {
						time.Sleep(10 * time.Millisecond)
					}
					vzWriteFiles(name, number[name], n, strings.Split(strings.TrimSpace(vzRead(dir+"/args-"+id)), "\n"))
					os.WriteFile(dir+"/tmp-"+id, []byte(strconv.Itoa(code(name, n))), 0o644)
					os.Rename(dir+"/tmp-"+id, dir+"/exit-"+id)
				}()
			}
		}
	}
	exit := vzGinkgo(append(args, "alpha", "beta")...)
	vf.Assert(exit == []int{0, 1, 197, 1, 1}[alpha], "the exit code says how the suites went")
	// what there is to be
	at := func(suite, name string) string {
		if outDir {
			return dir + "/out/" + suite + "_" + name
		}
		return dir + "/" + suite + "/" + name
	}
	top := func(name string) string {
		if outDir {
			return dir + "/out/" + name
		}
		return dir + "/" + name
	}
	expected := map[string]bool{}
	focused := alpha == 2 || alpha == 4
	switch what {
	case 0:
		block := func(suite string) int {
			sum := 0
			for n := 1; n <= procs; n++ {
				sum += 1 << (3*number[suite] + n)
			}
			return sum
		}
		check := func(path string, sum int, of ...string) {
			text := "mode: count\npkg/a.go:1.2,3.4 1 " + strconv.Itoa(sum) + "\n"
			for _, s := range of {
				text += "pkg/" + s + ".go:1.2,3.4 1 " + strconv.Itoa(procs) + "\n"
			}
			got := vzRead(path)
			if procs == 1 && separate {
				vf.Assert(strings.Contains(got, "pkg/a.go:1.2,3.4 1 "+strconv.Itoa(sum)+"\n"), "the coverage of a suite is kept")
			} else {
				vf.Assertf(got == text, "the coverage accounts for every process of every suite: got=%q want=%q", got, text)
			}
			expected[path] = true
		}
		if separate {
			vf.Reach("separate")
			if alpha < 2 {
				check(at("alpha", "c.out"), block("alpha"), "alpha")
			} else if focused {
				for n := 0; n <= procs; n++ { // what is left of it does not matter
					expected[at("alpha", "c.out")+[]string{"", ".1", ".2", ".3"}[n]] = true
				}
			}
			check(at("beta", "c.out"), block("beta"), "beta")
		} else {
			vf.Reach("cover")
			if alpha < 2 {
				check(top("c.out"), block("alpha")+block("beta"), "alpha", "beta")
			} else {
				check(top("c.out"), block("beta"), "beta")
			}
			if focused {
				for n := 0; n <= procs; n++ {
					expected[at("alpha", "c.out")+[]string{"", ".1", ".2", ".3"}[n]] = true
				}
			}
		}
	case 1:
		vf.Reach("report")
		check := func(path string, of ...string) {
			var rs []types.Report
			vf.Assert(json.Unmarshal([]byte(vzRead(path)), &rs) == nil && len(rs) == len(of), "the report has every suite once")
			for i, s := range of {
				vf.Assert(filepath.Base(rs[i].SuitePath) == s && rs[i].SuiteSucceeded == (s == "beta" || alpha != 3), "the report has every suite's own report")
			}
			expected[path] = true
		}
		if separate {
			check(at("alpha", "r.json"), "alpha")
			check(at("beta", "r.json"), "beta")
		} else {
			check(top("r.json"), "alpha", "beta")
		}
	default:
		vf.Reach("profiles")
		kind := vzProfileKinds[what-2]
		for _, s := range []string{"alpha", "beta"} {
			if s == "alpha" && alpha == 3 {
				continue
			}
			if s == "alpha" && focused {
				for n := 0; n <= procs; n++ {
					expected[at("alpha", "p.out")+[]string{"", ".1", ".2", ".3"}[n]] = true
				}
			} else {
				var want []string
				for n := 1; n <= procs; n++ {
					want = append(want, kind+" "+s+" "+strconv.Itoa(n))
				}
				got := vzComments(at(s, "p.out"))
				vf.Assertf(got == strings.Join(want, ","), "a suite's profile accounts for each of its processes: got=%q want=%q", got, strings.Join(want, ","))
			}
			expected[at(s, "p.out")] = true
			// the test binary is kept to go with the profile
			if outDir {
				expected[dir+"/out/"+s+".test"] = true
				vf.Assert(vzHas(dir+"/out/"+s+".test"), "the test binary is kept with the profile")
			}
		}
	}
	if alpha == 1 {
		vf.Reach("failed")
	}
	if focused {
		vf.Reach("focused")
	}
	if alpha == 3 {
		vf.Reach("broken")
	}
	// nothing else
	for _, d := range []string{dir + "/out", dir + "/alpha", dir + "/beta", dir} {
		entries, _ := os.ReadDir(d)
		for _, e := range entries {
			base := e.Name()
			if strings.Contains(base, "c.out") || strings.Contains(base, "r.json") || strings.Contains(base, "p.out") {
				vf.Assertf(expected[d+"/"+base], "no other file is left behind: %s", d+"/"+base)
			}
		}
	}
}
