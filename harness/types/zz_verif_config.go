package types

import (
	"flag"
	"io"
	"reflect"
	"time"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
)

// vzTestProcess makes the flags of a test binary: they are attached to the command line's flag set, next to the flags
// package testing registers.
func vzTestProcess(sc *SuiteConfig, rc *ReporterConfig) GinkgoFlagSet {
	flag.CommandLine = flag.NewFlagSet("suite.test", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	flag.CommandLine.Int("test.count", 1, "")
	flag.CommandLine.Int("test.parallel", 1, "")
	flag.CommandLine.Bool("test.v", false, "")
	for _, s := range []string{"coverprofile", "blockprofile", "cpuprofile", "memprofile", "mutexprofile", "trace"} {
		flag.CommandLine.String("test."+s, "", "")
	}
	for _, s := range []string{"blockprofilerate", "memprofilerate", "mutexprofilefraction"} {
		flag.CommandLine.Int("test."+s, 1, "")
	}
	*sc, *rc = NewDefaultSuiteConfig(), NewDefaultReporterConfig()
	fs, err := BuildTestSuiteFlagSet(sc, rc)
	vf.Assert(err == nil, "the test process can build its flags")
	return fs
}

// vzFields are the settings of a test run: the name of the flag that sets each, as documented, and how to set it.
// kind: b bool, s string, l list, i int, d duration.
type vzField struct {
	flag string
	kind byte
	s    func(*SuiteConfig, *ReporterConfig) any
}

func vzFields() []vzField {
	return []vzField{
		{"seed", 'I', func(s *SuiteConfig, r *ReporterConfig) any { return &s.RandomSeed }},
		{"randomize-all", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &s.RandomizeAllSpecs }},
		{"focus", 'l', func(s *SuiteConfig, r *ReporterConfig) any { return &s.FocusStrings }},
		{"skip", 'l', func(s *SuiteConfig, r *ReporterConfig) any { return &s.SkipStrings }},
		{"focus-file", 'l', func(s *SuiteConfig, r *ReporterConfig) any { return &s.FocusFiles }},
		{"skip-file", 'l', func(s *SuiteConfig, r *ReporterConfig) any { return &s.SkipFiles }},
		{"label-filter", 's', func(s *SuiteConfig, r *ReporterConfig) any { return &s.LabelFilter }},
		{"fail-on-pending", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &s.FailOnPending }},
		{"fail-on-empty", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &s.FailOnEmpty }},
		{"fail-fast", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &s.FailFast }},
		{"flake-attempts", 'i', func(s *SuiteConfig, r *ReporterConfig) any { return &s.FlakeAttempts }},
		{"dry-run", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &s.DryRun }},
		{"poll-progress-after", 'd', func(s *SuiteConfig, r *ReporterConfig) any { return &s.PollProgressAfter }},
		{"poll-progress-interval", 'd', func(s *SuiteConfig, r *ReporterConfig) any { return &s.PollProgressInterval }},
		{"source-root", 'l', func(s *SuiteConfig, r *ReporterConfig) any { return &s.SourceRoots }},
		{"timeout", 'd', func(s *SuiteConfig, r *ReporterConfig) any { return &s.Timeout }},
		{"grace-period", 'd', func(s *SuiteConfig, r *ReporterConfig) any { return &s.GracePeriod }},
		{"output-interceptor-mode", 's', func(s *SuiteConfig, r *ReporterConfig) any { return &s.OutputInterceptorMode }},
		{"no-color", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.NoColor }},
		{"v", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.Verbose }},
		{"vv", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.VeryVerbose }},
		{"succinct", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.Succinct }},
		{"trace", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.FullTrace }},
		{"show-node-events", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.ShowNodeEvents }},
		{"github-output", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.GithubOutput }},
		{"silence-skips", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.SilenceSkips }},
		{"force-newlines", 'b', func(s *SuiteConfig, r *ReporterConfig) any { return &r.ForceNewlines }},
		{"json-report", 's', func(s *SuiteConfig, r *ReporterConfig) any { return &r.JSONReport }},
		{"junit-report", 's', func(s *SuiteConfig, r *ReporterConfig) any { return &r.JUnitReport }},
		{"teamcity-report", 's', func(s *SuiteConfig, r *ReporterConfig) any { return &r.TeamcityReport }},
	}
}

var vzDurations = []time.Duration{0, 1, 1500 * time.Millisecond, 30 * time.Second, 90 * time.Minute, -time.Second, 1<<63 - 1}
var vzDurationTexts = []string{"0", "1ns", "1.5s", "0m30s", "1h30m", "-1s", "9223372036854775807ns"}
var vzInts = []int{0, 1, 7, -3, 1<<62 + 5}
var vzIntTexts = []string{"0", "1", "0x7", "-3", "4611686018427387909"}

// vzText is a text as a user may give it: short, any bytes, including the characters flags give a meaning.
func vzText(n int) string {
	b := make([]byte, vf.Concrete(vf.Int("length", 0, n)))
	for i := range b {
		b[i] = vf.Byte("byte")
	}
	return string(b)
}

// vzSet gives a field a value and returns the arguments with which a user gives it that value.
func vzSet(f vzField, at any, free bool) []string {
	n := 2
	if !free {
		n = 0
	}
	text := func() string {
		if free {
			return vzText(n)
		}
		return []string{"", "a=b", "--x y"}[vf.Pick("fixed text", 3)]
	}
	switch p := at.(type) {
	case *bool:
		*p = true
		switch vf.Pick("form", 3) {
		case 0:
			return []string{"-" + f.flag}
		case 1:
			return []string{"--" + f.flag + "=true"}
		}
		*p = false
		return []string{"--" + f.flag + "=false"}
	case *string:
		*p = text()
		if vf.Bool("two arguments") {
			return []string{"--" + f.flag, *p}
		}
		return []string{"--" + f.flag + "=" + *p}
	case *[]string:
		args := []string{}
		k := 1 + vf.Pick("values", 2)
		for i := 0; i < k; i++ {
			t := text()
			*p = append(*p, t)
			args = append(args, "--"+f.flag+"="+t)
		}
		return args
	case *int:
		i := vf.Concrete(vf.Pick("int", len(vzInts)))
		*p = vzInts[i]
		return []string{"-" + f.flag + "=" + vzIntTexts[i]}
	case *int64:
		i := vf.Concrete(vf.Pick("int", len(vzInts)))
		*p = int64(vzInts[i])
		return []string{"-" + f.flag, vzIntTexts[i]}
	case *time.Duration:
		i := vf.Concrete(vf.Pick("duration", len(vzDurations)))
		*p = vzDurations[i]
		return []string{"--" + f.flag + "=" + vzDurationTexts[i]}
	}
	panic("field kind")
}

// What a user asks for on the ginkgo command line is what every test process runs with.
//
//verif:quick 120s
//verif:thorough 400s
//verif:bounds any two (quick: any one, and fixed pairs) of the 30 settings of a run, given in any order and in every syntax, with texts of up to 2 arbitrary bytes, 7 durations, 5 integers, lists of up to 2 values, each process of up to 3
//verif:reach single pair parallel
func VerifC19_RoundTrip() {
	fields := vzFields()
	sc, rc := NewDefaultSuiteConfig(), NewDefaultReporterConfig()
	sc.RandomSeed = 17
	cc, gc := NewDefaultCLIConfig(), NewDefaultGoFlagsConfig()
	fs, err := BuildRunCommandFlagSet(&sc, &rc, &cc, &gc)
	vf.Assert(err == nil, "the command line tool can build its flags")
	var ps SuiteConfig
	var pr ReporterConfig
	pfs := vzTestProcess(&ps, &pr)
	wantS, wantR := sc, rc
	i := vf.Pick("first", len(fields))
	args := vzSet(fields[i], fields[i].s(&wantS, &wantR), true)
	if vf.Bool("second setting") {
		vf.Reach("pair")
		j := vf.Pick("second", len(fields))
		vf.Assume(j != i)
		if vf.Tier() == 0 {
			vf.Assume((j*7+i*3)%10 == 0)
		}
		more := vzSet(fields[j], fields[j].s(&wantS, &wantR), false)
		if vf.Bool("swap") {
			args = append(more, args...)
		} else {
			args = append(args, more...)
		}
	} else {
		vf.Reach("single")
	}
	if vf.Bool("packages") {
		args = append(args, "pkg", "--", "--focus=passed through")
	}

	_, err = fs.Parse(args)
	vf.Assert(err == nil, "documented flags are accepted")
	vf.Assert(vzSame(sc, wantS) && vzSame(rc, wantR), "each flag sets its setting and nothing else")
	vf.Assert(vzSame(cc, NewDefaultCLIConfig()) && vzSame(gc, NewDefaultGoFlagsConfig()), "each flag sets its setting and nothing else")

	vf.Assume(sc.GracePeriod > 0) // the command line tool rejects anything else: VerifC19_Vet

	total := 1 + 2*vf.Concrete(vf.Pick("procs", 2))
	sc.ParallelTotal = total
	sc.ParallelProcess = 1 + vf.Concrete(vf.Pick("process", total))
	if total > 1 {
		sc.ParallelHost = "127.0.0.1:12345"
		vf.Reach("parallel")
	}
	runArgs, err := GenerateGinkgoTestRunArgs(sc, rc, gc)
	vf.Assert(err == nil, "the test process's arguments can be generated")
	rest, err := pfs.Parse(runArgs)
	vf.Observe("args", len(runArgs))
	vf.Assert(err == nil && len(rest) == 0, "the test process accepts the arguments it is given")
	vf.Assert(vzSame(pr, rc), "the test process reports as asked on the command line")
	vf.Assert(vzSame(ps, sc), "the test process runs with the settings given on the command line")
}

func vzSame(a, b any) bool { return reflect.DeepEqual(a, b) }

// A configuration is rejected exactly when it is unsound, with one error per defect.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds every process number, process total, grace period; with and without a host, dry run, label filter, file filters, go test's -count and -parallel (given or not, any of 4 values), 6 interception modes and all combinations of verbosity flags
//verif:reach sound unsound
func VerifC19_Vet() {
	sc, rc := NewDefaultSuiteConfig(), NewDefaultReporterConfig()
	fs := vzTestProcess(&sc, &rc)
	sc, rc = NewDefaultSuiteConfig(), NewDefaultReporterConfig()
	want := 0
	fault := func(b bool) { want += vf.IteInt(b, 1, 0) }
	sc.ParallelTotal = vf.Int("total", -1, 4)
	sc.ParallelProcess = vf.Int("process", -1, 5)
	fault(sc.ParallelTotal < 1)
	fault(vf.Or(sc.ParallelProcess < 1, sc.ParallelProcess > sc.ParallelTotal))
	host := vf.Bool("host")
	if host {
		sc.ParallelHost = "127.0.0.1:1"
	}
	fault(vf.And(sc.ParallelTotal > 1, !host))
	sc.DryRun = vf.Bool("dry run")
	fault(vf.And(sc.DryRun, sc.ParallelTotal > 1))
	switch vf.Pick("aspect", 5) {
	case 0:
		sc.GracePeriod = time.Duration(vf.Int64("grace"))
		fault(sc.GracePeriod <= 0)
	case 1:
		i := vf.Pick("mode", 7)
		sc.OutputInterceptorMode = []string{"", "dup", "DUP", "swap", "None", "dups", "-"}[vf.Concrete(i)]
		fault(i >= 5)
	case 2:
		rc.Succinct, rc.Verbose, rc.VeryVerbose = vf.Bool("succinct"), vf.Bool("v"), vf.Bool("vv")
		fault(vf.IteInt(rc.Succinct, 1, 0)+vf.IteInt(rc.Verbose, 1, 0)+vf.IteInt(rc.VeryVerbose, 1, 0) > 1)
	case 3:
		args := []string{}
		if vf.Bool("count") {
			i := vf.Concrete(vf.Pick("count value", 4))
			args = append(args, []string{"--test.count=1", "--test.count=2", "--test.count=0", "--test.count=-1"}[i])
			fault(i != 0)
		}
		if vf.Bool("go parallel") {
			args = append(args, "--test.parallel=1")
			fault(true)
		}
		keep := sc
		_, err := fs.Parse(args)
		vf.Assert(err == nil, "go test's own flags are accepted")
		sc = keep
	case 4:
		if vf.Bool("bad label filter") {
			sc.LabelFilter = "a && (b"
			fault(true)
		} else {
			sc.LabelFilter = "a && (b)"
		}
		switch vf.Concrete(vf.Pick("focus files", 3)) {
		case 1:
			sc.FocusFiles = []string{"a_test.go:3-5"}
		case 2:
			sc.FocusFiles = []string{"ok", "a_test.go:x"}
			fault(true)
		}
		switch vf.Concrete(vf.Pick("skip files", 3)) {
		case 1:
			sc.SkipFiles = []string{"a_test.go:3,5"}
		case 2:
			sc.SkipFiles = []string{"a_test.go:5-3x"}
			fault(true)
		}
	}
	errs := VetConfig(fs, sc, rc)
	if len(errs) > 0 {
		vf.Reach("unsound")
	} else {
		vf.Reach("sound")
	}
	vf.Observe("errors", len(errs))
	vf.Assert(len(errs) == want, "a configuration is rejected exactly for its defects")
}

// The flags of go build and go test that ginkgo documents, by kind: b for a switch, s for a flag with a value, i for a
// flag with a number. ld and coverage flags have rules of their own.
var vzGoBuild = []string{"b race", "b a", "b buildvcs", "b linkshared", "b modcacherw", "b n", "b msan", "b trimpath", "b work", "b x", "b cover",
	"s vet", "s covermode", "s coverpkg", "s asmflags", "s buildmode", "s compiler", "s gccgoflags", "s gcflags", "s installsuffix", "s ldflags", "s mod", "s modfile", "s pkgdir", "s tags", "s toolexec", "s o"}
var vzGoRun = []string{"s coverprofile", "s blockprofile", "i blockprofilerate", "s cpuprofile", "s memprofile", "i memprofilerate", "s mutexprofile", "i mutexprofilefraction", "s execution-trace"}

// Go flags given to ginkgo reach go test -c and the test binary: each once, with its value, and nothing else does.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds any one or two of the 36 go flags, values of 1-2 arbitrary bytes (fixed values for numbers, profiles and coverage packages), symbols preserved or not, an invocation path
//verif:reach build run cover symbols coverpkg
func VerifC19_GoFlags() {
	sc, rc := NewDefaultSuiteConfig(), NewDefaultReporterConfig()
	cc, gc := NewDefaultCLIConfig(), NewDefaultGoFlagsConfig()
	fs, err := BuildRunCommandFlagSet(&sc, &rc, &cc, &gc)
	vf.Assert(err == nil, "the command line tool can build its flags")
	wantBuild, wantRun := map[string]string{}, map[string]string{}
	cover, profile, keepSymbols := false, false, vf.Bool("preserve symbols")
	vcsOff := false
	ld := ""
	args := []string{}
	n := 1 + vf.Concrete(vf.Pick("flags", 2))
	last := -1
	for k := 0; k < n; k++ {
		i := vf.Concrete(vf.Pick("flag", len(vzGoBuild)+len(vzGoRun)))
		vf.Assume(i > last)
		last = i
		f, into, prefix := "", wantBuild, "--"
		if i < len(vzGoBuild) {
			f = vzGoBuild[i]
			vf.Reach("build")
		} else {
			f = vzGoRun[i-len(vzGoBuild)]
			into, prefix = wantRun, "--test."
			vf.Reach("run")
		}
		name := f[2:]
		target := name
		switch f[0] {
		case 'b':
			if vf.Bool("off") {
				args = append(args, "--"+name+"=false")
				if name == "buildvcs" { // the one that go build does not leave off by default
					vcsOff = true
				}
				continue
			}
			args = append(args, "--"+name)
			into[prefix+target] = ""
			cover = cover || name == "cover"
		case 'i':
			args = append(args, "--"+name+"=5")
			into[prefix+target] = "=5"
		case 's':
			v := ""
			switch name {
			case "coverpkg":
				vf.Reach("coverpkg")
				j := vf.Concrete(vf.Pick("coverpkg", 4))
				v = []string{"./...", "foo, ./a/b", "./a,example.com/b,./c/...", "all"}[j]
				args = append(args, "--coverpkg="+v)
				v = []string{"./../..", "foo,./../../a/b", "./../../a,example.com/b,./../../c/...", "all"}[j]
				if j == 0 {
					v = "./../../..."
				}
				cover = true
			case "coverprofile", "blockprofile", "cpuprofile", "memprofile", "mutexprofile":
				v = "some.out"
				args = append(args, "--"+name+"="+v)
				if name == "coverprofile" {
					cover = true
				} else {
					profile = true
				}
			default:
				if name == "execution-trace" {
					target = "trace"
				}
				v = vzText(2)
				vf.Assume(v != "")
				args = append(args, "--"+name+"="+v)
				cover = cover || name == "covermode"
			}
			if name == "ldflags" {
				ld = v
				continue
			}
			into[prefix+target] = "=" + v
		}
	}
	if cover {
		vf.Reach("cover")
		wantBuild["--cover"] = ""
		if _, ok := wantRun["--test.coverprofile"]; !ok {
			wantRun["--test.coverprofile"] = "=coverprofile.out"
		}
	}
	switch {
	case ld != "":
		wantBuild["--ldflags"] = "=" + ld
	case !profile && !keepSymbols:
		wantBuild["--ldflags"] = "=-w -s"
	default:
		vf.Reach("symbols")
	}
	_, err = fs.Parse(args)
	vf.Assert(err == nil, "go's flags are accepted")
	_, gc, errs := VetAndInitializeCLIAndGoConfig(cc, gc)
	vf.Assert(len(errs) == 0, "go's flags are accepted")

	got, err := GenerateGoTestCompileArgs(gc, "./", "../..", keepSymbols)
	vf.Assert(err == nil && len(got) >= 3 && got[0] == "test" && got[1] == "-c" && got[2] == "./", "the suite is compiled with go test -c")
	passed := false
	if vcsOff && vzCountArg(got, "--buildvcs=false") == 1 {
		passed = true
		wantBuild["--buildvcs"] = "=false"
	}
	vzArgs(got[3:], wantBuild, "go build flags reach go test -c unchanged")
	got, err = GenerateGoTestRunArgs(gc)
	wantRun["--test.v"] = ""
	vf.Assert(err == nil, "go's run flags can be passed on")
	vzArgs(got, wantRun, "go's run flags reach a go test binary unchanged")
	got, err = GenerateGinkgoTestRunArgs(sc, rc, gc)
	vf.Assert(err == nil, "go's run flags can be passed on")
	test := []string{}
	for _, a := range got {
		if len(a) > 7 && a[:7] == "--test." {
			test = append(test, a)
		}
	}
	delete(wantRun, "--test.v")
	vzArgs(test, wantRun, "go's run flags reach a ginkgo test binary unchanged")
	vf.Assert(!vcsOff || passed, "--buildvcs=false reaches go test -c")
}

func vzArgs(got []string, want map[string]string, msg string) {
	vf.Assert(len(got) == len(want), msg)
	for name, v := range want {
		vf.Assert(vzCountArg(got, name+v) == 1, msg)
	}
}

func vzCountArg(got []string, a string) int {
	n := 0
	for _, g := range got {
		if g == a {
			n++
		}
	}
	return n
}
