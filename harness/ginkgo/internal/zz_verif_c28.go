package internal

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
	"golang.org/x/tools/cover"
)

// vzIn says how often the suite appears in a report of the format, and how many suites there are.
func vzIn(format int, path, suite string) (n, all int) {
	data, err := os.ReadFile(path)
	if err != nil {
		return -1, -1
	}
	switch format {
	case 0:
		var reports []types.Report
		if json.Unmarshal(data, &reports) != nil {
			return -1, -1
		}
		for _, r := range reports {
			if r.SuitePath == suite {
				n++
			}
		}
		return n, len(reports)
	case 1:
		var suites reporters.JUnitTestSuites
		if xml.NewDecoder(strings.NewReader(string(data))).Decode(&suites) != nil {
			return -1, -1
		}
		tests := 0
		for _, s := range suites.TestSuites {
			if s.Package == suite {
				n++
			}
			tests += s.Tests
		}
		vf.Assert(suites.Tests == tests, "the total of the merged report is the sum of those of its suites")
		return n, len(suites.TestSuites)
	}
	for _, line := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(line, "##teamcity[testSuiteStarted") {
			all++
			if strings.Contains(line, "'"+filepath.Base(suite)+"'") {
				n++
			}
		}
	}
	return n, all
}

// When a run is over there is one report that accounts for every suite: those that ran, with what they reported,
// and those that did not, with the reason.
//
//verif:quick 60s
//verif:thorough 300s
//verif:bounds two suites (three in the thorough tier), each passed, failed, not compiled, out of time, skipped after a failure, without tests, crashed before it reported, left a damaged report, or not Ginkgo's; three formats, the name of the report, an output directory or none, separate reports kept or not, coverage asked for or not and its profile there or not
//verif:reach merged kept crashed damaged noncompiled cover coverlost
func VerifC28_Reports() {
	dir := vf.Dir()
	os.Chdir(dir)
	format := vf.Concrete(vf.Pick("format", 3))
	conf := types.CLIConfig{KeepSeparateReports: vf.Concrete(vf.Pick("keep separate reports", 2)) == 1}
	outputs := vf.Concrete(vf.Pick("output directory", 2)) == 1
	out := dir
	if outputs {
		conf.OutputDir = "out"
		out = dir + "/out"
		os.MkdirAll(out, 0o755)
	}
	var rep types.ReporterConfig
	generate := reporters.GenerateJSONReport
	switch format {
	case 0:
		rep.JSONReport = "report"
	case 1:
		rep.JUnitReport = "report"
		generate = reporters.GenerateJUnitReport
	case 2:
		rep.TeamcityReport = "report"
		generate = reporters.GenerateTeamcityReport
	}
	goFlags := types.GoFlagsConfig{}
	cover := vf.Concrete(vf.Pick("coverage", 3)) // none, with a profile, with a profile that is missing
	if cover > 0 {
		goFlags.Cover, goFlags.CoverProfile = true, "cover.out"
	}
	n := 2
	if vf.Tier() > 0 {
		n = 3
	}
	names := []string{"alpha", "be ta/gamma", "delta"}
	var suites TestSuites
	want := map[string]int{}
	separate := map[string]string{}
	total := 0
	lost := []string{}
	reasons := map[string]string{}
	covered := false
	for i := 0; i < n; i++ {
		abs := dir + "/" + names[i]
		os.MkdirAll(abs, 0o755)
		s := TestSuite{Path: "./" + names[i], PackageName: filepath.Base(names[i]), IsGinkgo: true}
		at := abs + "/report"
		if outputs {
			at = out + "/" + []string{"alpha", "be_ta_gamma", "delta"}[i] + "_report"
		}
		separate[abs] = at
		wrote, crashed := true, false
		switch vf.Concrete(vf.Pick("suite", 9)) {
		case 0:
			s.State = TestSuiteStatePassed
		case 1:
			s.State = TestSuiteStateFailed
		case 2:
			s.State, s.CompilationError, reasons[abs], wrote = TestSuiteStateFailedToCompile, errors.New("it does not compile"), "it does not compile", false
			vf.Reach("noncompiled")
		case 3:
			s.State, reasons[abs], wrote = TestSuiteStateFailedDueToTimeout, TIMEOUT_ELAPSED_FAILURE_REASON, false
		case 4:
			s.State, reasons[abs], wrote = TestSuiteStateSkippedDueToPriorFailures, PRIOR_FAILURES_FAILURE_REASON, false
		case 5:
			s.State, reasons[abs], wrote = TestSuiteStateSkippedDueToEmptyCompilation, EMPTY_SKIP_FAILURE_REASON, false
		case 6:
			s.State, wrote, crashed = TestSuiteStateFailed, false, true
			vf.Reach("crashed")
		case 7:
			s.State, wrote = TestSuiteStateFailed, false
			if format != 2 {
				os.WriteFile(at, []byte("[{ half a rep"), 0o644)
				crashed = true
				vf.Reach("damaged")
			} else {
				generate(types.Report{SuitePath: abs, SuiteDescription: filepath.Base(abs)}, at)
				wrote = true
			}
		case 8:
			s.State, s.IsGinkgo, wrote = TestSuiteStatePassed, false, false
		}
		if wrote {
			r := types.Report{SuitePath: abs, SuiteDescription: filepath.Base(abs), SuiteSucceeded: s.State == TestSuiteStatePassed}
			r.SpecReports = types.SpecReports{{LeafNodeType: types.NodeTypeIt, LeafNodeText: "spec", State: types.SpecStatePassed}}
			vf.Assert(generate(r, at) == nil, "the suite writes its report")
		}
		if s.IsGinkgo {
			if crashed {
				lost = append(lost, at)
				separate[abs] = ""
			} else {
				want[abs] = 1
				total++
			}
		}
		if cover > 0 && (s.State == TestSuiteStatePassed || s.State == TestSuiteStateFailed) {
			covered = true
			profile := abs + "/cover.out"
			if outputs {
				profile = strings.TrimSuffix(at, "_report") + "_cover.out"
			}
			if cover == 1 {
				os.WriteFile(profile, []byte("mode: atomic\nf.go:1.2,3.4 1 1\n"), 0o644)
			}
		}
		suites = append(suites, s)
	}
	os.MkdirAll(dir+"/bin", 0o755)
	os.WriteFile(dir+"/bin/go", []byte("#!/bin/sh\nprintf 'total:\\t(statements)\\t50.0%%\\n'\n"), 0o755)
	os.Setenv("PATH", dir+"/bin:"+os.Getenv("PATH"))
	vf.Exec = func(c *exec.Cmd) int {
		vf.WriteOut(c.Stdout, "total:\t(statements)\t50.0%\n")
		return 0
	}
	messages, err := FinalizeProfilesAndReportsForSuites(suites, conf, types.SuiteConfig{}, rep, goFlags)
	if covered && cover == 2 {
		vf.Assert(err != nil, "it is an error when coverage is missing")
		vf.Reach("coverlost")
	} else {
		if covered {
			vf.Assert(strings.Contains(strings.Join(messages, "\n"), "composite coverage: 50.0%"), "the coverage is told")
			vf.Reach("cover")
		}
		vf.Assert(err == nil, "the run is finalized")
	}
	for _, at := range lost {
		told := conf.KeepSeparateReports
		for _, m := range messages {
			if strings.Contains(m, at) {
				told = true
			}
		}
		vf.Assert(told, "it is told when the report of a suite is not there")
	}
	merged := out + "/report"
	for i := 0; i < n; i++ {
		abs := dir + "/" + names[i]
		if conf.KeepSeparateReports {
			if want[abs] == 1 {
				k, _ := vzIn(format, separate[abs], abs)
				if format == 2 && reasons[abs] != "" {
					vf.Assert(k >= 0, "a report of its own is kept for every suite")
				} else {
					vf.Assert(k == 1, "a report of its own is kept for every suite")
				}
				vf.Reach("kept")
			}
			continue
		}
		k, all := vzIn(format, merged, abs)
		vf.Assert(all == total, "the merged report has all the suites and nothing else")
		if format != 2 || reasons[abs] == "" {
			vf.Assert(k == want[abs], "the merged report accounts for every suite")
		}
		if k == 1 {
			_, err := os.Stat(separate[abs])
			vf.Assert(err != nil, "the separate reports are removed")
			vf.Reach("merged")
		}
	}
	if format == 0 {
		for i := 0; i < n; i++ {
			abs := dir + "/" + names[i]
			from := merged
			if conf.KeepSeparateReports {
				from = separate[abs]
			}
			data, _ := os.ReadFile(from)
			var reports []types.Report
			json.Unmarshal(data, &reports)
			for _, r := range reports {
				if r.SuitePath != abs {
					continue
				}
				if reasons[abs] == "" {
					vf.Assert(r.SuiteSucceeded == (suites[i].State == TestSuiteStatePassed) && len(r.SpecReports) == 1, "what the suite reported is kept")
				} else {
					vf.Assert(r.SuiteSucceeded == (suites[i].State == TestSuiteStateSkippedDueToEmptyCompilation), "a suite that did not run as it should has not succeeded")
					vf.Assert(len(r.SpecialSuiteFailureReasons) == 1 && r.SpecialSuiteFailureReasons[0] == reasons[abs], "it is told why a suite did not run")
				}
			}
		}
	}
}

// Two suites never share the files they write to.
//
//verif:quick 20s
//verif:bounds six pairs of paths
func VerifC28_Names() {
	pairs := [][]string{{"./a/b", "./a_b"}, {"./a b", "./a_b"}, {"../a", "./a"}, {"./a", "./b"}, {"./a/b", "./a/c"}, {"./a", "./a/a"}}
	what := []string{"a/b and a_b", "'a b' and a_b", "../a and ./a", "a and b", "a/b and a/c", "a and a/a"}
	dir := vf.Dir() + "/in"
	os.MkdirAll(dir, 0o755)
	os.Chdir(dir)
	p := vf.Concrete(vf.Pick("paths", len(pairs)))
	conf := types.CLIConfig{}
	where := "next to the suite"
	if vf.Concrete(vf.Pick("output directory", 2)) == 1 {
		conf.OutputDir = "out"
		where = "in an output directory"
	}
	process := vf.Concrete(vf.Pick("process", 2))
	a := AbsPathForGeneratedAsset("report", TestSuite{Path: pairs[p][0], PackageName: "a"}, conf, process)
	b := AbsPathForGeneratedAsset("report", TestSuite{Path: pairs[p][1], PackageName: "b"}, conf, process)
	vf.Assert(a != b, "the suites "+what[p]+" have files of their own "+where)
	vf.Assert(a != AbsPathForGeneratedAsset("report", TestSuite{Path: pairs[p][0], PackageName: "a"}, conf, 2), "the processes of a suite have files of their own")
}

type vzBlock struct{ line, col, endLine, endCol, stmts int }

// Coverage merged from several profiles counts every execution in each of them.
//
//verif:quick 30s
//verif:thorough 200s
//verif:bounds two or three profiles of up to two files with up to three blocks each, anywhere in the file, any of which may be absent from a profile; symbolic counts; the three modes
//verif:reach set count lastmissing newfile
func VerifC28_CoverMerge() {
	modes := []string{"set", "count", "atomic"}
	mode := modes[vf.Concrete(vf.Pick("mode", 3))]
	var blocks []vzBlock
	endLine, endCol := 1, 1
	for i := 0; i < 3; i++ {
		b := vzBlock{vf.Int("line", 1, 1<<20), vf.Int("col", 1, 1<<10), vf.Int("endLine", 1, 1<<20), vf.Int("endCol", 1, 1<<10), i + 1}
		vf.Assume(vf.Or(b.line > endLine, vf.And(b.line == endLine, b.col >= endCol)))
		vf.Assume(vf.Or(b.endLine > b.line, vf.And(b.endLine == b.line, b.endCol > b.col)))
		endLine, endCol = b.endLine, b.endCol
		blocks = append(blocks, b)
	}
	files := []string{"a.go", "b.go"}
	n := 2
	if vf.Tier() > 0 {
		n = 3
	}
	var merged []*cover.Profile
	var sum [2][3]int
	var have [2][3]bool
	for i := 0; i < n; i++ {
		which := 1 + vf.Concrete(vf.Pick("files", 3))
		for f := range files {
			if which&(1<<f) == 0 {
				continue
			}
			mask := 7
			if f == 0 {
				mask = 1 + vf.Concrete(vf.Pick("blocks", 7))
			}
			p := &cover.Profile{FileName: files[f], Mode: mode}
			for b, bl := range blocks {
				if mask&(1<<b) == 0 {
					continue
				}
				count := vf.Int("count", 0, 1<<30)
				if mode == "set" {
					vf.Assume(count <= 1)
					sum[f][b] |= count
				} else {
					sum[f][b] += count
				}
				have[f][b] = true
				p.Blocks = append(p.Blocks, cover.ProfileBlock{StartLine: bl.line, StartCol: bl.col, EndLine: bl.endLine, EndCol: bl.endCol, NumStmt: bl.stmts, Count: count})
			}
			if i > 0 && mask == 7 {
				vf.Reach("lastmissing")
			}
			if i > 0 {
				vf.Reach("newfile")
			}
			merged = AddCoverProfile(merged, p)
		}
	}
	vf.Reach(mode)
	if mode == "atomic" {
		vf.Reach("count")
	}
	last := ""
	seen := 0
	for _, p := range merged {
		vf.Assert(p.FileName > last && p.Mode == mode, "every file is there once, in order")
		last = p.FileName
		f := 0
		if p.FileName == "b.go" {
			f = 1
		}
		for k, bl := range p.Blocks {
			found := false
			for b, w := range blocks {
				if bl.StartLine == w.line && bl.StartCol == w.col {
					found = true
					vf.Assert(have[f][b] && bl.EndLine == w.endLine && bl.EndCol == w.endCol && bl.NumStmt == w.stmts, "a merged block is one of those merged")
					vf.Assert(bl.Count == sum[f][b], "a merged block counts every execution")
					seen++
				}
			}
			vf.Assert(found, "there are no other blocks")
			if k > 0 {
				q := p.Blocks[k-1]
				vf.Assert(q.StartLine < bl.StartLine || q.StartLine == bl.StartLine && q.StartCol < bl.StartCol, "the blocks of a file are in order, each once")
			}
		}
	}
	all := 0
	for f := range have {
		for b := range have[f] {
			if have[f][b] {
				all++
			}
		}
	}
	vf.Assert(seen == all, "no block is lost")
}

// The same from file to file.
//
//verif:quick 30s
//verif:thorough 100s
//verif:bounds two profile files of two source files with counts 0, 1 or 12; the destination is new or one of the profiles; a profile that is missing or damaged
//verif:reach merged missing damaged
func VerifC28_CoverFiles() {
	dir := vf.Dir()
	profiles := []string{dir + "/one.out", dir + "/two.out"}
	counts := []int{0, 1, 12}
	want := map[string]int{}
	bad := 0
	for i, p := range profiles {
		if i == 1 {
			bad = vf.Concrete(vf.Pick("second profile", 3))
			if bad == 1 {
				continue
			}
			if bad == 2 {
				os.WriteFile(p, []byte("mode: count\na.go:1.2,3.4\n"), 0o644)
				continue
			}
		}
		text := "mode: count\n"
		for _, block := range []string{"z/b.go:1.2,3.4 1", "a.go:5.1,6.2 2", "a.go:1.2,3.4 1"} {
			c := counts[vf.Concrete(vf.Pick("count", 3))]
			want[block] += c
			text += block + " " + strconv.Itoa(c) + "\n"
		}
		os.WriteFile(p, []byte(text), 0o644)
	}
	dst := dir + "/merged.out"
	if vf.Concrete(vf.Pick("destination", 2)) == 1 {
		dst = profiles[0]
	}
	err := MergeAndCleanupCoverProfiles(profiles, dst)
	if bad > 0 {
		vf.Assert(err != nil, "a profile that cannot be read is an error")
		vf.Reach([]string{"", "missing", "damaged"}[bad])
		return
	}
	vf.Assert(err == nil, "the profiles are merged")
	data, _ := os.ReadFile(dst)
	text := "mode: count\n"
	for _, block := range []string{"a.go:1.2,3.4 1", "a.go:5.1,6.2 2", "z/b.go:1.2,3.4 1"} {
		text += block + " " + strconv.Itoa(want[block]) + "\n"
	}
	vf.Assert(string(data) == text, "the merged profile has the sums, and files and blocks in order")
	for _, p := range profiles {
		if p != dst {
			_, err := os.Stat(p)
			vf.Assert(err != nil, "the merged profiles are removed")
		}
	}
	vf.Reach("merged")
}
