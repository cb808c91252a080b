package internal

import (
	"os"
	"path/filepath"
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

const (
	vzUses  = "package x\n\nimport . \"github.com/onsi/ginkgo/v2\"\n"
	vzPlain = "package x\n\nimport \"testing\"\n"
)

// vzFill puts files of the given kind in a directory and says whether they make it a suite, and one of Ginkgo's.
func vzFill(dir string, kind int) (suite, ginkgo bool) {
	put := func(name, text string) { os.WriteFile(dir+"/"+name, []byte(text), 0o644) }
	switch kind {
	case 1:
		put("a_test.go", vzUses)
		return true, true
	case 2:
		put("a_test.go", vzPlain)
		return true, false
	case 3:
		put("a.go", vzUses)
	case 4:
		put("_a_test.go", vzUses)
	case 5:
		put(".a_test.go", vzUses)
	case 6:
		put("a_test.go.bak", vzUses)
		put("a_testXgo", vzUses)
	case 7:
		os.MkdirAll(dir+"/sub_test.go", 0o755)
	case 8:
		put("a.go", "package x\n")
		put("a_test.go", vzPlain)
		put("b_test.go", "package x\n\nimport (\n\t\"github.com/onsi/ginkgo/v2/dsl/core\"\n)\n")
		return true, true
	case 9:
		put("b_test.go", vzPlain)
		os.MkdirAll(dir+"/a_test.go", 0o755)
		return true, false
	}
	return false, false
}

// The suites found are the directories with test files among those asked for, each once, in order.
//
//verif:quick 100s
//verif:thorough 300s
//verif:bounds a tree of three levels with ordinary, vendor, hidden and underscored directory names, ten kinds of content; no argument, a directory, several, an absolute path, dir/..., -r, .test files that are executable or not or directories, and --skip-package with one or two entries
//verif:reach recursive vendor hidden precompiled skipped plain ginkgo
func VerifC25_FindSuites() {
	names := []string{"alpha", "vendor", ".hid", "_und", "vendored"}
	dir := vf.Dir()
	os.Chdir(dir)
	arguments := vf.Concrete(vf.Pick("arguments", 13))
	uses := func(of ...int) bool {
		for _, a := range of {
			if a == arguments {
				return true
			}
		}
		return false
	}
	d1 := names[vf.Concrete(vf.Pick("name", 5))]
	d2 := names[vf.Concrete(vf.Pick("name", 5))]
	os.MkdirAll(dir+"/"+d1+"/"+d2, 0o755)
	os.MkdirAll(dir+"/zeta", 0o755)
	os.MkdirAll(dir+"/elsewhere", 0o755)
	kinds := 3
	if vf.Tier() > 0 {
		kinds = 10
	}
	type place struct {
		path          string
		suite, ginkgo bool
	}
	places := []place{{path: "."}, {path: d1}, {path: d1 + "/" + d2}, {path: "zeta"}}
	for i := range places {
		k := 0
		switch { // what cannot be found is left out
		case i == 0 && uses(0, 1, 3):
			k = vf.Concrete(vf.Pick("kind", 2))
		case i == 1 && !uses(9, 10, 11, 12):
			k = vf.Concrete(vf.Pick("kind", 10))
		case i == 2 && !uses(0, 9, 10, 11, 12):
			k = vf.Concrete(vf.Pick("kind", kinds))
		case i == 3 && uses(1, 3, 6, 9, 10, 12):
			k = vf.Concrete(vf.Pick("kind", 2))
		}
		p := &places[i]
		p.suite, p.ginkgo = vzFill(dir+"/"+p.path, k)
	}
	cli := types.CLIConfig{}
	var args, want []string
	below := func(root string, recurse bool) {
		for _, p := range places {
			if !p.suite {
				continue
			}
			if p.path == root {
				if filepath.Base(dir+"/"+p.path) != "vendor" {
					want = append(want, p.path)
				}
				continue
			}
			rel := p.path
			if root != "." {
				if !strings.HasPrefix(rel, root+"/") {
					continue
				}
				rel = rel[len(root)+1:]
			}
			ok := recurse && filepath.Base(dir+"/"+root) != "vendor"
			for _, part := range strings.Split(rel, "/") {
				if recurse && part == "vendor" {
					vf.Reach("vendor")
				}
				if recurse && strings.ContainsAny(part[:1], "._") {
					vf.Reach("hidden")
				}
				ok = ok && part != "vendor" && !strings.ContainsAny(part[:1], "._")
			}
			if ok {
				vf.Reach("recursive")
				want = append(want, p.path)
			}
		}
	}
	precompiled := ""
	switch arguments {
	case 0:
		below(".", false)
	case 1:
		cli.Recurse = true
		below(".", true)
	case 2:
		args = []string{d1}
		below(d1, false)
	case 3:
		args = []string{"./..."}
		below(".", true)
	case 4:
		args = []string{d1 + "/..."}
		below(d1, true)
	case 5:
		args = []string{dir + "/" + d1}
		below(d1, false)
	case 6:
		args = []string{"zeta", "./" + d1 + "/"}
		below("zeta", false)
		below(d1, false)
	case 7:
		args = []string{d1}
		cli.Recurse = true
		below(d1, true)
	case 8:
		args = []string{"zeta/suite.test", d1}
		os.WriteFile(dir+"/zeta/suite.test", []byte("x"), 0o755)
		precompiled = "zeta"
		want = append(want, "zeta")
		below(d1, false)
	case 9:
		args = []string{"zeta/suite.test", "zeta"} // not executable
		os.WriteFile(dir+"/zeta/suite.test", []byte("x"), 0o644)
		below("zeta", false)
	case 10:
		args = []string{"zeta/suite", "zeta"} // not a test binary
		os.WriteFile(dir+"/zeta/suite", []byte("x"), 0o755)
		below("zeta", false)
	case 11:
		args = []string{"zeta/x.test"} // a directory
		os.MkdirAll(dir+"/zeta/x.test", 0o755)
		if s, _ := vzFill(dir+"/zeta/x.test", 1); s {
			want = append(want, "zeta/x.test")
			places = append(places, place{"zeta/x.test", true, true})
		}
	case 12:
		args = []string{"nowhere", d1 + "/../zeta"}
		below("zeta", false)
	}
	skip := []string{}
	switch vf.Concrete(vf.Pick("skip", 4)) {
	case 1:
		skip = []string{d1}
	case 2:
		skip = []string{"nothing", "eta"}
	case 3:
		skip = []string{d1 + "/", "zzz"}
	}
	cli.SkipPackage = strings.Join(skip, ",")
	suites := FindSuites(args, cli, true)
	vf.Assert(len(suites) == len(want), "as many suites as there are")
	for i, s := range suites {
		vf.Assert(filepath.Clean(s.Path) == want[i], "the suites in order")
		vf.Assert(s.AbsPath() == filepath.Join(dir, want[i]), "the place of a suite")
		if s.Precompiled {
			vf.Reach("precompiled")
			vf.Assert(precompiled == want[i] && s.IsGinkgo && s.PackageName == "suite" && s.PathToCompiledTest == dir+"/zeta/suite.test", "a precompiled suite")
		} else {
			vf.Assert(s.PathToCompiledTest == "", "a suite that has to be compiled")
			for _, p := range places {
				if p.path == want[i] {
					vf.Assert(s.IsGinkgo == p.ginkgo, "whether the suite is Ginkgo's")
					if p.ginkgo {
						vf.Reach("ginkgo")
					} else {
						vf.Reach("plain")
					}
				}
			}
			vf.Assert(s.PackageName == filepath.Base(s.AbsPath()), "a suite has its directory's name")
		}
		skipped := false
		for _, f := range skip {
			skipped = skipped || strings.Contains("./"+want[i], f)
		}
		if skipped {
			vf.Reach("skipped")
		}
		vf.Assert(s.State.Is(TestSuiteStateSkippedByFilter) == skipped, "skipped exactly when a filter matches its path")
		vf.Assert(skipped || s.State.Is(TestSuiteStateCompiled) == s.Precompiled, "its state")
	}
	n := 0
	for _, s := range suites.ShuffledCopy(7) {
		for _, t := range suites {
			if s.Path == t.Path {
				n++
			}
		}
	}
	vf.Assert(n == len(suites), "shuffled suites are the same suites")
	vf.Observe("suites", len(suites))
}
