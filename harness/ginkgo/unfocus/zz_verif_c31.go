package unfocus

import (
	"errors"
	"go/scanner"
	"go/token"
	"os"
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
)

// In the pieces of source below what stands between < and > is to go.
var vzPieces = []string{
	"var _ = <F>Describe(`x`, func() {\n\t<F>Context(`a`, func() {\n\t\t<F>It(`b`, func() {})\n\t\t<F>Specify(`c`, func() {}); It(`d`, func() {})\n\t})\n\t<F>When(`e`, Label(`f`), func() {})\n})\n",
	"var _ = <F>DescribeTable(`x`, func(i int) {},\n\t<F>Entry(`a`, 1),\n\tEntry(`b`, <Focus,> 2),\n\t<F>Entry(nil, <Focus,> Label(`c`), 3),\n)\n",
	"var _ = <F>DescribeTableSubtree(`x`, func(i int) {}, Entry(`a`, 1))\n",
	"var _ = g.<F>Describe(`x`, func() { g.<F>It(`a`, <g.Focus,> func() {}) })\n",
	"var _ = decorators.<F>It(`x`, Serial, <decorators.Focus,> func() {})\n",
	"var _ = Describe(`x`, <Focus,> Serial, func() {})\n",
	"var _ = Describe(`x`, Serial, <Focus,> func() {},\n\t<Focus,>\n)\n",
	"var _ = It(`x`, func() {}, <Focus>)\n",
	"var _ = It(`x`,\n\t// why\n\t<Focus,> /* then */\n\tfunc() {},\n)\n",
	"var args = []any{<Focus,> Label(`x`), <Focus,> <Focus>}\nvar _ = It(`x`, args, func() {})\n",
	"var _ = It(`x`, []any{<Focus>}, Pending)\n",
	"var _ = It(`x`, <Focus> <,> func() {})\n",
	"type FIt struct {\n\tFocus bool\n\tFDescribe int\n}\n\nvar conf = FIt{Focus: true, FDescribe: 3}\n",
	"func (w *window) Focus(FIt int) {\n\tw.Focus(w.Focus, FIt)\n\tother.FIt(other.Focus, 1)\n\tw.inner.FIt(w.inner.Focus)\n}\n",
	"// FIt(`x`, Focus, func() {})\nvar s = \"FIt(Focus, \" + `FDescribe(Focus, ` /* FEntry(Focus, */\n",
	"var FEntry = 1\nvar a, b = FIts(Focused), Fit(focus)\nvar c = PIt(XDescribe, FBy)\n",
	"//line /elsewhere/x.go:100\nvar _ = <F>It(`x`, func() {})\n",
	"func Focus() bool { return true }\n",
	"func FIt() { g := 1; g.Focus(); use(g.Focus, g.FIt(1)) }\n",
	"var _ = ginkgo.<F>It(`x`, <ginkgo.Focus,> func() {})\n",
	"var _ = <F>Describe(`x`, deep(func() any { return <F>Context(`y`, func() { <F>It(`z`, func() {}) }) }, <Focus>).FIt(1))\n",
}

var vzImports = []string{
	"import (\n\t. \"github.com/onsi/ginkgo/v2\"\n\tg \"github.com/onsi/ginkgo/v2/dsl/core\"\n\t\"github.com/onsi/ginkgo/v2/dsl/decorators\"\n)\n",
	"import g `github.com/onsi/ginkgo/v2`\nimport \"github.com/onsi/ginkgo/v2/dsl/decorators\"\nimport other \"github.com/onsi/gomega\"\n",
	"import \"github.com/onsi/ginkgo/v2\"\nimport (\n\tg `github.com/onsi/ginkgo/v2/dsl/core`\n\t\"github.com/onsi/ginkgo/v2/dsl/decorators\"\n)\n",
}

func vzText(piece string) (before, after string) {
	gone := false
	for _, c := range piece {
		switch {
		case c == '<':
			gone = true
		case c == '>':
			gone = false
		default:
			before += string(c)
			if !gone {
				after += string(c)
			}
		}
	}
	return
}

// vzTokens are the tokens of a source, comments included, but for commas before a closing bracket.
func vzTokens(text []byte) (out []string) {
	file := token.NewFileSet().AddFile("x", -1, len(text))
	var s scanner.Scanner
	s.Init(file, text, func(token.Position, string) {}, scanner.ScanComments)
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			return
		}
		if (tok == token.RPAREN || tok == token.RBRACE) && len(out) > 0 && out[len(out)-1] == "," {
			out = out[:len(out)-1]
		}
		if lit == "" || tok == token.SEMICOLON {
			lit = tok.String()
		}
		out = append(out, lit)
	}
}

func vzSame(got, want []byte) bool {
	a, b := vzTokens(got), vzTokens(want)
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = vf.And(same, vf.EqStr(a[i], b[i]))
	}
	return same
}

func vzRun() { BuildUnfocusCommand().Command(nil, nil) }

// The F is stripped off every focused container, spec, table and entry and the Focus decorator is taken out, however
// Ginkgo is imported and the call is written; everything else stays as it is.
//
//verif:quick 100s
//verif:thorough 300s
//verif:bounds sources of up to two (thorough: three) of 21 pieces - nested and chained calls, tables, entries, qualified names, decorators first, in the middle, last, alone and in literals, line directives, and names, fields, methods, texts and comments that only look like focus - with three styles of imports; any text of up to 2 characters in a string, any capital letter before the name of each container and spec
//verif:reach focused untouched letter
func VerifC31_Source() {
	dir := vf.Dir()
	os.Chdir(dir)
	imports := vf.Concrete(vf.Pick("imports", 3))
	text := "package x\n\n" + vzImports[imports]
	n := vf.Concrete(vf.Pick("pieces", 3+vf.Tier()))
	before, after := text, text
	for i := 0; i < n; i++ {
		b, a := vzText(vzPieces[vf.Concrete(vf.Pick("piece", len(vzPieces)))])
		if imports != 2 && strings.Contains(b, "ginkgo.FIt") {
			a = b // not the library
		}
		before, after = before+b, after+a
	}
	if n == 0 {
		// a call with any capital letter before a name
		letter := vf.StringN("letter", 1, "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
		names := []string{"Describe", "Context", "When", "It", "Specify", "DescribeTable", "DescribeTableSubtree", "Entry", "By", "BeforeEach"}
		k := vf.Concrete(vf.Pick("name", len(names)))
		call := names[k] + "(`" + vf.String("text", 2, "F(ocus,\"\n") + "`, func() {})\n"
		before += "var _ = " + letter + call
		if letter == "F" && k < 8 {
			vf.Reach("letter")
			after += "var _ = " + call
		} else {
			after += "var _ = " + letter + call
		}
	}
	os.WriteFile(dir+"/x_test.go", []byte(before), 0o640)
	vzRun()
	got, err := os.ReadFile(dir + "/x_test.go")
	vf.Assert(err == nil, "the file is there")
	if before == after {
		vf.Reach("untouched")
		vf.Assert(string(got) == before, "a file without focus stays as it is")
	} else {
		vf.Reach("focused")
		vf.Assert(vzSame(got, []byte(after)), "the focus is gone and nothing else")
	}
	list, _ := os.ReadDir(dir)
	vf.Assert(len(list) == 1, "nothing is left behind")
	vf.Observe("source", string(got))
	vzRun()
	again, _ := os.ReadFile(dir + "/x_test.go")
	vf.Assert(string(got) == string(again), "unfocusing again changes nothing")
}

var errBroken = errors.New("broken")

// Every source file below the current directory is unfocused but for those in vendor and hidden directories, whatever is
// wrong with the others.
//
//verif:quick 100s
//verif:thorough 300s
//verif:bounds trees of three levels with ordinary, vendor, hidden and similar names, up to 14 files: focused, not focused, damaged, not Go
//verif:reach vendor hidden
func VerifC31_Tree() {
	names := []string{"a", "vendor", ".a", "vendored", "_a", "a.go", "testdata"}
	one, two := names[vf.Concrete(vf.Pick("name", len(names)))], names[vf.Concrete(vf.Pick("name", len(names)))]
	vzTree(one, two, 0)
}

// Should an operation on the file system fail, or the process be stopped at any moment, what a file contained is still there,
// in it or in a copy beside it, and the other files are unfocused all the same.
//
//verif:quick 100s
//verif:thorough 300s
//verif:nonative
//verif:bounds 14 files in four directories; any one operation on the file system failing, a stop before any operation
//verif:reach fault
func VerifC31_Faults() {
	vzTree("a", "a", vf.Int("operation that fails", 0, 150))
}

func vzTree(one, two string, fault int) {
	dir := vf.Dir()
	os.Chdir(dir)
	before, after := vzText("package x\n\n" + vzPieces[7] + "var _ = <F>It(`x`, func() {})\n")
	damaged := before + "var x = {\n"
	type vzFile struct {
		path, before, after string
	}
	var files []vzFile
	add := func(path, b, a string) {
		files = append(files, vzFile{dir + "/" + path, b, a})
		os.WriteFile(dir+"/"+path, []byte(b), 0o644)
	}
	below := func(path string, out bool) {
		if path != "" {
			os.MkdirAll(dir+"/"+path, 0o755)
			path += "/"
		}
		if out {
			add(path+"x_test.go", before, before)
			return
		}
		add(path+"a_test.go", before, after)
		add(path+"b.go", damaged, damaged)
		add(path+"c_test.go.txt", before, before)
		add(path+"z.go", before, after)
	}
	out := func(name string) bool {
		if name == "vendor" {
			vf.Reach("vendor")
		}
		if name[0] == '.' {
			vf.Reach("hidden")
		}
		return name == "vendor" || name[0] == '.'
	}
	below("", false)
	below(one, out(one))
	below(one+"/"+two, out(one) || out(two))
	below("zeta", false)
	op, failed, dirs := 0, false, false
	kept := func(path string) {
		for _, f := range files {
			if !strings.HasPrefix(path, f.path) && path != "" {
				continue
			}
			at, beside := f.path, ""
			data, _ := vzRead(at)
			ok := data == f.before || data == f.after
			list := vzList(f.path)
			for _, beside = range list {
				d, _ := vzRead(beside)
				ok = ok || d == f.before
			}
			vf.Assert(ok, "what a file contained is still there")
		}
	}
	if vf.Engine() {
		inside := false
		vf.FSFault = func(_, path string) error {
			if inside {
				return nil
			}
			inside = true
			if path[0] != '/' {
				path = dir + "/" + path
			}
			kept(path)
			inside = false
			op++
			if op == fault {
				vf.Reach("fault")
				failed = true
				dirs = !strings.Contains(path, ".go")
				return errBroken
			}
			return nil
		}
	}
	vzRun()
	vf.FSFault = nil
	kept("")
	spoilt := 0
	for _, f := range files {
		data, err := vzRead(f.path)
		switch {
		case err != nil:
			vf.Assert(false, "the file is there")
		case f.before == f.after:
			vf.Assert(data == f.before, "a file to be left alone stays as it is")
		case data == f.before || !vzSame([]byte(data), []byte(f.after)):
			spoilt++
		}
	}
	vf.Assert(spoilt == 0 || failed && (spoilt == 1 || dirs), "the files are unfocused")
	vf.Observe("files", len(files))
}

func vzRead(path string) (string, error) {
	data, err := os.ReadFile(path)
	return string(data), err
}

// vzList are the other files whose names start with that of the file.
func vzList(path string) (out []string) {
	i := strings.LastIndexByte(path, '/')
	list, _ := os.ReadDir(path[:i])
	for _, e := range list {
		if strings.HasPrefix(e.Name(), path[i+1:]) && e.Name() != path[i+1:] {
			out = append(out, path[:i+1]+e.Name())
		}
	}
	return
}
