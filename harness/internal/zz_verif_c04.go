package internal

import (
	"regexp"
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

func vzHas(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func vzLabelled(filter string, labels []string) bool {
	switch filter {
	case "":
		return true
	case "a":
		return vzHas(labels, "a")
	case "!a":
		return !vzHas(labels, "a")
	case "a && (b || !Serial)":
		return vzHas(labels, "a") && (vzHas(labels, "b") || !vzHas(labels, "Serial"))
	}
	return false
}

// vzFileMatch is the documented meaning of the file filters used below.
func vzFileMatch(filter string, cls []types.CodeLocation) bool {
	for _, cl := range cls {
		switch filter {
		case "one":
			if strings.Contains(cl.FileName, "one") {
				return true
			}
		case "two:5":
			if strings.Contains(cl.FileName, "two") && cl.LineNumber == 5 {
				return true
			}
		case "o:3-5,8":
			if strings.Contains(cl.FileName, "o") && (cl.LineNumber >= 3 && cl.LineNumber < 5 || cl.LineNumber == 8) {
				return true
			}
		}
	}
	return false
}

var vzRegexLists = [][]string{nil, {"alpha"}, {"^suite D beta$", "alpha"}, {"gamma", "(?i)ALPHA", "BETA"}, {"D a", "zzz"}}
var vzFileLists = [][]string{nil, {"one"}, {"two:5", "one"}, {"o:3-5,8"}}
var vzLabelFilters = []string{"", "a", "!a", "a && (b || !Serial)"}

func vzAnyRegex(list []string, text string) bool {
	for _, l := range list {
		if regexp.MustCompile(l).MatchString(text) {
			return true
		}
	}
	return false
}

// A spec runs exactly when it passes every filter in force: pending, programmatic focus, label filter (over the union
// of suite, container and spec labels), file filters, and focus/skip expressions over the full text.
//
//verif:quick 200s
//verif:thorough 300s
//verif:bounds one spec in a container next to one top-level spec; every combination of 4 label filters, 4 focus-file lists, 4 skip-file lists, 5 focus lists and 5 skip lists (thorough; quick: at most 2 filters at once), label subsets of suite, container and spec, Serial and Focus and Pending marks, files and lines 1..10
//verif:reach run skipped bylabel
func VerifC04_FiltersAnd() {
	conf := types.SuiteConfig{}
	used := 0
	if i := vf.Pick("labelFilter", len(vzLabelFilters)); i > 0 {
		conf.LabelFilter = vzLabelFilters[i]
		used++
	}
	if i := vf.Pick("focusFiles", len(vzFileLists)); i > 0 {
		conf.FocusFiles = vzFileLists[i]
		used++
	}
	if i := vf.Pick("skipFiles", len(vzFileLists)); i > 0 {
		conf.SkipFiles = vzFileLists[i]
		used++
	}
	if i := vf.Pick("focus", len(vzRegexLists)); i > 0 {
		conf.FocusStrings = vzRegexLists[i]
		used++
	}
	if i := vf.Pick("skip", len(vzRegexLists)); i > 0 {
		conf.SkipStrings = vzRegexLists[i]
		used++
	}
	if vf.Tier() == 0 {
		vf.Assume(used <= 2)
	}
	suiteLabels := Labels{}
	if conf.LabelFilter != "" && vf.Bool("suiteA") {
		suiteLabels = append(suiteLabels, "a")
	}
	files := []string{"/x/one_test.go", "/x/two_test.go"}
	mk := func(typ types.NodeType, text string, l string) Node {
		args := []any{}
		labels := Labels{}
		if conf.LabelFilter != "" {
			if vf.Bool("label") {
				labels = append(labels, l)
				args = append(args, Labels{l})
			}
			if typ == types.NodeTypeIt && vf.Bool("serial") {
				args = append(args, Serial)
			}
		}
		n := vzNode(typ, text, 1, args...)
		if len(conf.FocusFiles)+len(conf.SkipFiles) > 0 {
			n.CodeLocation = types.CodeLocation{FileName: files[vf.Pick("file", 2)], LineNumber: vf.Int("line", 1, 10)}
		}
		n.MarkedFocus, n.MarkedPending = vf.Bool("focus"), vf.Bool("pending")
		return n
	}
	d := mk(types.NodeTypeContainer, "D", "b")
	i1 := mk(types.NodeTypeIt, "alpha", "a")
	i2 := mk(types.NodeTypeIt, "beta", "a")
	text2 := []string{"suite D alpha", "suite beta"}
	vf.Assume(!vf.And(d.MarkedFocus, i1.MarkedFocus)) // the nested policy is C03's subject
	root := &TreeNode{}
	root.AppendChild(vzTN(d, vzTN(i1)))
	root.AppendChild(vzTN(i2))
	specs := GenerateSpecsFromTreeRoot(root)
	out, _ := ApplyFocusToSpecs(specs, "suite", suiteLabels, conf)
	vf.Assert(len(out) == 2, "no spec is dropped by filtering")
	chains := [][]Node{{d, i1}, {i2}}
	pend, foc := make([]bool, 2), make([]bool, 2)
	anyFocus := false
	for k := range chains {
		for _, n := range chains[k] {
			pend[k] = vf.Or(pend[k], n.MarkedPending)
			foc[k] = vf.Or(foc[k], n.MarkedFocus)
		}
		anyFocus = vf.Or(anyFocus, vf.And(foc[k], !pend[k]))
	}
	for k := range chains {
		labels := append([]string{}, suiteLabels...)
		cls := []types.CodeLocation{}
		for _, n := range chains[k] {
			labels = append(labels, n.Labels...)
			if n.MarkedSerial {
				labels = append(labels, "Serial")
			}
			cls = append(cls, n.CodeLocation)
		}
		pass := vzLabelled(conf.LabelFilter, labels)
		if !pass {
			vf.Reach("bylabel")
		}
		if len(conf.FocusFiles) > 0 {
			m := false
			for _, f := range conf.FocusFiles {
				m = vzFileMatch(f, cls) || m
			}
			pass = pass && m
		}
		for _, f := range conf.SkipFiles {
			pass = pass && !vzFileMatch(f, cls)
		}
		if len(conf.FocusStrings) > 0 {
			pass = pass && vzAnyRegex(conf.FocusStrings, text2[k])
		}
		pass = pass && !vzAnyRegex(conf.SkipStrings, text2[k])
		want := vf.And(pass, vf.And(!pend[k], vf.Or(!anyFocus, foc[k])))
		vf.Assert(out[k].Skip == !want, "a spec runs exactly when it passes every filter in force")
		vf.Observe("skip", out[k].Skip)
		if out[k].Skip {
			vf.Reach("skipped")
		} else {
			vf.Reach("run")
		}
	}
}
