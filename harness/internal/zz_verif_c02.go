package internal

import (
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzDesc struct {
	line      int
	container bool
	ordered   bool
	serial    bool
	text      string
	kids      int
	sameLine  bool // its children are generated by a loop: same code location, different text
}

func vzBuildFrom(ds []vzDesc, order []int, flipKids bool) Specs {
	root := &TreeNode{}
	for _, i := range order {
		d := ds[i]
		args := []any{}
		if d.serial {
			args = append(args, Serial)
		}
		if !d.container {
			root.AppendChild(vzTN(vzNode(types.NodeTypeIt, d.text, d.line, args...)))
			continue
		}
		if d.ordered {
			args = append(args, Ordered)
		}
		c := vzTN(vzNode(types.NodeTypeContainer, d.text, d.line, args...))
		for k := 0; k < d.kids; k++ {
			j := k
			if d.sameLine && flipKids && !d.ordered {
				j = d.kids - 1 - k
			}
			line := 10 + j
			if d.sameLine {
				line = 10
			}
			c.AppendChild(vzTN(vzNode(types.NodeTypeIt, vzNames[j], line)))
		}
		root.AppendChild(c)
	}
	return GenerateSpecsFromTreeRoot(root)
}

func vzTexts(specs Specs, groups GroupedSpecIndices) [][]string {
	out := [][]string{}
	for _, g := range groups {
		t := []string{}
		for _, i := range g {
			t = append(t, specs[i].Text())
		}
		out = append(out, t)
	}
	return out
}

func vzSame(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

var vzPerms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// The run order depends on the seed and the specs' locations and texts alone: constructing the same specs in another
// order (a loop over a map) changes nothing, so parallel processes and reruns agree.
//
//verif:quick 120s
//verif:thorough 300s
//verif:bounds 3 top-level nodes on 2 source lines with every assignment of texts, containers with 1-2 specs declared on one or two lines, at most 4 specs (thorough: 5 and Serial decorations); every construction order of the first level, every permutation, every config
//verif:reach permuted sameline flipped
func VerifC02_ConstructionOrder() {
	n := 3
	kind := []bool{false, vf.Bool("containerOnLine1"), vf.Bool("containerOnLine2")}
	ds := make([]vzDesc, n)
	for i := range ds {
		d := &ds[i]
		d.line = 1 + vf.Pick("line", 2)
		d.container = kind[d.line]
		d.text = vzNames[vf.Pick("text", 2+vf.Tier())]
		if d.container {
			d.ordered = vf.Bool("ordered")
			d.kids = 1 + vf.Pick("kids", 2)
			d.sameLine = d.kids > 1 && vf.Bool("sameLine")
			if d.sameLine {
				vf.Reach("sameline")
			}
		}
		if vf.Tier() == 1 {
			d.serial = vf.Bool("serial")
		}
		for j := 0; j < i; j++ {
			vf.Assume(ds[j].line != d.line || ds[j].text != d.text)
			if i == 2 {
				// symmetric declarations differ only in their place in the list
				vf.Assume(ds[0].line <= ds[1].line)
			}
		}
	}
	leaves := 0
	for i := range ds {
		leaves += 1
		if ds[i].container {
			leaves += ds[i].kids - 1
		}
	}
	vf.Assume(leaves <= 4+vf.Tier())
	p := vf.Pick("order", 6)
	flip := vf.Bool("flip")
	if p > 0 {
		vf.Reach("permuted")
	}
	if flip {
		vf.Reach("flipped")
	}
	s1 := vzBuildFrom(ds, []int{0, 1, 2}, false)
	s2 := vzBuildFrom(ds, vzPerms3[p], flip)
	conf := types.SuiteConfig{RandomSeed: vf.Seed("seed"), ParallelTotal: 1, ParallelProcess: 1, RandomizeAllSpecs: vf.Bool("randomizeAll")}
	if vf.Tier() == 1 && vf.Bool("parallel") {
		conf.ParallelTotal = 2
	}
	par1, ser1 := OrderSpecs(s1, conf)
	conf.ParallelProcess = 2
	par2, ser2 := OrderSpecs(s2, conf)
	t1, t2 := vzTexts(s1, par1), vzTexts(s2, par2)
	vf.Observe("order", t1)
	vf.Assert(vzSame(t1, t2), "the same specs and seed give the same order whatever order they were constructed in")
	vf.Assert(vzSame(vzTexts(s1, ser1), vzTexts(s2, ser2)), "the same specs and seed give the same serial order whatever order they were constructed in")
}

// Less is a strict weak ordering, so that sorting is well defined, and orders files, then lines, then texts.
//
//verif:quick 20s
//verif:thorough 60s
//verif:bounds three top-level specs with arbitrary 1-byte file names, lines 1..1000000 and texts of 1 byte
func VerifC02_SortKeys() {
	root := &TreeNode{}
	type key struct {
		file, text string
		line       int
	}
	keys := make([]key, 3)
	for i := range keys {
		keys[i] = key{vf.StringN("file", 1, ""), vf.StringN("text", 1, ""), vf.Int("line", 1, 1000000)}
		node := vzNode(types.NodeTypeIt, keys[i].text, 1)
		node.CodeLocation = types.CodeLocation{FileName: keys[i].file, LineNumber: keys[i].line}
		root.AppendChild(vzTN(node))
	}
	specs := GenerateSpecsFromTreeRoot(root)
	less := func(a, b key) bool { // reference: file, line, text; false on ties
		return vf.Or(a.file < b.file, vf.And(vf.EqStr(a.file, b.file), vf.Or(a.line < b.line, vf.And(a.line == b.line, a.text < b.text))))
	}
	s := NewSortableSpecs(specs)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if i == j {
				continue
			}
			got := s.Less(i, j)
			want := less(keys[i], keys[j])
			tie := vf.And(!less(keys[i], keys[j]), !less(keys[j], keys[i]))
			vf.Assert(vf.Or(tie, got == want), "specs sort by file, then line, then text")
			vf.Assert(vf.Implies(tie, got == (i < j)), "ties are broken by declaration")
		}
	}
}
