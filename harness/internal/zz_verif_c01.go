package internal

import (
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// one leaf spec as the harness declared it
type vzLeaf struct {
	top     int // index of the top-level node it lives in
	ordered int // 0, or the number of the outermost ordered container it lives in
	serial  bool
	text    string
}

// vzForest declares a symbolic forest: top-level nodes are specs or containers; containers hold specs and, at
// depth 1, containers.  Serial and Ordered decorations are symbolic.
type vzForest struct {
	root   *TreeNode
	leaves []vzLeaf
	orders int
	line   int
	budget int
}

func (f *vzForest) leaf(top, ordered int, serial, inNonSerialOrdered bool) *TreeNode {
	name := vzNames[len(f.leaves)]
	f.line++
	args := []any{}
	if !serial && !inNonSerialOrdered && vf.Bool("leafSerial") {
		serial = true
		args = append(args, Serial)
	}
	f.leaves = append(f.leaves, vzLeaf{top, ordered, serial, name})
	f.budget--
	return vzTN(vzNode(types.NodeTypeIt, name, f.line, args...))
}

func (f *vzForest) container(top, ordered, depth, maxDepth, maxKids int, serial, inNonSerialOrdered bool) *TreeNode {
	f.line++
	args := []any{}
	if !serial && !inNonSerialOrdered && vf.Bool("contSerial") {
		serial = true
		args = append(args, Serial)
	}
	if vf.Bool("ordered") {
		args = append(args, Ordered)
		if ordered == 0 {
			f.orders++
			ordered = f.orders
			inNonSerialOrdered = !serial
		}
	}
	t := vzTN(vzNode(types.NodeTypeContainer, "C", f.line, args...))
	kids := 1 + vf.Pick("kids", maxKids)
	for k := 0; k < kids && f.budget > 0; k++ {
		if depth < maxDepth && vf.Bool("nest") {
			t.AppendChild(f.container(top, ordered, depth+1, maxDepth, maxKids, serial, inNonSerialOrdered))
		} else {
			t.AppendChild(f.leaf(top, ordered, serial, inNonSerialOrdered))
		}
	}
	return t
}

func vzMakeForest(tops, maxDepth, maxKids, budget int) *vzForest {
	f := &vzForest{root: &TreeNode{}, budget: budget}
	n := 1 + vf.Pick("tops", tops)
	for i := 0; i < n && f.budget > 0; i++ {
		if vf.Bool("topContainer") {
			f.root.AppendChild(f.container(i, 0, 1, maxDepth, maxKids, false, false))
		} else {
			f.root.AppendChild(f.leaf(i, 0, false, false))
		}
	}
	return f
}

// Whatever the tree, seed and configuration, the computed run order contains every spec exactly once, keeps ordered
// containers whole and in declaration order, keeps top-level containers together unless everything is randomised, and
// separates serial from parallelisable specs.
//
//verif:quick 120s
//verif:thorough 300s
//verif:bounds forests of at most 3 top-level nodes, nesting depth 2, at most 2 children per container, at most 3 specs (thorough: 4); every Serial/Ordered decoration, every permutation, series and parallel
//verif:reach series parallel orderedgroup serialgroup randomized
func VerifC01_Partition() {
	budget := 3
	if vf.Tier() == 1 {
		budget = 4
	}
	f := vzMakeForest(3, 2, 2, budget)
	specs := GenerateSpecsFromTreeRoot(f.root)
	vf.Assert(len(specs) == len(f.leaves), "the tree yields exactly the declared specs")
	conf := types.SuiteConfig{RandomSeed: vf.Seed("seed"), ParallelTotal: 1, ParallelProcess: 1}
	parallel := vf.Bool("parallel")
	if parallel {
		conf.ParallelTotal = 2
	}
	conf.RandomizeAllSpecs = vf.Bool("randomizeAll")
	par, ser := OrderSpecs(specs, conf)
	vf.Observe("par", par)
	vf.Observe("ser", ser)

	if !parallel {
		vf.Reach("series")
		vf.Assert(len(ser) == 0, "in series nothing is held back")
	} else {
		vf.Reach("parallel")
	}
	if conf.RandomizeAllSpecs {
		vf.Reach("randomized")
	}
	// every spec exactly once
	seen := map[string]int{}
	total := 0
	check := func(groups GroupedSpecIndices, serialSide bool) []vzLeaf {
		out := []vzLeaf{}
		for _, g := range groups {
			vf.Assert(len(g) > 0, "no empty group")
			if len(g) == 0 {
				continue
			}
			ordered := 0
			serial := false
			last := -1
			for k, idx := range g {
				vf.Assert(idx >= 0 && idx < len(specs), "indices are valid")
				name := specs[idx].FirstNodeWithType(types.NodeTypeIt).Text
				which := -1
				for i := range f.leaves {
					if f.leaves[i].text == name {
						which = i
					}
				}
				vf.Assert(which >= 0, "only declared specs are ordered")
				l := f.leaves[which]
				seen[name]++
				total++
				out = append(out, l)
				serial = serial || l.serial
				if k == 0 {
					ordered = l.ordered
				} else {
					vf.Assert(ordered != 0 && l.ordered == ordered, "specs are grouped together only when they share an ordered container")
				}
				vf.Assert(which > last, "an ordered container's specs stay in declaration order")
				last = which
			}
			if ordered != 0 {
				vf.Reach("orderedgroup")
				n := 0
				for i := range f.leaves {
					if f.leaves[i].ordered == ordered {
						n++
					}
				}
				vf.Assert(n == len(g), "an ordered container's specs all land in one group")
			}
			if parallel {
				vf.Assert(serial == serialSide, "exactly the serial specs are held back for the serial phase")
			}
			if serialSide {
				vf.Reach("serialgroup")
			}
		}
		return out
	}
	pl := check(par, false)
	sl := check(ser, true)
	vf.Assert(total == len(f.leaves), "as many specs are ordered as were declared")
	for i := range f.leaves {
		vf.Assert(seen[f.leaves[i].text] == 1, "every spec is ordered exactly once")
	}
	if !conf.RandomizeAllSpecs {
		for _, list := range [][]vzLeaf{pl, sl} {
			closed := map[int]bool{}
			for i := range list {
				if i > 0 && list[i].top != list[i-1].top {
					closed[list[i-1].top] = true
				}
				vf.Assert(!closed[list[i].top], "specs of one top-level container run together unless all specs are randomised")
				if i > 0 && list[i].top == list[i-1].top {
					vf.Assert(list[i-1].text < list[i].text, "specs of one top-level container run in source order unless all specs are randomised")
				}
			}
		}
	}
}
