package internal

import (
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// vzMark is a node of the declared tree with its symbolic marks.
type vzMark struct {
	it       bool
	focus    bool
	pending  bool
	kids     []*vzMark
	chain    []*vzMark
	id       int
	effFocus bool
}

type vzMarks struct {
	leaves []*vzMark
	budget int
	ids    int
}

func (m *vzMarks) node(depth, maxDepth, maxKids int, chain []*vzMark) (*vzMark, *TreeNode) {
	it := depth == maxDepth || !vf.Bool("container")
	n := &vzMark{it: it, id: m.ids}
	m.ids++
	n.chain = append(append([]*vzMark{}, chain...), n)
	n.focus, n.pending = vf.Bool("focus"), vf.Bool("pending")
	vf.Assume(!vf.And(n.focus, n.pending)) // declaring both is refused
	typ := types.NodeTypeContainer
	if it {
		typ = types.NodeTypeIt
	}
	node := vzNode(typ, vzNames[n.id], n.id+1)
	node.MarkedFocus, node.MarkedPending = n.focus, n.pending
	t := vzTN(node)
	m.budget--
	if it {
		m.leaves = append(m.leaves, n)
		return n, t
	}
	kids := vf.Pick("kids", maxKids+1)
	for k := 0; k < kids && m.budget > 0; k++ {
		c, ct := m.node(depth+1, maxDepth, maxKids, n.chain)
		n.kids = append(n.kids, c)
		t.AppendChild(ct)
	}
	return n, t
}

// effective computes the documented policy: a focused container with a focused descendant (outside pending containers)
// gives up its own focus.
func (n *vzMark) effective() bool {
	any := false
	for _, k := range n.kids {
		f := k.effective()
		any = vf.Or(any, f)
	}
	n.effFocus = vf.And(n.focus, vf.And(!n.pending, !any))
	return vf.And(!n.pending, vf.Or(n.focus, any))
}

// Which specs programmatic focus and pending let run is decided by the declared marks alone.
//
//verif:quick 120s
//verif:thorough 400s
//verif:bounds every tree of at most 7 nodes (thorough: 9), depth 3, at most 2 children per container and 2 top-level nodes, with arbitrary Focus and Pending marks
//verif:reach focused unfocused allpending
func VerifC03_FocusPending() {
	m := &vzMarks{budget: 7 + 2*vf.Tier()}
	root := &TreeNode{}
	tops := []*vzMark{}
	n := 1 + vf.Pick("tops", 2)
	for i := 0; i < n && m.budget > 0; i++ {
		d, t := m.node(1, 3, 2, nil)
		tops = append(tops, d)
		root.AppendChild(t)
	}
	for _, t := range tops {
		t.effective()
	}
	isPending := make([]bool, len(m.leaves))
	isFocused := make([]bool, len(m.leaves))
	anyFocus := false
	for i, l := range m.leaves {
		for _, c := range l.chain {
			isPending[i] = vf.Or(isPending[i], c.pending)
			isFocused[i] = vf.Or(isFocused[i], c.effFocus)
		}
		anyFocus = vf.Or(anyFocus, vf.And(isFocused[i], !isPending[i]))
	}

	ApplyNestedFocusPolicyToTree(root)
	specs := GenerateSpecsFromTreeRoot(root)
	vf.Assert(len(specs) == len(m.leaves), "the tree yields exactly the declared specs")
	out, has := ApplyFocusToSpecs(specs, "suite", Labels{}, types.SuiteConfig{})
	vf.Assert(len(out) == len(specs), "no spec is dropped by filtering")
	vf.Observe("has", has)
	if has {
		vf.Reach("focused")
	} else {
		vf.Reach("unfocused")
	}
	vf.Assert(has == anyFocus, "programmatic focus is reported exactly when some non-pending spec is focused")
	all := true
	for i := range out {
		want := vf.And(!isPending[i], vf.Or(!anyFocus, isFocused[i]))
		vf.Assert(out[i].Skip == !want, "a spec runs exactly when it is not pending and either nothing or the spec itself is focused")
		all = all && isPending[i]
		vf.Observe("skip", out[i].Skip)
	}
	if len(out) > 0 && all {
		vf.Reach("allpending")
	}
}
