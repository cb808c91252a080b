package internal

import (
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

// vzNode builds a node the way the DSL does.
func vzNode(t types.NodeType, text string, line int, args ...any) Node {
	cl := types.CodeLocation{FileName: "file_test.go", LineNumber: line}
	args = append([]any{cl}, args...)
	if t.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach | types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite | types.NodeTypeSynchronizedBeforeSuite | types.NodeTypeSynchronizedAfterSuite) {
	} else {
		args = append(args, func() {})
	}
	n, errs := NewNode(nil, t, text, args...)
	vf.Assert(len(errs) == 0, "a valid node declaration is accepted")
	return n
}

func vzTN(n Node, children ...*TreeNode) *TreeNode {
	t := &TreeNode{Node: n}
	for _, c := range children {
		t.AppendChild(c)
	}
	return t
}

var vzNames = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t"}

func vzCount(l []string, x string) int {
	n := 0
	for _, y := range l {
		if x == y {
			n++
		}
	}
	return n
}

func vzIndex(l []string, x string) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

func vzLast(l []string, x string) int {
	out := -1
	for i, y := range l {
		if x == y {
			out = i
		}
	}
	return out
}
