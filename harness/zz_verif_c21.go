package ginkgo

import (
	"context"
	"fmt"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/global"
	vf "github.com/onsi/ginkgo/v2/internal/vf"
	"github.com/onsi/ginkgo/v2/types"
)

type vzCall struct {
	args string
	ctx  bool
}

func vzShow(a any) string {
	switch v := a.(type) {
	case nil:
		return "nil"
	case int:
		return "i" + string(rune('0'+v))
	case string:
		return "s" + v
	}
	return "?"
}

// Every table entry becomes one spec, in order, named after its description, with the entry's decorators, and runs the
// table's function once with exactly the entry's parameters; an entry whose parameters do not fit fails without
// affecting the others.
//
//verif:quick 60s
//verif:thorough 300s
//verif:bounds tables of 1-2 (thorough: up to 3) entries with 0-3 parameters out of int, string and nil, 7 table functions (plain, with either kind of context, variadic, and any), 5 kinds of entry description and 3 of table description, entries and tables focused, pending or labelled
//verif:reach fits misfit context pending
func VerifC21_Table() {
	global.InitializeGlobals()
	calls := []vzCall{}
	rec := func(ctx bool, args ...any) {
		s := []string{}
		for _, a := range args {
			s = append(s, vzShow(a))
		}
		calls = append(calls, vzCall{strings.Join(s, " "), ctx})
	}
	// what the function accepts: i int, s string, a anything; * repeats the last
	var body any
	takesCtx, pattern := false, ""
	switch vf.Concrete(vf.Pick("table function", 7)) {
	case 0:
		body, pattern = func(a int, b string) { rec(false, a, b) }, "is"
	case 1:
		takesCtx = true
		body, pattern = func(c SpecContext, a int) { rec(c != nil, a) }, "i"
	case 2:
		takesCtx = true
		body, pattern = func(c context.Context, a, b any) { rec(c != nil, a, b) }, "aa"
	case 3:
		body, pattern = func(a ...int) {
			l := []any{}
			for _, x := range a {
				l = append(l, x)
			}
			rec(false, l...)
		}, "i*"
	case 4:
		body, pattern = func(a string, b ...any) { rec(false, append([]any{a}, b...)...) }, "sa*"
	case 5:
		body, pattern = func() { rec(false) }, ""
	case 6:
		takesCtx = true
		body, pattern = func(c SpecContext, a ...string) {
			l := []any{}
			for _, x := range a {
				l = append(l, x)
			}
			rec(c != nil, l...)
		}, "s*"
	}
	fits := func(params []any) bool {
		rest := byte(0)
		pat := pattern
		if strings.HasSuffix(pat, "*") {
			rest = pat[len(pat)-2]
			pat = pat[:len(pat)-2]
		}
		if len(params) < len(pat) || rest == 0 && len(params) > len(pat) {
			return false
		}
		for i, p := range params {
			k := rest
			if i < len(pat) {
				k = pat[i]
			}
			switch p.(type) {
			case int:
				if k == 's' {
					return false
				}
			case string:
				if k == 'i' {
					return false
				}
			}
		}
		return true
	}
	zero := func(params []any) string { // how the function sees the parameters: nil is the zero value
		s := []string{}
		rest := byte(0)
		pat := pattern
		if strings.HasSuffix(pat, "*") {
			rest = pat[len(pat)-2]
			pat = pat[:len(pat)-2]
		}
		for i, p := range params {
			k := rest
			if i < len(pat) {
				k = pat[i]
			}
			if p == nil {
				p = map[byte]any{'i': 0, 's': "", 'a': nil}[k]
			}
			s = append(s, vzShow(p))
		}
		return strings.Join(s, " ")
	}

	type want struct {
		text          string
		fits, pending bool
		focus         bool
		args          string
		labels        int
		bad           bool // no entry can be made of it
	}
	wants := []want{}
	args := []any{}
	// quick: either what the entries say varies, or how they are decorated and the table is put together
	marks, texts := true, true
	if vf.Tier() == 0 {
		marks = vf.Bool("vary decorators")
		texts = !marks
	}
	pick := func(on bool, name string, n int) int {
		if !on {
			return 0
		}
		return vf.Concrete(vf.Pick(name, n))
	}
	tableKind := pick(texts, "table description", 3)
	tableDesc := func(params []any) (string, bool) {
		switch tableKind {
		case 0:
			s := []string{}
			for _, p := range params {
				switch v := p.(type) {
				case nil:
					s = append(s, "<nil>")
				case int:
					s = append(s, vzShow(v)[1:])
				case string:
					s = append(s, v)
				}
			}
			return "Entry: " + strings.Join(s, ", "), true
		case 1:
			return fmt.Sprintf("fixed", params...), true
		}
		return "described", len(params) == 1
	}
	switch tableKind {
	case 1:
		args = append(args, EntryDescription("fixed"))
	case 2:
		args = append(args, func(any) string { return "described" })
	}
	n := 1 + vf.Concrete(vf.Pick("entries", 2+vf.Tier()))
	bodyAt := pick(marks, "function at", 2)
	if bodyAt == 0 {
		args = append(args, body)
	}
	anyFocus := false
	var list []TableEntry
	for i := 0; i < n; i++ {
		w := want{}
		params := []any{}
		k := 1
		if i == 0 || vf.Tier() > 0 {
			k = pick(texts || i == 0, "parameters", 4)
		}
		for j := 0; j < k; j++ {
			kind := 0
			if j < 2 && (i == 0 || vf.Tier() > 0) {
				kind = pick(texts, "parameter", 3)
			}
			switch kind {
			case 0:
				params = append(params, i+j+1)
			case 1:
				params = append(params, []string{"x", "y", "z"}[j])
			case 2:
				params = append(params, nil)
			}
		}
		w.fits = fits(params)
		w.args = zero(params)
		var desc any
		dk := 0
		if i == 0 || vf.Tier() > 0 {
			dk = pick(texts, "description", 5)
		}
		switch dk {
		case 0:
			desc, w.text = "named", "named"
		case 1:
			t, ok := tableDesc(params)
			w.text = t
			if !ok {
				w.fits, w.text = false, ""
			}
		case 2:
			f := strings.Repeat("%v.", len(params))
			desc, w.text = EntryDescription(f), fmt.Sprintf(f, params...)
		case 3:
			desc, w.text = func(any, any) string { return "computed" }, "computed"
			if len(params) != 2 {
				w.fits, w.text = false, ""
			}
		case 4:
			desc = 5
			w.fits = false
		}
		all := []any{}
		mark := pick(marks, "decorator", 6)
		switch mark {
		case 1:
			all = append(all, Label("one"))
			w.labels = 1
		case 2:
			all = append(all, []any{Label("one", "two")})
			w.labels = 2
		}
		all = append(all, params...)
		e := TableEntry{}
		switch mark {
		case 3:
			w.focus = true
			e = FEntry(desc, all...)
		case 4:
			w.pending = true
			e = PEntry(desc, all...)
		case 5:
			w.focus = true
			e = Entry(desc, append(all, Focus)...)
		default:
			e = Entry(desc, all...)
		}
		anyFocus = anyFocus || w.focus
		wants = append(wants, w)
		e.codeLocation.LineNumber = 100 + i // as if on lines of their own
		list = append(list, e)
	}
	if n > 1 && vf.Bool("entries as a list") {
		args = append(args, list)
	} else {
		for _, e := range list {
			args = append(args, e)
		}
	}
	if bodyAt == 1 {
		args = append(args, body)
	}
	tableFocus := false
	switch pick(marks, "table", 3) {
	case 0:
		DescribeTable("table", args...)
	case 1:
		tableFocus = true
		FDescribeTable("table", args...)
	case 2:
		PDescribeTable("table", args...)
		for i := range wants {
			wants[i].pending = true
		}
	}

	conf := types.NewDefaultSuiteConfig()
	conf.RandomSeed = 1
	rep, _, hasFocus := vzRunGlobal(conf)
	got := rep.did
	vf.Assert(len(got) == n, "every entry becomes one spec")
	vf.Observe("states", len(calls))
	focused := false
	for i := range wants {
		if tableFocus && !anyFocus {
			wants[i].focus = true
		}
		focused = focused || wants[i].focus && !wants[i].pending
	}
	vf.Assert(hasFocus == focused, "focused entries and tables are programmatic focus")
	c := 0
	for i, w := range wants {
		r := got[i]
		vf.Assert(r.LeafNodeText == w.text && len(r.ContainerHierarchyTexts) == 1 && r.ContainerHierarchyTexts[0] == "table", "a spec is named after its table and entry")
		vf.Assert(len(r.LeafNodeLabels) == w.labels, "a spec has its entry's decorators")
		runs := w.focus || !focused
		switch {
		case w.pending:
			vf.Reach("pending")
			vf.Assert(r.State == types.SpecStatePending, "a pending entry does not run")
		case !runs:
			vf.Assert(r.State == types.SpecStateSkipped, "an entry that is not focused does not run")
		case !w.fits:
			vf.Reach("misfit")
			vf.Assert(r.State == types.SpecStatePanicked, "an entry whose parameters do not fit fails")
		default:
			vf.Reach("fits")
			vf.Assert(r.State == types.SpecStatePassed, "an entry whose parameters fit runs")
			vf.Assert(c < len(calls) && calls[c].args == w.args, "the table's function gets the entry's parameters")
			vf.Assert(calls[c].ctx == takesCtx, "the table's function gets a context if it takes one")
			if takesCtx {
				vf.Reach("context")
			}
			c++
		}
	}
	vf.Assert(c == len(calls), "the table's function runs once per entry that runs")
}

// Every entry of a subtree table becomes one container whose contents are built with exactly the entry's parameters.
//
//verif:quick 60s
//verif:thorough 300s
//verif:bounds subtree tables of 1-2 (thorough: up to 3) entries with two parameters out of int, string and nil, setup and 1-2 specs in each subtree, entries and tables focused, pending, labelled or Ordered
//verif:reach ran pending setup
func VerifC21_Subtree() {
	global.InitializeGlobals()
	type run struct {
		a    int
		b    string
		spec int
	}
	var runs []run
	specs := 1 + vf.Concrete(vf.Pick("specs per entry", 2))
	setups := 0
	before := vf.Bool("setup in the subtree")
	body := func(a int, b string) {
		if before {
			BeforeEach(func() { setups++ })
		}
		for i := 0; i < specs; i++ {
			It("spec", func() { runs = append(runs, run{a, b, i}) })
		}
	}
	n := 1 + vf.Concrete(vf.Pick("entries", 2+vf.Tier()))
	args := []any{body}
	type want struct {
		run
		focus, pending bool
		label          bool
		name           string
	}
	var wants []want
	var list []TableEntry
	anyFocus := false
	for i := 0; i < n; i++ {
		w := want{run: run{a: i + 1, b: "x"}}
		a, b := any(i+1), any("x")
		switch vf.Concrete(vf.Pick("parameters", 3)) {
		case 1:
			a, w.a = nil, 0
		case 2:
			b, w.b = nil, ""
		}
		w.name = []string{"one", "two", "three"}[i]
		var e TableEntry
		switch vf.Concrete(vf.Pick("mark", 5)) {
		case 0:
			e = Entry(w.name, a, b)
		case 1:
			w.focus = true
			e = FEntry(w.name, a, b)
		case 2:
			w.pending = true
			e = PEntry(w.name, a, b)
		case 3:
			w.label = true
			e = Entry(w.name, Label("marked"), a, b)
		case 4:
			e = Entry(w.name, a, Ordered, b)
		}
		anyFocus = anyFocus || w.focus
		e.codeLocation.LineNumber = 100 + i
		wants = append(wants, w)
		list = append(list, e)
	}
	if vf.Bool("entries as a list") {
		args = append(args, list)
	} else {
		for _, e := range list {
			args = append(args, e)
		}
	}
	tableFocus := false
	switch vf.Concrete(vf.Pick("table", 3)) {
	case 0:
		DescribeTableSubtree("table", args...)
	case 1:
		tableFocus = true
		FDescribeTableSubtree("table", args...)
	case 2:
		PDescribeTableSubtree("table", args...)
		for i := range wants {
			wants[i].pending = true
		}
	}
	conf := types.NewDefaultSuiteConfig()
	conf.RandomSeed = 1
	rep, _, hasFocus := vzRunGlobal(conf)
	vf.Assert(len(rep.did) == n*specs, "every entry becomes one container with the subtree's specs")
	focused := false
	for i := range wants {
		if tableFocus && !anyFocus {
			wants[i].focus = true
		}
		focused = focused || wants[i].focus && !wants[i].pending
	}
	vf.Assert(hasFocus == focused, "focused entries and tables are programmatic focus")
	c := 0
	for i, w := range wants {
		for j := 0; j < specs; j++ {
			r := rep.did[i*specs+j]
			h := r.ContainerHierarchyTexts
			vf.Assert(len(h) == 2 && h[0] == "table" && h[1] == w.name && r.LeafNodeText == "spec", "a container is named after its entry")
			l := r.ContainerHierarchyLabels
			vf.Assert(len(l) == 2 && len(l[0]) == 0 && (len(l[1]) == 1) == w.label && len(l[1]) <= 1, "a container has its entry's decorators")
			switch {
			case w.pending:
				vf.Reach("pending")
				vf.Assert(r.State == types.SpecStatePending, "a pending subtree does not run")
			case !w.focus && focused:
				vf.Assert(r.State == types.SpecStateSkipped, "a subtree that is not focused does not run")
			default:
				vf.Reach("ran")
				vf.Assert(r.State == types.SpecStatePassed, "the specs of the subtree run")
				vf.Assert(c < len(runs) && runs[c] == run{w.a, w.b, j}, "the subtree is built with the entry's parameters")
				c++
			}
		}
	}
	vf.Assert(c == len(runs), "each spec of a subtree runs once")
	if before {
		vf.Reach("setup")
		vf.Assert(setups == len(runs), "a subtree's setup is its own")
	}
}
