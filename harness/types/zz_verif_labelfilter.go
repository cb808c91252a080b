package types

import (
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
)

// Any text is either rejected with an error or yields a filter that answers for every label set; nothing panics.
//
//verif:quick 20s
//verif:thorough 200s
//verif:bounds every text of at most 4 bytes over the characters " &|!,()/:{}a" (thorough: 5)
//verif:reach accepted rejected
func VerifC05_Total() {
	n := 4
	if vf.Tier() == 1 {
		n = 5
	}
	text := vf.String("text", n, " &|!,()/:{}a")
	f, err := ParseLabelFilter(text)
	vf.Assert((f == nil) == (err != nil), "a filter is returned exactly when there is no error")
	vf.Observe("err", err != nil)
	if err == nil {
		vf.Reach("accepted")
		l := vf.StringN("label", 1, "ab")
		vf.Observe("match", f([]string{l}))
	} else {
		vf.Reach("rejected")
	}
}

// vzSets parses the labels of one key the way the documentation describes them.
func vzSet(labels []string, key string) []string {
	out := []string{}
	for _, l := range labels {
		i := strings.Index(l, ":")
		if i < 0 || strings.ToLower(strings.TrimSpace(l[:i])) != key {
			continue
		}
		v := strings.ToLower(strings.TrimSpace(l[i+1:]))
		dup := false
		for _, o := range out {
			dup = dup || o == v
		}
		if !dup {
			out = append(out, v)
		}
	}
	return out
}

func vzIn(x string, l []string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// vzEval evaluates one primary (label, regular expression or set operation) against labels.
func vzEval(tok string, labels []string) bool {
	switch tok {
	case "/^a/":
		for _, l := range labels {
			if l[0] == 'a' {
				return true
			}
		}
		return false
	case "k: isEmpty":
		return len(vzSet(labels, "k")) == 0
	case "k: containsAny {v, W}":
		s := vzSet(labels, "k")
		return vzIn("v", s) || vzIn("w", s)
	case "K: containsALL {w,v}":
		s := vzSet(labels, "k")
		return vzIn("v", s) && vzIn("w", s)
	case "k: consistsOf {V}":
		s := vzSet(labels, "k")
		return vzIn("v", s) && len(s) == 1
	case "k: consistsOf {v, v}":
		s := vzSet(labels, "k")
		return vzIn("v", s) && len(s) == 1
	case "k: isSubsetOf v":
		for _, x := range vzSet(labels, "k") {
			if x != "v" {
				return false
			}
		}
		return true
	}
	for _, l := range labels {
		if strings.ToLower(l) == strings.ToLower(tok) {
			return true
		}
	}
	return false
}

// vzLF is a recursive-descent reference for the documented grammar:
// or := and {("||"|",") and}; and := not {"&&" not}; not := "!" not | primary | "(" or ")".
type vzLF struct {
	toks   []string
	pos    int
	labels []string
	bad    bool
}

func (p *vzLF) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *vzLF) or() bool {
	v := p.and()
	for !p.bad && (p.peek() == "||" || p.peek() == ",") {
		p.pos++
		w := p.and()
		v = v || w
	}
	return v
}

func (p *vzLF) and() bool {
	v := p.not()
	for !p.bad && p.peek() == "&&" {
		p.pos++
		w := p.not()
		v = v && w
	}
	return v
}

func (p *vzLF) not() bool {
	if p.bad {
		return false
	}
	switch t := p.peek(); t {
	case "!":
		p.pos++
		return !p.not()
	case "(":
		p.pos++
		v := p.or()
		if p.peek() != ")" {
			p.bad = true
			return false
		}
		p.pos++
		return v
	case "", ")", "&&", "||", ",":
		p.bad = true
		return false
	default:
		p.pos++
		return vzEval(t, p.labels)
	}
}

func vzWord(t string) bool {
	return len(t) > 1 && t[0] != '/' && t != "&&" && t != "||" || t == "a" || t == "B"
}

func vzFilter(n int, vocab []string, labels []string) {
	toks := []string{}
	text := ""
	glue := ""
	if vf.Bool("spaces") {
		glue = " "
	}
	for i := 0; i < n; i++ {
		t := vocab[vf.Pick("token", len(vocab))]
		if i > 0 && vzWord(toks[i-1]) && vzWord(t) {
			// two adjacent words read as one label containing a space
			vf.Assume(false)
		}
		toks = append(toks, t)
		text += t
		text += glue
		if t == "k: isEmpty" && glue == "" {
			text += " "
		}
	}
	ref := &vzLF{toks: toks, labels: labels}
	want := ref.or()
	ok := !ref.bad && ref.pos == len(toks)
	f, err := ParseLabelFilter(text)
	vf.Observe("accepted", err == nil)
	vf.Assert((err == nil) == ok, "exactly the well-formed expressions are accepted")
	if ok && err == nil {
		vf.Reach("wellformed")
		got := f(labels)
		vf.Observe("match", got)
		if got {
			vf.Reach("match")
		} else {
			vf.Reach("nomatch")
		}
		vf.Assert(got == want, "a filter matches exactly the label sets its expression denotes")
	} else {
		vf.Reach("malformed")
	}
}

// Boolean structure: precedence, grouping, negation and case-insensitivity agree with the documented grammar.
//
//verif:quick 120s
//verif:thorough 300s
//verif:bounds every sequence of 1-5 tokens (thorough: 6) over {a, B, /^a/, !, &&, ||, ",", (, )}, with and without spaces, against every pair of one-letter labels over {a,b,A,B,c}
//verif:reach wellformed malformed match nomatch
func VerifC05_Grammar() {
	n := 1 + vf.Pick("n", 5+vf.Tier())
	labels := []string{vf.StringN("label", 1, "abABc"), vf.StringN("label", 1, "abABc")}
	vzFilter(n, []string{"a", "B", "/^a/", "!", "&&", "||", ",", "(", ")"}, labels)
}

// Set operations: isEmpty, containsAny, containsAll, consistsOf and isSubsetOf follow set semantics on key:value labels.
//
//verif:quick 120s
//verif:thorough 200s
//verif:bounds every sequence of 1-3 tokens (thorough: 4) over the five set operations, a label, !, && and parentheses, against label sets of at most 3 labels over {k:v, K:W, k: v, a, kk:v}
//verif:reach wellformed malformed match nomatch
func VerifC05_Sets() {
	labels := []string{}
	all := []string{"k:v", "K : W", "k: v", "a", "kk:v"}
	for i := range all {
		if vf.Bool("has") {
			labels = append(labels, all[i])
		}
	}
	vf.Assume(len(labels) <= 3)
	n := 1 + vf.Pick("n", 3+vf.Tier())
	vzFilter(n, []string{"k: isEmpty", "k: containsAny {v, W}", "K: containsALL {w,v}", "k: consistsOf {V}", "k: consistsOf {v, v}", "k: isSubsetOf v", "a", "!", "&&", "(", ")"}, labels)
}

// A label accepted for a spec is never one the filter language could not name: accepted labels are non-empty, trimmed
// and free of operator characters, and filtering by the label itself matches.
//
//verif:quick 30s
//verif:thorough 200s
//verif:bounds every label of at most 4 bytes (thorough: 5) over " &|!,()/:ab"
//verif:reach accepted rejected
func VerifC05_Labels() {
	l := vf.String("label", 4+vf.Tier(), " &|!,()/:ab")
	out, err := ValidateAndCleanupLabel(l, CodeLocation{})
	vf.Observe("err", err != nil)
	if err != nil {
		vf.Reach("rejected")
		t := strings.TrimSpace(l)
		bad := t == "" || strings.ContainsAny(t, "&|!,()/") || t[0] == ':' || strings.Index(t, ":") == len(t)-1
		vf.Assert(bad, "only empty labels, labels with operator characters and incomplete key:value labels are rejected")
		return
	}
	vf.Reach("accepted")
	vf.Observe("out", out)
	vf.Assert(out == strings.TrimSpace(l) && out != "", "an accepted label is the trimmed text")
	vf.Assert(!strings.ContainsAny(out, "&|!,()/"), "an accepted label has no operator characters")
	if !strings.Contains(out, ":") {
		f, err := ParseLabelFilter(out)
		vf.Assert(err == nil, "a plain label is a valid filter")
		if err == nil {
			vf.Assert(f([]string{out}), "a plain label used as the filter matches itself")
			vf.Assert(!f([]string{out + "x"}), "a plain label used as the filter does not match other labels")
		}
	}
}

// One set operation with any values against any labels: values and keys are compared as sets, ignoring case and spaces.
//
//verif:quick 120s
//verif:thorough 300s
//verif:bounds "K: op {v1, v2, v3}" (and without braces for one value) for the five operations in either case, with 1-3 (thorough: also longer) values over {a, A, b, ab}, possibly repeated, and optional spaces, against 0-3 labels "key:value" over keys {k, K, kk} and the same values plus c
//verif:reach match nomatch repeated
func VerifC05_SetValues() {
	vals := []string{"a", "A", "b", "ab"}
	ops := []string{"isEmpty", "containsAny", "containsAll", "consistsOf", "isSubsetOf"}
	op := vf.Pick("op", len(ops))
	nv := 0
	if op > 0 {
		nv = 1 + vf.Pick("values", 3)
	}
	sp := ""
	name := ops[op]
	if vf.Bool("odd spelling") {
		sp = " "
		name = strings.ToUpper(name)
	}
	want := []string{}
	list := ""
	for i := 0; i < nv; i++ {
		v := vals[vf.Pick("value", len(vals))]
		if i > 0 {
			list += "," + sp
		}
		list += v + sp
		if vzIn(strings.ToLower(v), want) {
			vf.Reach("repeated")
		} else {
			want = append(want, strings.ToLower(v))
		}
	}
	text := "K:" + sp + " " + name
	switch {
	case nv == 1 && sp == "":
		text += " " + list
	case nv > 0:
		text += " {" + sp + list + "}"
	}
	labels := []string{}
	nl := vf.Pick("labels", 3+vf.Tier())
	for i := 0; i < nl; i++ {
		v := append(vals, "c")[vf.Pick("label value", len(vals)+1)]
		labels = append(labels, []string{"k:", "K :", "kk: "}[vf.Pick("key", 3)]+v)
	}
	f, err := ParseLabelFilter(text)
	vf.Assert(err == nil, "a set operation is accepted in any letter case and spacing")
	if err != nil {
		return
	}
	have := vzSet(labels, "k")
	all, any, sub := true, false, true
	for _, v := range want {
		all = all && vzIn(v, have)
		any = any || vzIn(v, have)
	}
	for _, v := range have {
		sub = sub && vzIn(v, want)
	}
	exp := [5]bool{len(have) == 0, any, all, all && sub, sub}[op]
	got := f(labels)
	if got {
		vf.Reach("match")
	} else {
		vf.Reach("nomatch")
	}
	vf.Assert(got == exp, "a set operation matches exactly the label sets it describes")
}
