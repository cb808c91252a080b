package types

import (
	"fmt"
	"strings"

	vf "github.com/onsi/ginkgo/v2/internal/vf"
)

// A file filter matches exactly the locations its file expression matches whose line it lists, in whatever order and
// overlap the lines are listed; a spec's location list matches if any location does.
//
//verif:quick 120s
//verif:thorough 300s
//verif:bounds one or two filters, each one of 3 file expressions with 0-3 line items (a line, or a range MIN-MAX) with symbolic line numbers 1..12 in every order, against 1-2 locations with 3 files and symbolic lines
//verif:reach match nomatch line range
func VerifC04_FileFilterLines() {
	exprs := []string{"a_test", "^/x/", "b|c_test"}
	files := []string{"/x/a_test.go", "/y/b_test.go", "/x/c_test.go"}
	matches := [][]bool{{true, false, false}, {true, false, true}, {false, true, true}}
	nl := 1 + vf.Tier()*vf.Pick("locations", 2)
	type loc struct{ file, line int }
	locs := []loc{}
	cls := []CodeLocation{}
	for i := 0; i < nl; i++ {
		l := loc{vf.Pick("file", 3), vf.Int("line", 1, 12)}
		locs = append(locs, l)
		cls = append(cls, CodeLocation{FileName: files[l.file], LineNumber: l.line})
	}
	ffs := FileFilters{}
	want := false
	nf := 1 + vf.Tier()*vf.Pick("filters", 2)
	for i := 0; i < nf; i++ {
		e := vf.Pick("expression", 3)
		items := vf.Pick("lines", 4-nf*vf.Tier())
		parts := []string{}
		in := make([]bool, nl)
		for k := range in {
			in[k] = items == 0
		}
		lo, hi := make([]int, items), make([]int, items)
		for j := 0; j < items; j++ {
			lo[j] = vf.Int("min", 1, 12)
			hi[j] = lo[j] + 1
			if vf.Bool("range") {
				hi[j] = vf.Int("max", 1, 12)
				vf.Reach("range")
				parts = append(parts, fmt.Sprintf("%d-%d", 20+j, 40+j))
			} else {
				vf.Reach("line")
				parts = append(parts, fmt.Sprintf("%d", 20+j))
			}
			for k := range in {
				in[k] = vf.Or(in[k], vf.And(lo[j] <= locs[k].line, locs[k].line < hi[j]))
			}
		}
		text := exprs[e]
		if items > 0 {
			text += ":" + strings.Join(parts, ",")
		}
		ff, err := ParseFileFilters([]string{text})
		vf.Assert(err == nil && len(ff) == 1, "a well-formed file filter is accepted")
		if err != nil {
			return
		}
		// the parsed filter lists the lines as written; put the symbolic lines in their place
		vf.Assert(len(ff[0].LineFilters) == items, "every line item is kept")
		for j := 0; j < items; j++ {
			if strings.Contains(parts[j], "-") {
				vf.Assert(ff[0].LineFilters[j] == LineFilter{20 + j, 40 + j}, "a range is read as written")
			} else {
				vf.Assert(ff[0].LineFilters[j] == LineFilter{20 + j, 21 + j}, "a line is read as written")
			}
			ff[0].LineFilters[j] = LineFilter{lo[j], hi[j]}
		}
		ffs = append(ffs, ff[0])
		for k := range in {
			want = vf.Or(want, vf.And(matches[e][locs[k].file], in[k]))
		}
	}
	got := ffs.Matches(cls)
	if got {
		vf.Reach("match")
	} else {
		vf.Reach("nomatch")
	}
	vf.Assert(got == want, "a file filter matches exactly the listed lines of the matching files")
}

// Every text is either rejected or read as the documented FILE[:LINE|MIN-MAX,...] form, and nothing panics.
//
//verif:quick 60s
//verif:thorough 200s
//verif:bounds every text of at most 5 bytes (thorough: 6) over "a:,-15 "
//verif:reach accepted rejected
func VerifC04_FileFilterTexts() {
	text := vf.String("text", 5+vf.Tier(), "a:,-15 ")
	ffs, err := ParseFileFilters([]string{text})
	// the documented form
	ok := text != ""
	type item struct{ lo, hi int }
	items := []item{}
	file := text
	if i := strings.Index(text, ":"); i >= 0 {
		file = text[:i]
		for _, part := range strings.Split(text[i+1:], ",") {
			nums := []int{}
			for _, s := range strings.Split(part, "-") {
				s = strings.TrimSpace(s)
				n := 0
				for k := 0; k < len(s); k++ {
					if s[k] != '1' && s[k] != '5' {
						n = -1
						break
					}
					n = n*10 + int(s[k]-'0')
				}
				if s == "" || n < 0 {
					ok = false
				}
				nums = append(nums, n)
			}
			switch len(nums) {
			case 1:
				items = append(items, item{nums[0], nums[0] + 1})
			case 2:
				items = append(items, item{nums[0], nums[1]})
			default:
				ok = false
			}
		}
	}
	vf.Assert((err == nil) == ok, "exactly the well-formed file filters are accepted")
	vf.Observe("err", err != nil)
	if err != nil || !ok {
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	line := vf.Int("line", 0, 200)
	want := len(items) == 0
	for _, it := range items {
		want = vf.Or(want, vf.And(it.lo <= line, line < it.hi))
	}
	name := "x" + file + "y"
	vf.Assert(ffs.Matches([]CodeLocation{{FileName: name, LineNumber: line}}) == want, "a file filter matches exactly the lines it lists")
	vf.Assert(!ffs.Matches(nil), "a file filter matches no location in an empty list")
}
