package expreduce

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// The same enumeration seen through ReplaceList: all matches of a sequence
// pattern, each listed once.
func TestVerifC05ReplaceList(t *testing.T) {
	r := vStart(t, "ReplaceList of f[e1..en] by a pattern of up to 3 sequence blanks, compared with all splits (ordered head) or all deals (orderless head)", "n <= 5, at most 3 sequence variables")
	defer r.Done()
	es := NewEvalState()
	EvalInterp("SetAttributes[vo, Orderless]", es)
	blanks := []struct {
		src    string
		lo, hi int
	}{{"_", 1, 1}, {"__", 1, 99}, {"___", 0, 99}}
	for _, head := range []string{"vf", "vo"} {
		for n := 0; n <= 5; n++ {
			var el []string
			for i := 0; i < n; i++ {
				el = append(el, fmt.Sprint("e", i))
			}
			var rec func(bl []int)
			rec = func(bl []int) {
				var pat, rhs []string
				for i, b := range bl {
					pat = append(pat, fmt.Sprintf("v%d%s", i, blanks[b].src))
					rhs = append(rhs, fmt.Sprintf("{v%d}", i))
				}
				in := fmt.Sprintf("ReplaceList[%s[%s], %s[%s] -> {%s}]", head, strings.Join(el, ","), head, strings.Join(pat, ","), strings.Join(rhs, ","))
				r.Run("replacelist", in, func() {
					var want []string
					slot := make([]int, n)
					var deal func(i int)
					deal = func(i int) {
						if i == n {
							parts := make([][]string, len(bl))
							for j, s := range slot {
								parts[s] = append(parts[s], el[j])
							}
							var l []string
							for s, b := range bl {
								if len(parts[s]) < blanks[b].lo || len(parts[s]) > blanks[b].hi {
									return
								}
								l = append(l, "List["+strings.Join(parts[s], ", ")+"]")
							}
							want = append(want, "List["+strings.Join(l, ", ")+"]")
							return
						}
						for s := range bl {
							if head == "vf" && i > 0 && s < slot[i-1] {
								continue
							}
							slot[i] = s
							deal(i + 1)
						}
					}
					deal(0)
					sort.Strings(want)
					res := vEv(es, in)
					// canonical order of the outer list, for comparison as a multiset
					got := strings.TrimSuffix(strings.TrimPrefix(res, "List["), "]")
					var gs []string
					depth, st := 0, 0
					for i := 0; i < len(got); i++ {
						switch got[i] {
						case '[':
							depth++
						case ']':
							depth--
							if depth == 0 {
								gs = append(gs, strings.TrimPrefix(got[st:i+1], ", "))
								st = i + 1
							}
						}
					}
					sort.Strings(gs)
					r.Check("replacelist", in, len(want) > 0, strings.Join(gs, ";") == strings.Join(want, ";"), strings.Join(want, ";"), strings.Join(gs, ";"))
				})
				if len(bl) < 3 {
					for b := range blanks {
						rec(append(append([]int{}, bl...), b))
					}
				}
			}
			rec(nil)
		}
	}
}
