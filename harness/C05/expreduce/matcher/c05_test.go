package matcher

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// Reference enumeration of slot sizes, by definition.
func c05Allocs(n int, forms []parsedForm) []string {
	var out []string
	cur := make([]int, len(forms))
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == len(forms) {
			if left == 0 {
				out = append(out, fmt.Sprint(cur))
			}
			return
		}
		for k := 0; k <= left; k++ {
			if k >= forms[i].startI && k <= forms[i].endI {
				cur[i] = k
				rec(i+1, left-k)
			}
		}
	}
	rec(0, n)
	sort.Strings(out)
	return out
}

// Reference enumeration of orderless deals: every element goes to one slot.
func c05Deals(n int, forms []parsedForm, fm [][]bool) []string {
	var out []string
	slot := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			parts := make([][]int, len(forms))
			for j, s := range slot {
				parts[s] = append(parts[s], j)
			}
			for s := range forms {
				if len(parts[s]) < forms[s].startI || len(parts[s]) > forms[s].endI {
					return
				}
			}
			out = append(out, c05Key(parts))
			return
		}
		for s := range forms {
			if fm[s][i] {
				slot[i] = s
				rec(i + 1)
			}
		}
	}
	rec(0)
	sort.Strings(out)
	return out
}

func c05Key(parts [][]int) string {
	var l []string
	for _, p := range parts {
		q := append([]int{}, p...)
		sort.Ints(q)
		l = append(l, fmt.Sprint(q))
	}
	return strings.Join(l, "")
}

func c05In(n int, forms []parsedForm, fm [][]bool) string {
	var l []string
	for _, f := range forms {
		e := fmt.Sprint(f.endI)
		if f.endI > 1<<40 {
			e = "inf"
		}
		s := fmt.Sprintf("%d..%s", f.startI, e)
		if f.isOptional {
			s += "?"
		}
		l = append(l, s)
	}
	s := fmt.Sprintf("%d elements into [%s]", n, strings.Join(l, " "))
	if fm != nil {
		var m []string
		for _, row := range fm {
			b := ""
			for _, x := range row {
				if x {
					b += "1"
				} else {
					b += "0"
				}
			}
			m = append(m, b)
		}
		s += " admitting [" + strings.Join(m, " ") + "]"
	}
	return s
}

func c05Forms(r *vRec, maxn int) []parsedForm {
	k := r.Rnd.Intn(5)
	var fs []parsedForm
	for i := 0; i < k; i++ {
		f := parsedForm{}
		switch r.Rnd.Intn(6) {
		case 0:
			f.startI, f.endI = 1, 1
		case 1:
			f.startI, f.endI = 0, int(^uint(0)>>1)
		case 2:
			f.startI, f.endI = 1, int(^uint(0)>>1)
		case 3:
			f.startI, f.endI = 0, 1
			f.isOptional = true
		case 4:
			f.startI = r.Rnd.Intn(4)
			f.endI = f.startI + r.Rnd.Intn(4) - 1
		case 5:
			f.startI = r.Rnd.Intn(3)
			f.endI = f.startI + r.Rnd.Intn(3)
			f.isOptional = r.Rnd.Intn(2) == 0
		}
		fs = append(fs, f)
	}
	return fs
}

func c05Check(r *vRec, clause, in string, got, want []string) {
	s := append([]string{}, got...)
	sort.Strings(s)
	ok := len(s) == len(want)
	for i := 0; ok && i < len(s); i++ {
		ok = s[i] == want[i]
	}
	g, w := fmt.Sprint(s), fmt.Sprint(want)
	if !ok {
		g = fmt.Sprintf("%d: %.300s", len(s), g)
		w = fmt.Sprintf("%d: %.300s", len(want), w)
	}
	r.Check(clause, in, len(want) > 0, ok, w, g)
}

func c05Copy(fm [][]bool) [][]bool {
	var o [][]bool
	for _, x := range fm {
		o = append(o, append([]bool{}, x...))
	}
	return o
}

func TestVerifC05(t *testing.T) {
	r := vStart(t, "slot lists with random bounds (exact, optional, open, empty range), enumerated completely by the iterators and compared as multisets with an enumeration by definition; non-trivial when at least one tuple or deal exists", "n <= 9 for allocations, n <= 6 elements and 4 slots for deals")
	defer r.Done()
	k := 4000
	if r.Deep {
		k = 60000
	}
	drainAlloc := func(n int, forms []parsedForm) []string {
		ai := newAllocIter(n, forms)
		var got []string
		for ai.next() {
			got = append(got, fmt.Sprint(ai.alloc))
			if len(got) > 200000 {
				break
			}
		}
		for x := 0; x < 3; x++ {
			if ai.next() {
				got = append(got, "after the end: "+fmt.Sprint(ai.alloc))
			}
		}
		return got
	}
	fixed := [][]parsedForm{
		{}, {{startI: 0, endI: 0}}, {{startI: 0, endI: 1, isOptional: true}, {startI: 0, endI: 1, isOptional: true}},
		{{startI: 2, endI: 5, isOptional: true}, {startI: 1, endI: 3}}, {{startI: 0, endI: 0}, {startI: 0, endI: 0}},
	}
	for i := 0; i < k && !r.Failed(); i++ {
		forms := c05Forms(r, 6)
		n := r.Rnd.Intn(10)
		if i < 6*len(fixed) {
			forms, n = fixed[i/6], i%6
		}
		in := c05In(n, forms, nil)
		r.Run("allocations", in, func() { c05Check(r, "allocations", in, drainAlloc(n, forms), c05Allocs(n, forms)) })
	}
	for i := 0; i < k && !r.Failed(); i++ {
		forms := c05Forms(r, 6)
		n := r.Rnd.Intn(7)
		if i < 6*len(fixed) {
			forms, n = fixed[i/6], i%6
		}
		p := r.Rnd.Intn(4)
		fm := make([][]bool, len(forms))
		for j := range fm {
			fm[j] = make([]bool, n)
			for x := range fm[j] {
				fm[j][x] = p == 0 || r.Rnd.Intn(p+1) > 0
			}
		}
		in := c05In(n, forms, fm)
		r.Run("deals", in, func() {
			fm2 := c05Copy(fm)
			asi := newAssnIter(n, forms, fm2, true)
			var got []string
			for asi.next() {
				g := c05Key(asi.assns)
				tot := 0
				for _, a := range asi.assns {
					tot += len(a)
				}
				if len(asi.assns) != len(forms) || tot != n {
					g = "malformed " + g
				}
				got = append(got, g)
				if len(got) > 100000 {
					break
				}
			}
			for x := 0; x < 3; x++ {
				if asi.next() {
					got = append(got, "after the end: "+c05Key(asi.assns))
				}
			}
			c05Check(r, "deals", in, got, c05Deals(n, forms, fm))
			r.Check("admission-unchanged", in, true, fmt.Sprint(fm2) == fmt.Sprint(fm), fmt.Sprint(fm), fmt.Sprint(fm2))
		})
		r.Run("ordered", in, func() {
			asi := newAssnIter(n, forms, c05Copy(fm), false)
			var got []string
			var want []string
			for _, a := range c05Allocs(n, forms) {
				want = append(want, a)
			}
			for asi.next() {
				l := []int{}
				next := 0
				g := ""
				for _, a := range asi.assns {
					l = append(l, len(a))
					for _, x := range a {
						if x != next {
							g = "out of order "
						}
						next++
					}
				}
				if next != n {
					g += "wrong total "
				}
				if len(l) == 0 {
					got = append(got, g+"[]")
				} else {
					got = append(got, g+fmt.Sprint(l))
				}
				if len(got) > 100000 {
					break
				}
			}
			c05Check(r, "ordered", in, got, want)
		})
	}
}
