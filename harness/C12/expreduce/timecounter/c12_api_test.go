package timecounter

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// Reference accounting: per counter, per name, the list of durations.
type c12Ref [4]map[string][]float64

func c12New() c12Ref {
	r := c12Ref{}
	for i := range r {
		r[i] = map[string][]float64{}
	}
	return r
}

func c12Sum(l []float64) (s float64) {
	for _, x := range l {
		s += x
	}
	return
}

// c12Report checks a printed report against the reference.
func c12Report(r *vRec, in string, g *Group, ref c12Ref) {
	text := g.String()
	secs := [][]string{{}}
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			secs = append(secs, nil)
			continue
		}
		secs[len(secs)-1] = append(secs[len(secs)-1], l)
	}
	n := 0
	for i := 0; i < 4; i++ {
		n += len(ref[i])
	}
	r.Case("report", in, n > 0)
	if len(secs) < 4 {
		r.Fail("report-sections", in, "four sections", fmt.Sprintf("%q", text))
		return
	}
	for i := 0; i < 4; i++ {
		seen := map[string]bool{}
		last := 0.0
		for j, l := range secs[i] {
			f := strings.SplitN(l, ", ", 3)
			if len(f) != 3 {
				r.Fail("report-line", in, "total, count, name", l)
				return
			}
			tot, e1 := strconv.ParseFloat(f[0], 64)
			cnt, e2 := strconv.ParseInt(f[1], 10, 64)
			want, ok := ref[i][f[2]]
			if e1 != nil || e2 != nil || !ok || tot != c12Sum(want) || cnt != int64(len(want)) {
				r.Fail("report-line", in, fmt.Sprintf("counter %d name %q: total %v count %d", i+1, f[2], c12Sum(want), len(want)), l)
			}
			if seen[f[2]] {
				r.Fail("report-once", in, "each name at most once", f[2])
			}
			seen[f[2]] = true
			if j > 0 && tot > last {
				r.Fail("report-order", in, "most expensive first", fmt.Sprint(secs[i]))
			}
			last = tot
		}
		if len(seen) == 0 && len(ref[i]) > 0 {
			r.Fail("report-empty", in, "the most expensive names", "nothing")
		}
		for k, v := range ref[i] {
			if !seen[k] && len(seen) > 0 && c12Sum(v) > last {
				r.Fail("report-omission", in, fmt.Sprintf("counter %d: %q (%v) before anything cheaper", i+1, k, c12Sum(v)), fmt.Sprint(secs[i]))
			}
		}
	}
}

func TestVerifC12API(t *testing.T) {
	r := vStart(t, "histories of AddTime and Update over three groups and four counters, every report compared with the durations recorded (binary fractions, so sums are exact); non-trivial when something was recorded", "histories of at most 60 steps, 40 names")
	defer r.Done()
	names := []string{}
	for i := 0; i < 40; i++ {
		names = append(names, fmt.Sprintf("f%d[x, y]", i))
	}
	names[3], names[5], names[7] = "a, b, c", "", " pad"
	durs := []float64{0, 0.25, 0.5, 1, 2, 3.75, 1024, 0.0009765625}
	ctr := []counterGroupType{CounterGroupDefTime, CounterGroupLHSDefTime, CounterGroupEvalTime, CounterGroupHeadEvalTime}
	run := func(steps, nn int) {
		var g [3]Group
		var ref [3]c12Ref
		for i := range g {
			g[i].Init()
			ref[i] = c12New()
		}
		h := []string{}
		for s := 0; s < steps && !r.Failed(); s++ {
			i := r.Rnd.Intn(3)
			if r.Rnd.Intn(6) == 0 {
				j := (i + 1 + r.Rnd.Intn(2)) % 3
				h = append(h, fmt.Sprintf("g%d.Update(g%d)", i, j))
				in := strings.Join(h, "; ")
				r.Run("update", in, func() {
					g[i].Update(&g[j])
					for c := 0; c < 4; c++ {
						for k, v := range ref[j][c] {
							ref[i][c][k] = append(append([]float64{}, ref[i][c][k]...), v...)
						}
					}
					c12Report(r, in, &g[i], ref[i])
					c12Report(r, in, &g[j], ref[j])
				})
				continue
			}
			c, k, d := r.Rnd.Intn(4), names[r.Rnd.Intn(nn)], durs[r.Rnd.Intn(len(durs))]
			h = append(h, fmt.Sprintf("g%d.AddTime(%d,%q,%v)", i, c+1, k, d))
			in := strings.Join(h, "; ")
			r.Run("add", in, func() {
				g[i].AddTime(ctr[c], k, d)
				ref[i][c][k] = append(ref[i][c][k], d)
				if s%4 == 0 || s == steps-1 {
					for x := range g {
						c12Report(r, in, &g[x], ref[x])
					}
				}
			})
		}
	}
	k := 250
	if r.Deep {
		k = 4000
	}
	for i := 0; i < k && !r.Failed(); i++ {
		run(1+r.Rnd.Intn(60), 1+r.Rnd.Intn(40))
	}
	// many names, many ties
	for _, n := range []int{1, 2, 24, 25, 26, 27, 30, 60, 200} {
		for _, ties := range []int{1, 2, 3, 10, 1000} {
			var g Group
			g.Init()
			ref := c12New()
			in := fmt.Sprintf("%d names recorded once, groups of %d with equal totals", n, ties)
			r.Run("report", in, func() {
				order := r.Rnd.Perm(n)
				for _, i := range order {
					c := i % 4
					nm := fmt.Sprint("n", i)
					d := float64(1+i/ties) * 0.5
					g.AddTime(ctr[c], nm, d)
					ref[c][nm] = append(ref[c][nm], d)
				}
				c12Report(r, in, &g, ref)
			})
		}
	}
	sort.Strings(names)
}
