package expreduce

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// c16t is a term of the reference: an atom or a list of parts.
type c16t struct {
	a string
	k []*c16t
}

func c16a(s string) *c16t { return &c16t{a: s} }
func c16c(h string, ps ...*c16t) *c16t {
	return &c16t{k: append([]*c16t{c16a(h)}, ps...)}
}
func (t *c16t) is(h string) bool { return t.k != nil && t.k[0].k == nil && t.k[0].a == h }
func (t *c16t) s() string {
	if t.k == nil {
		return t.a
	}
	var l []string
	for _, p := range t.k[1:] {
		l = append(l, p.s())
	}
	return t.k[0].s() + "[" + strings.Join(l, ", ") + "]"
}
func (t *c16t) ex() expreduceapi.Ex {
	if t.k != nil {
		var l []expreduceapi.Ex
		for _, p := range t.k {
			l = append(l, p.ex())
		}
		return atoms.NewExpression(l)
	}
	if t.a[0] == '"' {
		return atoms.NewString(t.a[1 : len(t.a)-1])
	}
	if n, err := strconv.ParseInt(t.a, 10, 64); err == nil {
		return vInt(n)
	}
	return vSym(t.a)
}

// The reference: what evaluation makes of a term whose symbols have no
// definitions, for the attributes of the heads used below.
func c16splice(ps []*c16t, h string) []*c16t {
	var r []*c16t
	for _, p := range ps {
		if p.is(h) {
			r = append(r, p.k[1:]...)
		} else {
			r = append(r, p)
		}
	}
	return r
}

func c16flat(t *c16t, level int) []*c16t {
	var r []*c16t
	for _, p := range t.k[1:] {
		if level != 0 && p.k != nil && p.k[0].s() == t.k[0].s() {
			r = append(r, c16flat(p, level-1)...)
		} else {
			r = append(r, p)
		}
	}
	return r
}

func c16thread(t *c16t) (*c16t, bool) {
	n := -1
	for _, p := range t.k[1:] {
		if p.is("List") {
			if n >= 0 && n != len(p.k)-1 {
				return t, false
			}
			n = len(p.k) - 1
		}
	}
	if n < 0 {
		return t, false
	}
	r := c16c("List")
	for i := 1; i <= n; i++ {
		e := &c16t{k: []*c16t{t.k[0]}}
		for _, p := range t.k[1:] {
			if p.is("List") {
				e.k = append(e.k, p.k[i])
			} else {
				e.k = append(e.k, p)
			}
		}
		r.k = append(r.k, e)
	}
	return r, true
}

func c16ev(t *c16t) *c16t {
	if t.k == nil {
		return t
	}
	h := c16ev(t.k[0])
	hn := ""
	if h.k == nil {
		hn = h.a
	}
	hold := hn == "Hold" || hn == "HoldComplete"
	var args []*c16t
	for _, p := range t.k[1:] {
		if !hold && !p.is("Unevaluated") {
			p = c16ev(p)
		}
		args = append(args, p)
	}
	if hn != "HoldComplete" && hn != "sh" {
		args = c16splice(args, "Sequence")
	}
	if hn == "Hold" {
		var r []*c16t
		for _, p := range args {
			if p.is("Evaluate") {
				for _, q := range p.k[1:] {
					r = append(r, c16ev(q))
				}
			} else {
				r = append(r, p)
			}
		}
		args = r
		for again := true; again; { // to the fixed point
			again = false
			for _, p := range args {
				again = again || p.is("Sequence")
			}
			args = c16splice(args, "Sequence")
		}
	}
	r := &c16t{k: append([]*c16t{h}, args...)}
	switch hn {
	case "fl", "fo":
		r.k = append([]*c16t{h}, c16splice(r.k[1:], hn)...)
	case "li":
		if x, ok := c16thread(r); ok {
			return c16ev(x)
		}
	case "Flatten":
		if len(r.k) >= 2 && r.k[1].k != nil {
			l := -1
			if len(r.k) > 2 {
				l, _ = strconv.Atoi(r.k[2].a)
			}
			return c16ev(&c16t{k: append([]*c16t{r.k[1].k[0]}, c16flat(r.k[1], l)...)})
		}
	case "Thread":
		if len(r.k) == 2 && r.k[1].k != nil {
			x, ok := c16thread(r.k[1])
			if ok {
				return c16ev(x)
			}
			return x
		}
	}
	return r
}

type c16gen struct{ n func(int) int }

var c16atoms = []string{"a", "b", "c", "1", "2", "17", "\"s\"", "a"}

func (g c16gen) leaf() *c16t { return c16a(c16atoms[g.n(len(c16atoms))]) }

// a term over the given heads
func (g c16gen) term(d int, heads []string) *c16t {
	if d == 0 || g.n(4) == 0 {
		return g.leaf()
	}
	var ps []*c16t
	for n := g.n(5); n > 0; n-- {
		ps = append(ps, g.term(d-1, heads))
	}
	t := c16c(heads[g.n(len(heads))], ps...)
	if t.k[0].a == "cg" { // a head with arguments
		t.k[0] = c16c("g", g.leaf())
	}
	return t
}

func c16eval(es *EvalState, t *c16t) (got string, kept bool) {
	e := t.ex()
	before := vFF(e)
	got = vFF(es.Eval(e))
	return got, vFF(e) == before
}

func TestVerifC16Parts(t *testing.T) {
	r := vStart(t, "splicing, flattening and threading against a reference on terms", "terms of depth <= 5 with <= 5 parts per node, random")
	defer r.Done()
	es := NewEvalState()
	for _, s := range []string{"Attributes[fl] = {Flat}", "Attributes[li] = {Listable}", "Attributes[sh] = {SequenceHold}"} {
		EvalInterp(s, es)
	}
	g := c16gen{r.Rnd.Intn}
	try := func(clause string, x *c16t) {
		in := x.s()
		r.Run(clause, in, func() {
			got, kept := c16eval(es, x)
			want := c16ev(x).s()
			r.Check(clause, in, true, got == want, want, got)
			r.Check("original", in, true, kept, "unchanged", "changed")
		})
	}
	n := 1500
	if r.Deep {
		n = 20000
	}
	for i := 0; i < n && !r.Failed(); i++ {
		d := 2 + g.n(4)
		try("splice", g.term(d, []string{"f", "Sequence", "Sequence", "g", "List", "cg", "sh"}))
		x := g.term(d, []string{"Sequence", "f", "Evaluate", "g", "Hold", "HoldComplete"})
		try("splice", c16c([]string{"Hold", "HoldComplete"}[g.n(2)], noEval(x, "Evaluate"), c16c("Sequence", g.leaf(), g.leaf()), c16c("Evaluate", noEval(g.term(2, []string{"f", "Sequence"}), "Evaluate"))))
		// flattening, of lists and of other heads, to a level
		y := g.term(d, []string{"List", "List", "f", "cg"})
		if y.k == nil {
			y = c16c("List", y, g.term(3, []string{"List"}))
		}
		if g.n(3) == 0 {
			try("flatten", c16c("Flatten", y))
		} else {
			try("flatten", c16c("Flatten", y, c16a(fmt.Sprint(g.n(6)))))
		}
		z := g.term(d, []string{"f", "f", "List", "g"})
		try("flatten", c16c("Flatten", c16c("f", z, g.term(3, []string{"f"}))))
		// a flat function
		try("flat-function", c16c("fl", g.term(d, []string{"fl", "fl", "f", "Sequence", "List"}), g.term(2, []string{"fl", "Sequence"})))
		// threading
		k := g.n(4)
		mk := func() *c16t {
			l := c16c("List")
			for j := 0; j < k; j++ {
				l.k = append(l.k, g.term(2, []string{"f", "List", "g"}))
			}
			return l
		}
		for _, hd := range []string{"f", "li", "cg"} {
			w := c16c(hd)
			if hd == "cg" {
				w.k[0] = c16c("g", g.leaf())
			}
			for j := g.n(4); j >= 0; j-- {
				if g.n(2) == 0 {
					w.k = append(w.k, mk())
				} else {
					w.k = append(w.k, g.term(2, []string{"f", "g"}))
				}
			}
			if g.n(5) == 0 {
				w.k = append(w.k, c16c("List", g.leaf()))
			}
			if hd == "li" {
				try("thread-listable", w)
			} else {
				try("thread", c16c("Thread", w))
			}
		}
	}
	for _, s := range [][2]string{
		{"Flatten[{1, {2, {3, {4}}}}, 18446744073709551616]", "List[1, 2, 3, 4]"},
		{"Flatten[{1, {2, {3, {4}}}}, -18446744073709551616]", "List[1, List[2, List[3, List[4]]]]"},
		{"Sequence[][]", "Sequence[][]"},
		{"Sequence[a, b][c, Sequence[d]]", "Sequence[a, b][c, d]"},
	} {
		r.Run("edge", s[0], func() { got := vEv(es, s[0]); r.Check("edge", s[0], true, got == s[1], s[1], got) })
	}
	// sharing: a stored value is not changed by using it
	r.Run("original", "stored", func() {
		vEv(es, "st = Hold[f[Sequence[a, b]], fl[a, fl[b]], {1, {2}}]")
		want := vEv(es, "st")
		vEv(es, "ReleaseHold[st]")
		vEv(es, "Apply[f, st]; Apply[fl, st]; Flatten[Apply[List, st]]")
		vEv(es, "Flatten[{st, {st}}]")
		got := vEv(es, "st")
		r.Check("original", "stored", true, got == want, want, got)
	})
}

// noEval takes the marks h away outside of Hold (there they are functions
// whose definition is another matter).
func noEval(t *c16t, h string) *c16t {
	if t.k == nil {
		return t
	}
	r := &c16t{}
	for i, p := range t.k {
		if i == 0 && p.a == h {
			p = c16a("g")
		}
		r.k = append(r.k, noEval(p, h))
	}
	return r
}
