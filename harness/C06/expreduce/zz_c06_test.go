package expreduce

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/matcher"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// A term of the reference matcher: an atom (text) or a list of parts.
type c06t struct {
	a string
	k []*c06t
}

func c06a(s string) *c06t { return &c06t{a: s} }
func c06c(h string, ps ...*c06t) *c06t {
	return &c06t{k: append([]*c06t{c06a(h)}, ps...)}
}
func (t *c06t) s() string {
	if t.k == nil {
		return t.a
	}
	var l []string
	for _, p := range t.k[1:] {
		l = append(l, p.s())
	}
	return t.k[0].s() + "[" + strings.Join(l, ",") + "]"
}
func (t *c06t) is(h string) bool { return t.k != nil && t.k[0].k == nil && t.k[0].a == h }

func (t *c06t) ex() expreduceapi.Ex {
	if t.k != nil {
		var l []expreduceapi.Ex
		for _, p := range t.k {
			l = append(l, p.ex())
		}
		return atoms.NewExpression(l)
	}
	switch c := t.a[0]; {
	case c == '"':
		return atoms.NewString(t.a[1 : len(t.a)-1])
	case c >= '0' && c <= '9':
		if strings.Contains(t.a, "/") {
			q, _ := new(big.Rat).SetString(t.a)
			return atoms.NewRational(q.Num(), q.Denom())
		}
		if strings.Contains(t.a, ".") {
			f, _, _ := big.ParseFloat(t.a, 10, 64, big.ToNearestEven)
			return atoms.NewReal(f)
		}
		n, _ := new(big.Int).SetString(t.a, 10)
		return atoms.NewInteger(n)
	}
	return vSym(t.a)
}

func c06of(e expreduceapi.Ex) *c06t {
	switch x := e.(type) {
	case *atoms.Expression:
		t := &c06t{k: []*c06t{}}
		for _, p := range x.Parts {
			t.k = append(t.k, c06of(p))
		}
		return t
	case *atoms.Rational:
		return c06a(x.Num.String() + "/" + x.Den.String())
	case *atoms.Flt:
		return c06a(x.Val.Text('g', 5))
	}
	return c06a(vFF(e))
}

func c06head(t *c06t) string {
	if t.k != nil {
		return t.k[0].s()
	}
	switch c := t.a[0]; {
	case c == '"':
		return "String"
	case c >= '0' && c <= '9':
		if strings.Contains(t.a, "/") {
			return "Rational"
		}
		if strings.Contains(t.a, ".") {
			return "Real"
		}
		return "Integer"
	}
	return "Symbol"
}

type c06env map[string]string

func (e c06env) with(n string, v *c06t) (c06env, bool) {
	s := c06canon(n, v)
	if o, ok := e[n]; ok {
		return e, o == s
	}
	r := c06env{n: s}
	for k, v := range e {
		r[k] = v
	}
	return r, true
}
func (e c06env) s() string {
	var l []string
	for k, v := range e {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// c06canon: a sequence of one element stands for the element (the matcher
// sometimes keeps the wrapper, which evaluation drops); likewise the wrapper of
// a flat head around one element; sequences taken from an orderless head have
// no order of their own.
func c06canon(n string, t *c06t) string {
	if len(t.k) == 2 && (t.is("Sequence") || n[0] == 'f' && t.is("cfl")) {
		return c06canon("-", t.k[1])
	}
	if t.is("Sequence") && c06sorted {
		var l []string
		for _, p := range t.k[1:] {
			l = append(l, p.s())
		}
		sort.Strings(l)
		return "Sequence[" + strings.Join(l, ",") + "]"
	}
	return t.s()
}

var c06sorted bool

func c06blank(p *c06t) (lo, hi int, ok bool) {
	switch {
	case p.is("Blank"):
		return 1, 1, true
	case p.is("BlankSequence"):
		return 1, 99, true
	case p.is("BlankNullSequence"):
		return 0, 99, true
	}
	return 0, 0, false
}

// c06parse reads what c06t.s writes.
func c06parse(s string) *c06t {
	var term func() *c06t
	term = func() *c06t {
		i := strings.IndexAny(s, "[],")
		if i < 0 {
			i = len(s)
		}
		t := c06a(s[:i])
		s = s[i:]
		for strings.HasPrefix(s, "[") {
			t = &c06t{k: []*c06t{t}}
			s = s[1:]
			for s[0] != ']' {
				t.k = append(t.k, term())
				if s[0] == ',' {
					s = s[1:]
				}
			}
			s = s[1:]
		}
		return t
	}
	return term()
}

type c06k func(c06env) bool

// c06m is the reference matcher: k is called with the bindings of each way to
// match t by p that extends env; it returns true to stop.
func c06m(t, p *c06t, env c06env, k c06k) bool {
	if p.k == nil {
		if t.s() == p.s() {
			return k(env)
		}
		return false
	}
	if _, _, ok := c06blank(p); ok {
		if len(p.k) < 2 || c06head(t) == p.k[1].s() {
			return k(env)
		}
		return false
	}
	switch {
	case p.is("Pattern"):
		return c06m(t, p.k[2], env, func(e c06env) bool {
			if e2, ok := e.with(p.k[1].a, t); ok {
				return k(e2)
			}
			return false
		})
	case p.is("Alternatives"):
		for _, q := range p.k[1:] {
			if c06m(t, q, env, k) {
				return true
			}
		}
		return false
	case p.is("Except"):
		if c06m(t, p.k[1], env, func(c06env) bool { return true }) {
			return false
		}
		if len(p.k) == 3 {
			return c06m(t, p.k[2], env, k)
		}
		return k(env)
	case p.is("PatternTest"):
		return c06m(t, p.k[1], env, func(e c06env) bool {
			if c06test(p.k[2], t) {
				return k(e)
			}
			return false
		})
	case p.is("HoldPattern"), p.is("Optional") && len(p.k) == 2:
		return c06m(t, p.k[1], env, k)
	case p.is("Condition"):
		return c06m(t, p.k[1], env, func(e c06env) bool {
			c := p.k[2]
			val := func(n string) string { // a variable that a part matched zero times leaves unbound stands for itself
				if v, ok := e[n]; ok {
					return v
				}
				return n
			}
			switch {
			case c.a == "True":
				return k(e)
			case c.is("SameQ") && c.k[1].k != nil:
				n := c.k[1].k[1].a
				if e[n] == c06canon(n, &c06t{k: append([]*c06t{c06a("Sequence")}, c.k[2].k[1:]...)}) {
					return k(e)
				}
			case c.is("SameQ") && val(c.k[1].a) == val(c.k[2].a):
				return k(e)
			case c.is("UnsameQ") && val(c.k[1].a) != val(c.k[2].a):
				return k(e)
			}
			return false
		})
	}
	if c06head(t) == "Rational" && t.k == nil {
		i := strings.Index(t.a, "/")
		t = c06c("Rational", c06a(t.a[:i]), c06a(t.a[i+1:]))
	}
	if t.k == nil {
		return false
	}
	if t.k[0].k == nil && t.k[0].s() == p.k[0].s() {
		h := t.k[0].a
		return c06seq(t.k[1:], p.k[1:], h, h == "co", h == "cfl", env, k)
	}
	return c06seq(t.k, p.k, "", false, false, env, k)
}

// c06seq: the elements ts against the slots ps.
func c06seq(ts, ps []*c06t, head string, orderless, flat bool, env c06env, k c06k) bool {
	if len(ps) == 0 {
		return len(ts) == 0 && k(env)
	}
	p := ps[0]
	name, lo, hi := "", 1, 1
	var def *c06t
	wrap := "Sequence"
	test := false
	if p.is("Optional") {
		if len(p.k) == 3 {
			def, lo = p.k[2], 0
		}
		p = p.k[1]
	}
	var testFn *c06t
	if p.is("PatternTest") {
		test = true
		testFn = p.k[2]
		p = p.k[1]
	}
	if p.is("Pattern") {
		name = p.k[1].a
		p = p.k[2]
	}
	if def == nil {
		if l, h, ok := c06blank(p); ok {
			lo, hi = l, h
			if p.is("Blank") && flat {
				wrap, hi = head, 99
				if len(p.k) == 2 {
					if p.k[1].a == head {
						lo, p = 2, c06c("Blank")
					} else {
						hi = 1
					}
				}
			} else if len(p.k) == 2 {
				p = c06c("Blank", p.k[1])
			} else {
				p = c06c("Blank")
			}
		} else if p.is("Repeated") {
			hi, p = 99, p.k[1]
		} else if p.is("RepeatedNull") {
			lo, hi, p = 0, 99, p.k[1]
		}
	}
	if test {
		p = c06c("PatternTest", p, testFn)
	}
	if hi > len(ts) {
		hi = len(ts)
	}
	take := func(el, rest []*c06t) bool {
		var each func(i int, e c06env) bool
		each = func(i int, e c06env) bool {
			if i < len(el) {
				return c06m(el[i], p, e, func(e c06env) bool { return each(i+1, e) })
			}
			if name != "" {
				v := &c06t{k: append([]*c06t{c06a(wrap)}, el...)}
				if len(el) == 0 && def != nil {
					v = def
				}
				var ok bool
				if e, ok = e.with(name, v); !ok {
					return false
				}
			}
			return c06seq(rest, ps[1:], head, orderless, flat, e, k)
		}
		return each(0, env)
	}
	for n := lo; n <= hi; n++ {
		if !orderless {
			if take(ts[:n:n], ts[n:]) {
				return true
			}
			continue
		}
		// every choice of n elements
		var pick func(i int, el, rest []*c06t) bool
		pick = func(i int, el, rest []*c06t) bool {
			if len(el) == n {
				return take(el, append(rest[:len(rest):len(rest)], ts[i:]...))
			}
			if i == len(ts) {
				return false
			}
			return pick(i+1, append(el[:len(el):len(el)], ts[i]), rest) || pick(i+1, el, append(rest[:len(rest):len(rest)], ts[i]))
		}
		if pick(0, nil, nil) {
			return true
		}
	}
	return false
}

var c06atoms = []string{"a", "b", "1", "2", "\"s\"", "1/2", "2.5"}

// c06snap is the whole structure, node by node.
func c06snap(e expreduceapi.Ex) string {
	if x, ok := e.(*atoms.Expression); ok {
		var l []string
		for _, p := range x.Parts {
			l = append(l, c06snap(p))
		}
		return fmt.Sprintf("%p<%s>", x, strings.Join(l, ","))
	}
	return fmt.Sprintf("%p:%s", e, vFF(e))
}

func TestVerifC06Match(t *testing.T) {
	r := vStart(t, "generated expressions against patterns made from them (blanks, named, sequence, optional, repeated, alternatives, tests, conditions, exceptions; ordered, orderless and flat heads), compared with a reference matcher that lists all solutions", "depth 3, at most 4 arguments, at most 6 variables")
	defer r.Done()
	es := NewEvalState()
	EvalInterp("SetAttributes[co, Orderless]", es)
	EvalInterp("SetAttributes[cfl, Flat]", es)
	R := r.Rnd
	var gent func(d int) *c06t
	gent = func(d int) *c06t {
		if d > 0 && R.Intn(5) > 0 {
			h := []string{"f", "f", "g", "co", "cfl"}[R.Intn(5)]
			u := c06c(h)
			if R.Intn(12) == 0 {
				u = &c06t{k: []*c06t{gent(d - 1)}}
			}
			for i := R.Intn(5); i > 0; i-- {
				e := gent(d - 1)
				if len(u.k) > 1 && R.Intn(4) == 0 {
					e = u.k[1+R.Intn(len(u.k)-1)]
				}
				u.k = append(u.k, e)
			}
			return u
		}
		return c06a(c06atoms[R.Intn(len(c06atoms))])
	}
	var full, hasSeq, hasOrd bool
	var seqs map[string]bool
	var nu int
	v := func(name string, p *c06t) *c06t { return c06c("Pattern", c06a(name), p) }
	heads := []string{"Integer", "Symbol", "f", "g", "Real", "String", "Rational", "co"}
	mkblank := func(kind string, u *c06t) *c06t {
		switch R.Intn(5) {
		case 0:
			if u != nil {
				if u.k != nil {
					return c06c(kind, u.k[0])
				}
				return c06c(kind, c06a(c06head(u)))
			}
		case 1:
			return c06c(kind, c06a(heads[R.Intn(len(heads))]))
		}
		return c06c(kind)
	}
	var genp func(u *c06t, d int, arg, flat bool) *c06t
	genargs := func(us []*c06t, d int, h string) []*c06t {
		var out []*c06t
		for i := 0; i < len(us); {
			switch x := R.Intn(10); {
			case x < 2 && h != "co" || x < 1:
				n := R.Intn(3)
				if n > len(us)-i {
					n = len(us) - i
				}
				kind, nm := "BlankNullSequence", []string{"m", "n"}
				if n > 0 && R.Intn(2) == 0 {
					kind, nm = "BlankSequence", []string{"s", "r"}
				}
				var first *c06t
				if n > 0 {
					first = us[i]
				}
				b := mkblank(kind, first)
				if R.Intn(3) > 0 {
					w := nm[R.Intn(2)]
					if seqs[w] {
						hasSeq = true
					}
					seqs[w] = true
					b = v(w, b)
				}
				out = append(out, b)
				i += n
				if n == 0 && R.Intn(3) > 0 {
					continue
				}
			case x == 2 && h != "cfl":
				n := R.Intn(2)
				if R.Intn(2) == 0 && n == 1 {
					out = append(out, c06c("Optional", v(fmt.Sprint("o", R.Intn(2)), mkblank("Blank", us[i])), c06a("2")))
				} else {
					out = append(out, c06c("Optional", v(fmt.Sprint("o", R.Intn(2)), c06c("Blank")), us[i]))
				}
				full = false
				i += n
			case x == 3 && h != "cfl":
				q := genp(us[i], d-1, false, false)
				kind := []string{"Repeated", "RepeatedNull"}[R.Intn(2)]
				out = append(out, c06c(kind, q))
				i++
				for i < len(us) && us[i].s() == us[i-1].s() {
					i++
				}
			default:
				out = append(out, genp(us[i], d-1, true, h == "cfl"))
				i++
			}
		}
		if h == "co" {
			R.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		}
		return out
	}
	genp = func(u *c06t, d int, arg, flat bool) *c06t {
		x := R.Intn(24)
		if flat && x >= 6 && x < 12 {
			x = 12
		}
		switch x {
		case 0, 1:
			return mkblank("Blank", u)
		case 2, 3, 4, 5:
			nm := []string{"x", "y", "z"}[R.Intn(3)]
			if flat {
				nm = "f" + nm
			}
			return v(nm, mkblank("Blank", u))
		case 6:
			full = false
			p := c06c("Alternatives")
			for i := 1 + R.Intn(3); i > 0; i-- {
				w := u
				if R.Intn(2) == 0 {
					w = gent(1)
				}
				p.k = append(p.k, genp(w, d-1, false, false))
			}
			return p
		case 7:
			return c06c("PatternTest", v([]string{"x", "y"}[R.Intn(2)], mkblank("Blank", u)), [3]*c06t{c06a("NumberQ"), c06a("AtomQ"), c06c("Function", c06c("UnsameQ", c06c("Slot", c06a("1")), c06a("a")))}[R.Intn(3)])
		case 8:
			full = false
			if R.Intn(2) == 0 {
				return c06c("Except", c06a(c06atoms[R.Intn(len(c06atoms))]))
			}
			return c06c("Except", c06a(c06atoms[R.Intn(len(c06atoms))]), genp(u, d-1, false, false))
		case 9:
			return c06c("HoldPattern", genp(u, d-1, false, false))
		case 10:
			if arg {
				nu++
				return v(fmt.Sprint("u", nu), genp(u, d-1, false, false))
			}
		}
		if u.k == nil {
			if strings.Contains(u.a, "/") && R.Intn(2) == 0 {
				i := strings.Index(u.a, "/")
				return c06c("Rational", v("x", c06c("Blank")), c06a(u.a[i+1:]))
			}
			if R.Intn(6) == 0 {
				return c06a(c06atoms[R.Intn(len(c06atoms))])
			}
			return u
		}
		if d <= 0 {
			return u
		}
		h := ""
		if u.k[0].k == nil {
			h = u.k[0].a
		}
		if h == "co" {
			hasOrd = true
		}
		p := &c06t{k: []*c06t{u.k[0]}}
		if h == "" || R.Intn(10) == 0 {
			// a pattern as head
			p.k[0] = genp(u.k[0], d-1, true, false)
			if h = ""; p.k[0].k == nil {
				h = p.k[0].a
			}
		}
		p.k = append(p.k, genargs(u.k[1:], d, h)...)
		return p
	}
	cases := 60000
	if r.Deep {
		cases = 800000
	}
	for c := 0; c < cases && !r.Failed(); c++ {
		full, hasSeq, hasOrd, seqs, nu = true, false, false, map[string]bool{}, 0
		u := gent(1 + R.Intn(3))
		p := genp(u, 3, false, false)
		w := u
		if R.Intn(6) == 0 {
			w = gent(1 + R.Intn(3))
		}
		if R.Intn(6) == 0 && p.k != nil {
			vs := []string{"x", "y", "z"}
			R.Shuffle(3, func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
			ps := p.s()
			if strings.Contains(ps, "Pattern["+vs[0]+",") && strings.Contains(ps, "Pattern["+vs[1]+",") && full {
				p = c06c("Condition", p, c06c([]string{"SameQ", "UnsameQ"}[R.Intn(2)], c06a(vs[0]), c06a(vs[1])))
			} else {
				p = c06c("Condition", p, c06a([]string{"True", "False", "a"}[R.Intn(3)]))
			}
		}
		if hasOrd && hasSeq {
			continue
		}
		c06sorted = hasOrd
		if R.Intn(4) == 0 && !p.is("Condition") && !hasOrd {
			// a condition that only some of the ways to match satisfy
			var sols []c06env
			c06m(w, p, c06env{}, func(e c06env) bool { sols = append(sols, e); return len(sols) > 30 })
			if len(sols) > 1 {
				e := sols[R.Intn(len(sols))]
				var ns []string
				for n, v := range e {
					if n[0] != 'f' && !strings.Contains(v, "co[") && !strings.Contains(v, "cfl[") {
						ns = append(ns, n)
					}
				}
				sort.Strings(ns)
				if len(ns) > 0 {
					n := ns[R.Intn(len(ns))]
					val := c06parse(e[n])
					if !val.is("Sequence") {
						val = c06c("Sequence", val)
					}
					p = c06c("Condition", p, c06c("SameQ", c06c("List", c06a(n)), c06c("List", val.k[1:]...)))
				}
			}
		}
		if strings.Count(p.s(), "co[") > 2 && strings.Contains(p.s(), "Repeated") {
			continue // exponentially many ways to try
		}
		if strings.Count(p.s(), "cfl[") > 1 {
			// one element taken from a flat operation inside another: its
			// binding is that element or the operation of it alone
			full = false
		}
		we, pe := w.ex(), p.ex()
		in := w.s() + " by " + p.s()
		r.Run("match", in, func() {
			s1, s2 := c06snap(we), c06snap(pe)
			ok, pm := matcher.IsMatchQ(we, pe, matcher.EmptyPD(), es)
			r.Check("untouched", in, true, c06snap(we) == s1 && c06snap(pe) == s2, "expression and pattern as before", vFF(we)+" / "+vFF(pe))
			sols := map[string]bool{}
			n := 0
			c06m(w, p, c06env{}, func(e c06env) bool { sols[e.s()] = true; n++; return n > 20000 })
			var list []string
			for s := range sols {
				list = append(list, s)
			}
			sort.Strings(list)
			if len(list) > 8 {
				list = list[:8]
			}
			if ok {
				got := c06env{}
				if pm != nil {
					for _, q := range c06of(pm.Expression()).k[1:] {
						n := strings.TrimPrefix(strings.Trim(q.k[1].a, "\""), "Global`")
						got[n] = c06canon(n, q.k[2])
					}
				}
				r.Check("bindings-explain-match", in, len(sols) > 0, n > 20000 || sols[got.s()], "one of "+strings.Join(list, " | "), got.s())
			} else if full {
				r.Check("no-match-missed", in, true, len(sols) == 0, "a match, e.g. "+strings.Join(list, " | "), "no match")
			} else {
				r.Check("no-match", in, false, true, "", "")
			}
		})
	}
}

// Patterns with too few parts for their head stand for themselves.
func TestVerifC06Malformed(t *testing.T) {
	r := vStart(t, "pattern heads with too few arguments, alone and inside sequences, on their own and beside named blanks", "listed cases")
	defer r.Done()
	heads := []string{"Pattern[]", "Pattern[x]", "Optional[]", "PatternTest[]", "PatternTest[y_]", "Repeated[]", "RepeatedNull[]", "Condition[]", "Condition[z]"}
	es := NewEvalState()
	for _, h := range heads {
		for _, ctx := range []string{"%", "{%}", "{a, %}", "{%, b_}", "{b__, %}", "{___, %, b_}", "{Pattern[m, %]}", "{%, %}"} {
			p := strings.Replace(ctx, "%", h, -1)
			for _, e := range []string{"1", "{1}", "{a, 1}", "{a, 1, 2}", "{}"} {
				in := "MatchQ[" + e + ", " + p + "]"
				r.Run("malformed", in, func() {
					got := vEv(es, in)
					r.Check("malformed", in, true, got == "True" || got == "False", "True or False", got)
				})
			}
		}
	}
}

// c06test: the tests the generator uses.
func c06test(f, t *c06t) bool {
	if f.is("Function") {
		return t.s() != "a"
	}
	if f.a == "AtomQ" {
		return t.k == nil
	}
	switch c06head(t) {
	case "Integer", "Real", "Rational":
		return true
	}
	return false
}

// Forms the generator does not make.
func TestVerifC06Forms(t *testing.T) {
	r := vStart(t, "tests, operator forms and optional patterns at the top of a pattern", "listed cases")
	defer r.Done()
	es := NewEvalState()
	vEv(es, "Attributes[o] = {Orderless}")
	for _, c := range []struct{ in, want string }{
		{"MatchQ[1, Optional[x_]]", "True"}, {"MatchQ[1, Optional[_Symbol]]", "False"}, {"MatchQ[1, HoldPattern[Optional[x_]]]", "True"},
		{"Replace[7, Optional[x_] :> {x}]", "List[7]"},
		{"MatchQ[f[1, 2], Verbatim[f][1, 2]]", "True"}, {"MatchQ[g[1, 2], Verbatim[f][1, 2]]", "False"}, {"MatchQ[f[1, 2], Verbatim[f][_, 2]]", "True"},
		{"MatchQ[f[1, 2], Verbatim[f][2, 1]]", "False"}, {"MatchQ[o[1, 2], o[2, x_]]", "True"}, {"MatchQ[o[1, 2], Verbatim[o][2, x_]]", "False"}, {"MatchQ[o[1, 2], Verbatim[o][x_, 2]]", "True"},
		{"MatchQ[f[1], Verbatim[f, g][1]]", "False"},
		{"Replace[f[1, 2], Verbatim[f][x_, y_] :> {y, x}]", "List[2, 1]"},
		{"MatchQ[a, _?NumberQ]", "False"}, {"MatchQ[2, _?NumberQ]", "True"}, {"MatchQ[2, _?AtomQ]", "True"}, {"MatchQ[f[2], _?AtomQ]", "False"}, {"MatchQ[f[2], _?NumberQ]", "False"},
		{"MatchQ[{2, a}, {_?NumberQ, _?AtomQ}]", "True"}, {"MatchQ[{2, f[1]}, {_?NumberQ, _?AtomQ}]", "False"}, {"MatchQ[{2, 3}, {__?NumberQ}]", "True"}, {"MatchQ[{2, a}, {__?NumberQ}]", "False"}, {"MatchQ[{2, a}, {__?AtomQ}]", "True"},
		{"MatchQ[3, _?((# > 2)&)]", "True"}, {"MatchQ[1, _?((# > 2)&)]", "False"}, {"MatchQ[a, _?((# > 2)&)]", "False"}, {"MatchQ[1, PatternTest[_, NumberQ, AtomQ]]", "False"},
	} {
		r.Run("forms", c.in, func() {
			got := vEv(es, c.in)
			r.Check("forms", c.in, true, got == c.want, c.want, got)
		})
	}
}
