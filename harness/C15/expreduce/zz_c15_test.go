package expreduce

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// The reference store: per symbol its own value, its attributes, and its rules
// in the order in which they are tried.
type c15rule struct {
	lhs, cond, rhs string // pattern name, condition (or ""), value
}
type c15sym struct {
	own   string
	attrs string
	rules []c15rule
}

// c15pat: left-hand sides with one argument or two, the rank telling which is
// the more specific of two that overlap (a literal before a typed blank before
// a blank; a structure before its parts).
type c15pat struct {
	name string
	rank int
	lhs  func(s string) expreduceapi.Ex
	ok   func(args []string) bool
}

func c15blank(n, h string) expreduceapi.Ex {
	b := vEx("Blank")
	if h != "" {
		b = vEx("Blank", vSym(h))
	}
	return vEx("Pattern", vSym(n), b)
}

func c15int(a string) bool { return a[0] >= '0' && a[0] <= '9' }

var c15pats = []c15pat{
	{"1", 4, func(s string) expreduceapi.Ex { return vEx(s, vInt(1)) }, func(a []string) bool { return len(a) == 1 && a[0] == "1" }},
	{"2", 4, func(s string) expreduceapi.Ex { return vEx(s, vInt(2)) }, func(a []string) bool { return len(a) == 1 && a[0] == "2" }},
	{"100000000000000000000", 4, func(s string) expreduceapi.Ex {
		return vEx(s, EvalInterp("100000000000000000000", c15es))
	}, func(a []string) bool { return len(a) == 1 && a[0] == "100000000000000000000" }},
	{"x_Integer", 3, func(s string) expreduceapi.Ex { return vEx(s, c15blank("x", "Integer")) }, func(a []string) bool { return len(a) == 1 && c15int(a[0]) }},
	{"x_String", 3, func(s string) expreduceapi.Ex { return vEx(s, c15blank("x", "String")) }, func(a []string) bool { return len(a) == 1 && a[0][0] == '"' }},
	{"x_", 1, func(s string) expreduceapi.Ex { return vEx(s, c15blank("x", "")) }, func(a []string) bool { return len(a) == 1 }},
	{"{x_}", 2, func(s string) expreduceapi.Ex { return vEx(s, vEx("List", c15blank("x", ""))) }, func(a []string) bool { return len(a) == 1 && a[0] == "List[7]" }},
	{"{x_Integer}", 3, func(s string) expreduceapi.Ex { return vEx(s, vEx("List", c15blank("x", "Integer"))) }, func(a []string) bool { return len(a) == 1 && a[0] == "List[7]" }},
	{"x_,y_", 1, func(s string) expreduceapi.Ex { return vEx(s, c15blank("x", ""), c15blank("y", "")) }, func(a []string) bool { return len(a) == 2 }},
	{"x_Integer,y_", 2, func(s string) expreduceapi.Ex { return vEx(s, c15blank("x", "Integer"), c15blank("y", "")) }, func(a []string) bool { return len(a) == 2 && c15int(a[0]) }},
	{"x_Integer,y_Integer", 3, func(s string) expreduceapi.Ex {
		return vEx(s, c15blank("x", "Integer"), c15blank("y", "Integer"))
	}, func(a []string) bool { return len(a) == 2 && c15int(a[0]) && c15int(a[1]) }},
	{"", 1, func(s string) expreduceapi.Ex { return vEx(s) }, func(a []string) bool { return len(a) == 0 }},
	{"Definition", 1, func(s string) expreduceapi.Ex { return vEx(s, vEx("Definition", vSym(s)), vInt(3), vInt(4)) }, func(a []string) bool { return false }},
}

var c15es *EvalState

var c15args = [][]string{{"1"}, {"2"}, {"3"}, {"100000000000000000000"}, {"\"q\""}, {"List[7]"}, {"1", "2"}, {"1", "\"q\""}, {"\"q\"", "2"}, {}}

func c15argEx(a string) expreduceapi.Ex {
	switch {
	case a == "List[7]":
		return vEx("List", vInt(7))
	case a[0] == '"':
		return atoms.NewString(a[1 : len(a)-1])
	}
	return EvalInterp(a, c15es)
}

func TestVerifC15Store(t *testing.T) {
	r := vStart(t, "random histories of storing, redefining, clearing, attribute changes, restoring and snapshots over several symbols, compared with a reference store after every operation", "5 symbols, 13 left-hand sides, histories of 60 operations")
	defer r.Done()
	R := r.Rnd
	syms := []string{"s", "v", "ss", "w", "sw"}
	attrSets := []string{"", "Constant", "HoldFirst", "HoldRest", "NumericFunction", "ReadProtected", "Constant, ReadProtected", "HoldAll, NumericFunction"}
	rounds := 40
	if r.Deep {
		rounds = 600
	}
	for c := 0; c < rounds && !r.Failed(); c++ {
		es := NewEvalState()
		c15es = es
		m := map[string]*c15sym{}
		for _, s := range syms {
			m[s] = &c15sym{}
		}
		n := 0
		hist := ""
		type snap struct {
			dm   expreduceapi.DefinitionMap
			at   string
			want map[string]string
		}
		var snaps []snap
		type kept struct {
			sym  string
			list expreduceapi.Ex
			was  string
			mod  []c15rule
		}
		var keeps []kept
		rulesOf := func(d expreduceapi.Def) string {
			var l []string
			for _, dv := range d.Downvalues {
				l = append(l, vFF(dv.Rule))
			}
			return strings.Join(l, "; ")
		}
		snapOf := func(dm expreduceapi.DefinitionMap) map[string]string {
			w := map[string]string{}
			for _, s := range syms {
				d, _ := dm.Get("Global`" + s)
				w[s] = rulesOf(d)
			}
			return w
		}
		for step := 0; step < 60 && !r.Failed(); step++ {
			n++
			s := syms[R.Intn(len(syms))]
			ms := m[s]
			op := ""
			r.Run("history", hist, func() {
				switch x := R.Intn(20); {
				case x < 4: // own value
					kind := []string{"Set", "SetDelayed"}[R.Intn(2)]
					op = fmt.Sprintf("%s[%s,%d]", kind, s, n)
					es.Eval(vEx(kind, vSym(s), vInt(int64(n))))
					ms.own = fmt.Sprint(n)
				case x < 13: // rule
					p := c15pats[R.Intn(len(c15pats))]
					cond, val := "", fmt.Sprint(n)
					rhs := expreduceapi.Ex(vInt(int64(n)))
					if p.name == "x_Integer" && R.Intn(2) == 0 {
						cond = []string{"2", "5"}[R.Intn(2)]
						rhs = vEx("Condition", rhs, vEx("Greater", vSym("x"), EvalInterp(cond, es)))
					}
					if ms.own != "" {
						// the head would be evaluated away
						op = fmt.Sprintf("Clear[%s]", s)
						es.Eval(vEx("Clear", vSym(s)))
						*ms = c15sym{}
						ms.attrs = c15attrs(es, s)
						break
					}
					op = fmt.Sprintf("%s[%s]:=%s", s, p.name, val)
					if cond != "" {
						op += "/;x>" + cond
					}
					es.Eval(vEx("SetDelayed", p.lhs(s), rhs))
					found := false
					for i := range ms.rules {
						if ms.rules[i].lhs == p.name && ms.rules[i].cond == cond {
							ms.rules[i].rhs = val
							found = true
							break
						}
					}
					if !found {
						ms.rules = append(ms.rules, c15rule{p.name, cond, val})
					}
				case x < 15:
					op = fmt.Sprintf("Clear[%s]", s)
					es.Eval(vEx("Clear", vSym(s)))
					*ms = c15sym{}
					ms.attrs = c15attrs(es, s)
				case x < 17:
					a := attrSets[R.Intn(len(attrSets))]
					op = fmt.Sprintf("Attributes[%s]={%s}", s, a)
					l := vEx("List").(*atoms.Expression)
					if a != "" {
						for _, q := range strings.Split(a, ", ") {
							l.AppendEx(vSym(q))
						}
					}
					if ms.own != "" {
						es.Define(vEx("Attributes", vSym(s)), l)
					} else {
						es.Eval(vEx("Set", vEx("Attributes", vSym(s)), l))
					}
					ms.attrs = a
				case x == 17:
					op = "snapshot"
					dm := es.GetDefinedSnapshot()
					live := snapOf(es.GetDefinedMap())
					snaps = append(snaps, snap{dm, hist, live})
				case x == 18: // keep a list of rules
					if ms.own == "" {
						op = fmt.Sprintf("keep DownValues[%s]", s)
						l := es.Eval(vEx("DownValues", vSym(s)))
						keeps = append(keeps, kept{s, l, vFF(l), append([]c15rule(nil), ms.rules...)})
					}
				default:
					if len(keeps) > 0 {
						k := keeps[R.Intn(len(keeps))]
						if m[k.sym].own == "" {
							op = fmt.Sprintf("DownValues[%s]=kept", k.sym)
							es.Eval(vEx("Set", vEx("DownValues", vSym(k.sym)), k.list))
							m[k.sym].rules = append([]c15rule(nil), k.mod...)
						}
					}
				}
			})
			if op == "" {
				continue
			}
			hist += op + "; "
			in := hist
			r.Run("look-up", in, func() {
				for _, s := range syms {
					ms := m[s]
					own, ok := es.GetSymDef("Global`" + s)
					got := ""
					if ok {
						got = vFF(own)
					}
					r.Check("own-value", in+s, ms.own != "", got == ms.own, ms.own, got)
					r.Check("attributes", in+s, ms.attrs != "", c15attrs(es, s) == ms.attrs, ms.attrs, c15attrs(es, s))
					if ms.own != "" {
						continue
					}
					// every rule is there once
					var want, have []string
					for _, q := range ms.rules {
						want = append(want, q.lhs+"/;"+q.cond+"->"+q.rhs)
					}
					for _, q := range es.Eval(vEx("DownValues", vSym(s))).(*atoms.Expression).Parts[1:] {
						have = append(have, c15name(q, s))
					}
					sort.Strings(want)
					sort.Strings(have)
					r.Check("rules", in+s, len(want) > 0, strings.Join(want, "; ") == strings.Join(have, "; "), strings.Join(want, "; "), strings.Join(have, "; "))
					for _, as := range c15args {
						var ex []expreduceapi.Ex
						for _, a := range as {
							ex = append(ex, c15argEx(a))
						}
						// candidates: rules that match and hold; the most specific wins
						best, rank := map[string]bool{}, 0
						for _, q := range ms.rules {
							for _, p := range c15pats {
								if p.name != q.lhs || !p.ok(as) {
									continue
								}
								if q.cond != "" && !(len(as[0]) > 1 || as[0] > q.cond) {
									continue
								}
								k := p.rank
								if q.cond != "" {
									// conditional rules have no rank of their own
									best[q.rhs] = true
									continue
								}
								if k > rank {
									for v := range best {
										if !c15cond(ms, v) {
											delete(best, v)
										}
									}
									rank = k
								}
								if k == rank {
									best[q.rhs] = true
								}
							}
						}
						res := vFF(es.Eval(vEx(s, ex...)))
						un := vFF(vEx(s, ex...))
						ok := best[res] || len(best) == 0 && res == un
						r.Check("rule-used", in+un, len(best) > 0, ok, fmt.Sprint(best), res)
					}
				}
				for _, sn := range snaps {
					now := snapOf(sn.dm)
					for _, s := range syms {
						r.Check("snapshot", in+" snapshot at "+sn.at+" of "+s, now[s] != "", now[s] == sn.want[s], sn.want[s], now[s])
					}
				}
				for _, k := range keeps {
					r.Check("kept-rules", in+k.sym, true, vFF(k.list) == k.was, k.was, vFF(k.list))
				}
			})
		}
	}
}

func c15cond(m *c15sym, v string) bool {
	for _, q := range m.rules {
		if q.rhs == v && q.cond != "" {
			return true
		}
	}
	return false
}

func c15attrs(es *EvalState, s string) string {
	var l []string
	e, ok := es.Eval(vEx("Attributes", vSym(s))).(*atoms.Expression)
	if !ok || vFF(e.Parts[0]) != "List" {
		// the symbol has a value: ask the store
		d, _ := es.GetDefinedMap().Get("Global`" + s)
		e = atoms.AttrsToSymList(&d.Attributes).(*atoms.Expression)
	}
	for _, p := range e.Parts[1:] {
		l = append(l, vFF(p))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// c15name reads a rule of DownValues back.
func c15name(q expreduceapi.Ex, s string) string {
	e := q.(*atoms.Expression)
	lhs := e.Parts[1].(*atoms.Expression).Parts[1]
	rhs, cond := e.Parts[2], ""
	if c, ok := rhs.(*atoms.Expression); ok && vFF(c.Parts[0]) == "Condition" {
		rhs = c.Parts[1]
		cond = vFF(c.Parts[2].(*atoms.Expression).Parts[2])
	}
	for _, p := range c15pats {
		if vFF(p.lhs(s)) == vFF(lhs) {
			return p.name + "/;" + cond + "->" + vFF(rhs)
		}
	}
	return vFF(q)
}

// TestVerifC15Lookup: what happens to the store during a look-up does not
// disturb it.
func TestVerifC15Lookup(t *testing.T) {
	r := vStart(t, "look-ups whose conditions change the definitions being searched", "listed cases")
	defer r.Done()
	for _, c := range []struct{ in, want string }{
		{"g1[x_] := 1 /; (Clear[g1]; False); g1[x_,y_] := 2; g1[x_,y_,z_] := 3; g1[1]", "g1[1]"},
		{"g2[x_] := 1 /; (Clear[g2]; False); g2[x_,y_] := 2; g2[1]; g2[1,2]", "g2[1, 2]"},
		{"g3[x_] := 1 /; (g3[5] = 7; False); g3[x_,y_] := 2; g3[1]; {g3[5], g3[1,2]}", "List[7, 2]"},
		{"g4[Definition[g4]] := 1; g4[2,3] := 2; g4[2,3]", "2"},
		{"g5[x_] := (g5[x] = x^2); g5[3]; g5[4]; {g5[3], Length[DownValues[g5]]}", "List[9, 3]"},
		{"g8[x_] := 3; g8[x_,y_] := 2; g8[x_] := 1 /; (g8[5] = 7; False); {g8[1], g8[5]}", "List[3, 7]"},
		{"h1[x_] := 3; d = DownValues[h1]; DownValues[h1] = d; DownValues[h2] = d; h1[x_] := 9; DownValues[h2]", "List[RuleDelayed[HoldPattern[h1[Pattern[x, Blank[]]]], 3]]"},
		{"g6 = 5; g7 := g6 + 1; g6 = 6; {g6, g7}", "List[6, 7]"},
	} {
		r.Run("look-up", c.in, func() {
			es := NewEvalState()
			got := vEv(es, c.in)
			r.Check("changed-during-look-up", c.in, true, got == c.want, c.want, got)
		})
	}
}

// Which rules are told apart: every pair of right sides, each a value on its
// own, with a condition, or with a condition inside scoping constructs.
func TestVerifC15Conditions(t *testing.T) {
	r := vStart(t, "two definitions with the same left side, their conditions plain or inside Module and With; own values anywhere among assigned rules", "all pairs of right sides, all orders of three assigned rules")
	defer r.Done()
	wraps := []string{"%s", "Module[{y=x}, %s]", "With[{y=x}, %s]", "Module[{y=x, z=1}, %s]", "With[{w=x}, Module[{y=w}, %s]]", "Module[{w=x}, With[{y=w}, %s]]", "Condition[%s, x<9]"}
	type side struct {
		src       string
		key, cond string
	}
	var sides []side
	for i, w := range wraps {
		for _, c := range []string{"", "1", "2", "x<3"} {
			v := "y"
			if i == 0 || i == 6 {
				v = "x"
			}
			body, cond := "VALUE", ""
			switch c {
			case "":
				if i == 6 {
					continue
				}
			case "x<3":
				body, cond = "Condition[VALUE, "+v+"<3]", c
			default:
				body, cond = "Condition[VALUE, "+v+"==="+c+"]", c
			}
			s := side{strings.Replace(w, "%s", body, 1), fmt.Sprint(i, "/", cond), cond}
			if cond == "" {
				s.key = "" // no condition, whatever it is wrapped in
			}
			if i == 4 || i == 5 {
				// the condition is not directly inside: counts as none when defining
				if cond != "" {
					continue
				}
			}
			sides = append(sides, s)
		}
	}
	holds := func(cond string, v int) bool {
		switch cond {
		case "":
			return true
		case "x<3":
			return v < 3
		}
		return cond == fmt.Sprint(v)
	}
	num, es := 0, NewEvalState()
	for _, a := range sides {
		for _, b := range sides {
			num++
			f := fmt.Sprint("f", num)
			in := f + "[x_] := " + strings.Replace(a.src, "VALUE", "10", 1) + "; " + f + "[x_] := " + strings.Replace(b.src, "VALUE", "20", 1)
			r.Run("conditions", in, func() {
				vEv(es, in)
				n := "2"
				if a.key == b.key {
					n = "1"
				}
				got := vEv(es, "Length[DownValues["+f+"]]")
				r.Check("told-apart", in, true, got == n, n+" rules", got)
				for v := 1; v <= 3; v++ {
					ta, tb := holds(a.cond, v) && a.key != b.key, holds(b.cond, v)
					want := []string{}
					if ta {
						want = append(want, "10")
					}
					if tb {
						want = append(want, "20")
					}
					if !ta && !tb {
						want = []string{fmt.Sprintf("%s[%d]", f, v)}
					}
					got, ok := vEv(es, fmt.Sprintf("%s[%d]", f, v)), false
					for _, w := range want {
						ok = ok || w == got
					}
					r.Check("tried", fmt.Sprintf("%s; %s[%d]", in, f, v), true, ok, strings.Join(want, " or "), got)
				}
			})
		}
	}
	rules := []string{"HoldPattern[q] :> 5", "HoldPattern[q[x_]] :> x", "HoldPattern[q[x_, y_]] :> {x, y}", "HoldPattern[q[1]] :> 7"}
	var perm func(done []string, rest []string)
	perm = func(done, rest []string) {
		if len(rest) == 0 {
			in := "DownValues[q] = {" + strings.Join(done, ", ") + "}"
			r.Run("assigned", in, func() {
				es := NewEvalState()
				vEv(es, in)
				got := vEv(es, "q")
				r.Check("own-value", in, true, got == "5", "5", got)
				got = vEv(es, "q = 6; q")
				r.Check("own-value-set", in, true, got == "6", "6", got)
				got = vEv(es, "Length[DownValues[q]]")
				r.Check("others-kept", in, true, got == "3", "3 rules", got)
				got = vEv(es, "Clear[q]; q")
				r.Check("cleared", in, true, got == "q", "q", got)
			})
			return
		}
		for i := range rest {
			perm(append(append([]string{}, done...), rest[i]), append(append([]string{}, rest[:i]...), rest[i+1:]...))
		}
	}
	perm(nil, rules)
}

// An assignment that means nothing changes no definition and leaves the
// evaluator usable.
func TestVerifC15Malformed(t *testing.T) {
	r := vStart(t, "assignments that define nothing, and rules with too few parts, leave every other definition as it was", "listed cases")
	defer r.Done()
	state := "{Attributes[s], DownValues[s], s[1], s[2], s[9], v, DownValues[v], Attributes[t], DownValues[t], t, t[1]}"
	setup := "v = 5; s[1] = 11; s[x_Integer] := x + 100; s[9] := 3 /; v === 5; SetAttributes[s, {Listable}]; t[1] := 4; SetAttributes[t, Flat]"
	for _, in := range []string{
		"Attributes[s] = {Flat, 1}", "Attributes[s] = 3", "Attributes[s, t] = {Flat}", "Attributes[] = {Flat}", "Attributes[1] = {Flat}", "Attributes[s[1]] = {Flat}",
		"DownValues[s] = 3", "DownValues[s] = {3}", "DownValues[s] = {HoldPattern[s[1]] :> 3, 7}", "DownValues[s] = {7, HoldPattern[s[1]] :> 3}", "DownValues[s] = {Rule[1]}", "DownValues[s] = {RuleDelayed[]}", "DownValues[s] = {Rule[1, 2, 3]}",
		"DownValues[s, t] = {}", "DownValues[] = {}", "DownValues[1] = {}", "DownValues[s[2]] = {}",
		"1 = 3", "\"s\" = 3", "2/3 := 4", "1.5 = 2", "Verbatim[][1] = 7", "Verbatim[2][1] = 7", "(1)[2] = 3",
		"u1[x_] := Condition[1]", "u2[x_] := Condition[]", "u3[Pattern[x]] := 1", "u4[Pattern[]] := 1; u4[1]", "u5[Optional[]] := 1; u5[1]; u5[]", "u6[PatternTest[x_]] := 1; u6[1]",
	} {
		r.Run("malformed", in, func() {
			es := NewEvalState()
			vEv(es, setup)
			before := vEv(es, state)
			vEv(es, in)
			got := vEv(es, state)
			r.Check("nothing-defined", in, true, got == before, before, got)
			got = vEv(es, "s[5] := 55; s[5]")
			r.Check("usable-after", in, true, got == "55", "55", got)
		})
	}
	for _, c := range []struct{ in, want string }{
		{"Verbatim[n][1] := 7; {n[1], Verbatim[n][1], Length[DownValues[n]]}", "List[7, Verbatim[n][1], 1]"},
		{"g[x_] := Condition[1]; g[2]", "Condition[1]"},
		{"DownValues[w] = {HoldPattern[w[1]] :> 3, 7}; w[1]", "w[1]"},
		{"Attributes[a] = {Flat, NoSuchAttribute, Listable}; Attributes[a]", "List[Flat, Listable]"},
		{"p = Pattern; q[p[x]] := 1; q[1]", "q[1]"},
	} {
		r.Run("malformed", c.in, func() {
			es := NewEvalState()
			got := vEv(es, c.in)
			r.Check("malformed-rule", c.in, true, got == c.want, c.want, got)
		})
	}
}
