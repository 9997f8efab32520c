package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Env struct {
	e       *Enc
	st, old State
	vars    map[string]Val
	pkg     string
	lookup  func(name string) (Val, bool)
	defLine int
	inOld   bool
	nowSt   *State
	oldVars map[string]Val
	quant   int
}

func (v *Env) sub() *Env {
	n := *v
	n.vars = map[string]Val{}
	for k, x := range v.vars {
		n.vars[k] = x
	}
	return &n
}

func (e *Enc) formula(c Clause, env *Env) string {
	v := e.eval(c.E, env)
	if v.S == "" {
		e.fail("clause has no formula: %s", c.Src)
	}
	if so := e.sortOfVal(v); so != "Bool" {
		e.fail("clause is not boolean (%s): %s", so, c.Src)
	}
	return v.S
}

func (e *Enc) sortOfVal(v Val) string {
	if v.T != nil {
		return sortOf(e.P, v.T)
	}
	return v.Sort
}

func (e *Enc) parseType(s string, pkg string) (types.Type, string) {
	switch s {
	case "int", "mathint", "Int":
		return nil, "Int"
	case "bool", "Bool":
		return nil, "Bool"
	case "string", "Str":
		return types.Typ[types.String], "Str"
	case "Ref":
		return nil, "Int"
	}
	if strings.HasPrefix(s, "*") {
		t, _ := e.parseType(s[1:], pkg)
		if t == nil {
			e.fail("unknown type %s", s)
		}
		return types.NewPointer(t), "Int"
	}
	if strings.HasPrefix(s, "[]") {
		var t types.Type
		if s == "[]int" {
			t = types.Typ[types.Int]
		} else if s == "[]bool" {
			t = types.Typ[types.Bool]
		} else if s == "[]byte" {
			t = types.Typ[types.Uint8]
		} else if s == "[][]bool" {
			t = types.NewSlice(types.Typ[types.Bool])
		} else if s == "[][]int" {
			t = types.NewSlice(types.Typ[types.Int])
		} else {
			t, _ = e.parseType(s[2:], pkg)
		}
		if t == nil {
			e.fail("unknown type %s", s)
		}
		return types.NewSlice(t), "Slice"
	}
	pn, n, qual := strings.Cut(s, ".")
	if qual {
		for _, tp := range e.P.tpkgs {
			if tp.Name() == pn {
				if o := tp.Scope().Lookup(n); o != nil {
					return o.Type(), sortOf(e.P, o.Type())
				}
			}
		}
	} else {
		if tp := e.P.tpkgs[pkg]; tp != nil {
			if o, ok := tp.Scope().Lookup(s).(*types.TypeName); ok {
				return o.Type(), sortOf(e.P, o.Type())
			}
		}
		if tp := e.P.tpkgs["github.com/corywalker/expreduce/pkg/expreduceapi"]; tp != nil {
			if o, ok := tp.Scope().Lookup(s).(*types.TypeName); ok {
				return o.Type(), sortOf(e.P, o.Type())
			}
		}
	}
	return nil, s // logic sort
}

func (e *Enc) snap(st State) string {
	cs := e.P.heapComps()
	var as []string
	for _, c := range cs {
		as = append(as, e.comp(st, c[1], c[2]))
	}
	as = append(as, e.alloc(st))
	t := app("mkTH", as...)
	if n, ok := e.snaps[t]; ok {
		e.snapAlso(n)
		return n
	}
	n := e.fresh("S")
	e.snapLine[n] = len(e.lines)
	e.lines = append(e.lines, fmt.Sprintf("(declare-const %s TH)", n), fmt.Sprintf("(assert (= %s %s))", n, t))
	if _, ok := e.P.db.Logic["cl"]; ok {
		// every heap of a run is closed: what is stored is allocated
		e.lines = append(e.lines, fmt.Sprintf("(assert (cl %s))", n))
	}
	e.snaps[t] = n
	e.snapOrd = append(e.snapOrd, fmt.Sprintf("%d\x00%s", len(e.lines)-2, t))
	return n
}

// snapAlso: a heap snapshot is used again, in another block
func (e *Enc) snapAlso(n string) {
	l, ok := e.snapLine[n]
	if !ok {
		return
	}
	for i := 0; i < 3; i++ {
		e.lineAlso[l+i] = append(e.lineAlso[l+i], e.curBlk())
	}
}

func (e *Enc) trimSnaps(line int) {
	var keep []string
	for _, s := range e.snapOrd {
		var l int
		fmt.Sscanf(s, "%d", &l)
		_, t, _ := strings.Cut(s, "\x00")
		if l >= line {
			delete(e.snaps, t)
		} else {
			keep = append(keep, s)
		}
	}
	e.snapOrd = keep
}

func (e *Enc) eval(x Expr, env *Env) Val {
	B := func(s string) Val { return Val{Sort: "Bool", S: s} }
	I := func(s string) Val { return Val{Sort: "Int", S: s} }
	switch v := x.(type) {
	case eVal:
		return v.v
	case eDelayed:
		n := *v.env
		if env.inOld {
			n.st = n.old
			n.inOld = true
		} else {
			n.st = env.st
		}
		return e.eval(v.x, &n)
	case EInt:
		return I(v.V)
	case EStr:
		return Val{T: types.Typ[types.String], S: e.strLit(v.V)}
	case EIdent:
		switch v.Name {
		case "true", "false":
			return B(v.Name)
		case "nil":
			return I("0")
		case "alloc_entry":
			return I(e.alloc(env.old))
		case "alloc_now":
			return I(e.alloc(env.st))
		}
		if env.inOld && env.oldVars != nil {
			if r, ok := env.oldVars[v.Name]; ok {
				return r
			}
		}
		if r, ok := env.vars[v.Name]; ok {
			return r
		}
		if env.lookup != nil {
			if r, ok := env.lookup(v.Name); ok {
				return r
			}
		}
		if l, ok := e.P.db.Logic[v.Name]; ok && len(l.Args) == 0 {
			if l.Heap {
				return Val{Sort: l.Ret, S: app(v.Name, e.snap(env.st))}
			}
			return Val{Sort: l.Ret, S: v.Name}
		}
		// package-level constant or variable
		if tp := e.P.tpkgs[env.pkg]; tp != nil {
			switch o := tp.Scope().Lookup(v.Name).(type) {
			case *types.Const:
				c := ssa.NewConst(o.Val(), o.Type())
				return e.constant(c)
			case *types.Var:
				if sp := e.P.pkgs[env.pkg]; sp != nil {
					if g, ok := sp.Members[v.Name].(*ssa.Global); ok {
						k, s := globalComp(e.P, g)
						return Val{T: o.Type(), S: e.comp(env.st, k, s)}
					}
				}
			}
		}
		e.fail("unknown name %q in contract", v.Name)
	case EUn:
		a := e.eval(v.X, env)
		if v.Op == "!" {
			return B(not(a.S))
		}
		return I("(- " + a.S + ")")
	case EBin:
		return e.evalBin(v, env)
	case ELet:
		a := e.eval(v.V, env)
		n := env.sub()
		n.vars[v.Name] = a
		return e.eval(v.B, n)
	case EQuant:
		trigs := v.Trig
		if len(trigs) == 0 {
			trigs = [][]Expr{nil}
		}
		var parts []string
		for _, g := range trigs {
			parts = append(parts, e.quant(v, g, env))
		}
		return B(and(parts...))
	case ECast:
		a := e.eval(v.X, env)
		t, so := e.parseType(v.T, env.pkg)
		if t != nil {
			if _, isP := t.Underlying().(*types.Pointer); !isP && !types.IsInterface(t) && a.T != nil && types.IsInterface(a.T) {
				e.boxFn(t, sortOf(e.P, t))
				return Val{T: t, S: app(q("unbox:"+typeName(t)), a.S)}
			}
		}
		return Val{T: t, Sort: so, S: a.S}
	case ESel:
		return e.evalSel(v, env)
	case EIdx:
		a := e.eval(v.X, env)
		i := e.eval(v.I, env)
		if a.T == nil {
			if strings.HasPrefix(a.Sort, "(Array") {
				return Val{Sort: arrElem(a.Sort), S: sel(a.S, i.S)}
			}
			// indexing on logic sort: tree/list access handled by functions
			e.fail("cannot index logic sort %s", a.Sort)
		}
		switch t := a.T.Underlying().(type) {
		case *types.Slice:
			k, so := elemComp(e.P, t.Elem())
			ix := "(+ (s_off " + a.S + ") " + i.S + ")"
			if suf := " (s_off " + a.S + "))"; strings.HasPrefix(i.S, "(- q") && strings.HasSuffix(i.S, suf) && !strings.Contains(i.S[3:len(i.S)-len(suf)], " ") {
				ix = i.S[3 : len(i.S)-len(suf)]
			}
			return Val{T: t.Elem(), S: sel(sel(e.comp(env.st, k, so), "(s_arr "+a.S+")"), ix)}
		case *types.Map:
			_, val := e.mapLookup(env.st, a.T, a.S, e.term(i))
			return Val{T: t.Elem(), S: val}
		case *types.Basic:
			return I(app("sat", a.S, i.S))
		case *types.Array:
			return Val{T: t.Elem(), S: sel(a.S, i.S)}
		}
		e.fail("cannot index %v", a.T)
	case ECall:
		return e.evalCall(v, env)
	}
	e.fail("cannot evaluate %#v", x)
	return Val{}
}

// quant builds one quantifier for one trigger group. An integer variable that indexes a slice in the
// trigger is quantified over absolute array positions, so that the pattern contains no arithmetic.
func (e *Enc) quant(v EQuant, g []Expr, env *Env) string {
	n := env.sub()
	n.quant++
	bound := map[string]bool{}
	for _, qv := range v.Vars {
		bound[qv.Name] = true
	}
	var bs []string
	for _, qv := range v.Vars {
		t, so := e.parseType(qv.Type, env.pkg)
		e.n++
		nm := fmt.Sprintf("q%d_%s", e.n, sanitize(qv.Name))
		bs = append(bs, fmt.Sprintf("(%s %s)", nm, so))
		x := Val{T: t, S: nm}
		if t == nil {
			x.Sort = so
		}
		if so == "Int" && t == nil {
			if sx := trigSlice(g, qv.Name, bound); sx != nil {
				a := e.eval(sx, env)
				if a.T != nil {
					if _, ok := a.T.Underlying().(*types.Slice); ok {
						x.S = "(- " + nm + " (s_off " + a.S + "))"
					}
				}
			}
		}
		n.vars[qv.Name] = x
	}
	body := e.eval(v.Body, n).S
	kw := "forall"
	if !v.All {
		kw = "exists"
	}
	if g != nil {
		var ts []string
		for _, t := range g {
			tv := e.eval(t, n)
			ts = append(ts, tv.S)
			if so := tv.Sort; so != "" || tv.T != nil {
				if so == "" {
					so = sortOf(e.P, tv.T)
				}
				e.trigSort[tv.S] = so
			}
		}
		body = "(! " + body + " :pattern (" + strings.Join(ts, " ") + "))"
	}
	return fmt.Sprintf("(%s (%s) %s)", kw, strings.Join(bs, " "), body)
}

// trigSlice finds X in a trigger term X[i] (possibly under old) with X free of bound variables.
func trigSlice(g []Expr, name string, bound map[string]bool) Expr {
	var found Expr
	var walk func(x Expr, wrap func(Expr) Expr)
	walk = func(x Expr, wrap func(Expr) Expr) {
		switch v := x.(type) {
		case EIdx:
			if id, ok := v.I.(EIdent); ok && id.Name == name && found == nil && !mentions(v.X, bound) {
				found = wrap(v.X)
				return
			}
			walk(v.X, wrap)
			walk(v.I, wrap)
		case ECall:
			w := wrap
			if v.Fn == "old" {
				w = func(y Expr) Expr { return wrap(ECall{"old", []Expr{y}}) }
			}
			for _, a := range v.Args {
				walk(a, w)
			}
		case ESel:
			walk(v.X, wrap)
		case ECast:
			walk(v.X, wrap)
		case EBin:
			walk(v.L, wrap)
			walk(v.R, wrap)
		}
	}
	for _, t := range g {
		walk(t, func(x Expr) Expr { return x })
	}
	return found
}

func mentions(x Expr, names map[string]bool) bool {
	switch v := x.(type) {
	case EIdent:
		return names[v.Name]
	case EUn:
		return mentions(v.X, names)
	case EBin:
		return mentions(v.L, names) || mentions(v.R, names)
	case ECall:
		for _, a := range v.Args {
			if mentions(a, names) {
				return true
			}
		}
	case ESel:
		return mentions(v.X, names)
	case EIdx:
		return mentions(v.X, names) || mentions(v.I, names)
	case ECast:
		return mentions(v.X, names)
	case eDelayed:
		return false
	case EQuant, ELet:
		return true
	}
	return false
}

func arrElem(s string) string {
	// (Array K V) -> V for atomic K
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i, c := range s {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
		}
		if c == ' ' && d == 0 {
			return s[i+1:]
		}
	}
	return s
}

func (e *Enc) evalBin(v EBin, env *Env) Val {
	B := func(s string) Val { return Val{Sort: "Bool", S: s} }
	I := func(s string) Val { return Val{Sort: "Int", S: s} }
	l := e.eval(v.L, env)
	r := e.eval(v.R, env)
	if v.Op == "==" || v.Op == "!=" {
		var s string
		ls, rs := e.sortOfVal(l), e.sortOfVal(r)
		if ls == "Slice" && r.S == "0" {
			s = "(= (s_arr " + l.S + ") 0)"
		} else if ls != rs {
			e.fail("comparing %s with %s", ls, rs)
		} else {
			s = "(= " + e.term(l) + " " + e.term(r) + ")"
		}
		if v.Op == "!=" {
			s = not(s)
		}
		return B(s)
	}
	ls := e.sortOfVal(l)
	if ls == "F64" {
		m := map[string]string{"+": "f64_add", "-": "f64_sub", "*": "f64_mul", "/": "f64_div", "<": "f64_lt", "<=": "f64_le"}
		switch v.Op {
		case ">":
			return B(app("f64_lt", r.S, l.S))
		case ">=":
			return B(app("f64_le", r.S, l.S))
		}
		if f := m[v.Op]; strings.HasPrefix(v.Op, "<") && f != "" {
			return B(app(f, l.S, r.S))
		} else if f != "" {
			return Val{T: types.Typ[types.Float64], S: app(f, l.S, r.S)}
		}
	}
	switch v.Op {
	case "&&":
		return B(and(l.S, r.S))
	case "||":
		return B(or(l.S, r.S))
	case "==>":
		return B(imp(l.S, r.S))
	case "<==>":
		return B("(= " + l.S + " " + r.S + ")")
	case "<", "<=", ">", ">=":
		if ls == "Str" {
			switch v.Op {
			case "<":
				return B(app("slt", l.S, r.S))
			case ">":
				return B(app("slt", r.S, l.S))
			case "<=":
				return B(not(app("slt", r.S, l.S)))
			default:
				return B(not(app("slt", l.S, r.S)))
			}
		}
		return B("(" + v.Op + " " + l.S + " " + r.S + ")")
	case "+":
		if ls == "Str" {
			return Val{T: types.Typ[types.String], S: app("scat", l.S, r.S)}
		}
		if ls == "Real" {
			return Val{Sort: "Real", S: "(+ " + l.S + " " + r.S + ")"}
		}
		return I("(+ " + l.S + " " + r.S + ")")
	case "-", "*":
		if ls == "Real" {
			return Val{Sort: "Real", S: "(" + v.Op + " " + l.S + " " + r.S + ")"}
		}
		return I("(" + v.Op + " " + l.S + " " + r.S + ")")
	case "/":
		return I(app("tdiv", l.S, r.S))
	case "%":
		return I(app("trem", l.S, r.S))
	}
	e.fail("op %s", v.Op)
	return Val{}
}

// pkgMember: a constant or variable of an imported package.
func (e *Enc) pkgMember(pk, name string, env *Env) (Val, bool) {
	if _, isVar := env.vars[pk]; isVar {
		return Val{}, false
	}
	if env.lookup != nil {
		if _, isVar := env.lookup(pk); isVar {
			return Val{}, false
		}
	}
	tp := e.P.tpkgs[env.pkg]
	if tp == nil {
		return Val{}, false
	}
	for _, im := range tp.Imports() {
		if im.Name() != pk {
			continue
		}
		switch o := im.Scope().Lookup(name).(type) {
		case *types.Const:
			return e.constant(ssa.NewConst(o.Val(), o.Type())), true
		case *types.Var:
			if sp := e.P.prog.Package(im); sp != nil {
				if g, ok := sp.Members[name].(*ssa.Global); ok {
					k, s := globalComp(e.P, g)
					return Val{T: o.Type(), S: e.comp(env.st, k, s)}, true
				}
			}
		}
	}
	return Val{}, false
}

func (e *Enc) evalSel(v ESel, env *Env) Val {
	if id, isId := v.X.(EIdent); isId {
		if r, ok := e.pkgMember(id.Name, v.Name, env); ok {
			return r
		}
	}
	b := e.eval(v.X, env)
	if b.T == nil {
		e.fail("field %s of logic value", v.Name)
	}
	if strings.HasPrefix(v.Name, "$") {
		g := e.ghostFor(b.T, v.Name)
		so := "(Array Int " + g.sort + ")"
		s := sel(e.comp(env.st, g.key, so), e.term(b))
		if g.sort == "Str" {
			return Val{T: types.Typ[types.String], S: s}
		}
		return Val{Sort: g.sort, S: s}
	}
	isPtr := false
	st := b.T
	if p, ok := b.T.Underlying().(*types.Pointer); ok {
		st, isPtr = p.Elem(), true
	}
	u, ok := st.Underlying().(*types.Struct)
	if !ok {
		// interface with one implementer: use it
		if it, isI := b.T.Underlying().(*types.Interface); isI {
			impl := e.P.implementers(it)
			if len(impl) == 1 {
				if p, ok := impl[0].(*types.Pointer); ok {
					return e.evalSel(ESel{eVal{Val{T: p, S: b.S}}, v.Name}, env)
				}
			}
		}
		e.fail("field %s of %v", v.Name, b.T)
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == v.Name {
			ft := u.Field(i).Type()
			if isPtr {
				if b.Addr != nil {
					fr := e.fieldAddr(nil, b, i, env.st, "true", "spec")
					a := fr.Addr
					t := e.slot(env.st, a)
					for _, p := range a.path {
						t = app(structSel(p.T, p.i), t)
					}
					return Val{T: ft, S: t}
				}
				k, s := fieldComp(e.P, st, i)
				return Val{T: ft, S: sel(e.comp(env.st, k, s), b.S)}
			}
			sortOf(e.P, st)
			return Val{T: ft, S: app(structSel(st, i), b.S)}
		}
	}
	// embedded
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			ft := u.Field(i).Type()
			ff := ft
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ff = p.Elem()
			}
			if fu, ok := ff.Underlying().(*types.Struct); ok {
				for j := 0; j < fu.NumFields(); j++ {
					if fu.Field(j).Name() == v.Name {
						return e.evalSel(ESel{ESel{v.X, u.Field(i).Name()}, v.Name}, env)
					}
				}
			}
		}
	}
	e.fail("no field %s in %v", v.Name, st)
	return Val{}
}

type eVal struct{ v Val }

func (e *Enc) evalCall(c ECall, env *Env) Val {
	B := func(s string) Val { return Val{Sort: "Bool", S: s} }
	I := func(s string) Val { return Val{Sort: "Int", S: s} }
	arg := func(i int) Val { return e.eval(c.Args[i], env) }
	switch c.Fn {
	case "f64":
		return Val{T: types.Typ[types.Float64], S: e.f64Lit(constant.MakeFromLiteral(c.Args[0].(EStr).V, token.FLOAT, 0))}
	case "old":
		n := *env
		n.st = env.old
		n.inOld = true
		if !env.inOld {
			st := env.st
			n.nowSt = &st
		}
		return e.eval(c.Args[0], &n)
	case "now": // within old: the present state
		n := *env
		if env.nowSt != nil {
			n.st, n.inOld, n.nowSt = *env.nowSt, false, nil
		}
		return e.eval(c.Args[0], &n)
	case "ite":
		a, x, y := arg(0), arg(1), arg(2)
		return Val{T: x.T, Sort: x.Sort, S: ite(a.S, e.term(x), e.term(y))}
	case "len":
		a := arg(0)
		if a.T == nil {
			e.fail("len of logic value")
		}
		switch a.T.Underlying().(type) {
		case *types.Slice:
			return I("(s_len " + a.S + ")")
		case *types.Basic:
			return I("(slen " + a.S + ")")
		case *types.Map:
			_, _, l := mapComps(e.P, a.T)
			return I(ite("(= "+a.S+" 0)", "0", sel(e.comp(env.st, l[0], l[1]), a.S)))
		}
		e.fail("len")
	case "cap":
		return I("(s_cap " + arg(0).S + ")")
	case "arr":
		return I("(s_arr " + arg(0).S + ")")
	case "off":
		return I("(s_off " + arg(0).S + ")")
	case "ref":
		return I(e.term(arg(0)))
	case "at":
		// at(s, j): element at absolute index of the backing array
		a := arg(0)
		t := a.T.Underlying().(*types.Slice)
		k, so := elemComp(e.P, t.Elem())
		return Val{T: t.Elem(), S: sel(sel(e.comp(env.st, k, so), "(s_arr "+a.S+")"), arg(1).S)}
	case "data":
		a := arg(0)
		t := a.T.Underlying().(*types.Slice)
		k, so := elemComp(e.P, t.Elem())
		return Val{Sort: "(Array Int " + sortOf(e.P, t.Elem()) + ")", S: sel(e.comp(env.st, k, so), "(s_arr "+a.S+")")}
	case "fresh":
		a := arg(0)
		if a.T != nil {
			if _, ok := a.T.Underlying().(*types.Slice); ok {
				return B(fmt.Sprintf("(and (>= (s_arr %s) %s) (< (s_arr %s) %s))", a.S, e.alloc(env.old), a.S, e.alloc(env.st)))
			}
		}
		return B(fmt.Sprintf("(and (>= %s %s) (< %s %s))", a.S, e.alloc(env.old), a.S, e.alloc(env.st)))
	case "allocated":
		a := arg(0)
		return B(fmt.Sprintf("(and (< 0 %s) (< %s %s))", a.S, a.S, e.alloc(env.st)))
	case "is":
		a := arg(0)
		tn := c.Args[1].(EIdent).Name
		t, _ := e.parseType(tn, env.pkg)
		if t == nil {
			e.fail("is: unknown type %s", tn)
		}
		ok, _ := e.typeAssert(a.S, t, env.st, "true")
		return B(ok)
	case "typeok":
		a := arg(0)
		return B(e.typeFact(a.S, a.T, env.st))
	case "typeid":
		return I("(typeof " + arg(0).S + ")")
	case "has":
		m, k := arg(0), arg(1)
		ok, _ := e.mapLookup(env.st, m.T, m.S, e.term(k))
		return B(ok)
	case "get":
		// get(m, k): what Go's m[k] gives (the zero value when absent)
		m, k := arg(0), arg(1)
		ok, v := e.mapLookup(env.st, m.T, m.S, e.term(k))
		el := m.T.Underlying().(*types.Map).Elem()
		return Val{T: el, S: ite(ok, v, e.zero(el))}
	case "deref":
		a := arg(0)
		ad := e.addrOf(nil, a)
		l := Val{T: ad.T}
		if ad.kind == "struct" {
			l = e.load(env.st, ad, "true")
		} else {
			t := e.slot(env.st, ad)
			for _, p := range ad.path {
				t = app(structSel(p.T, p.i), t)
			}
			l.S = t
		}
		return l
	case "visited":
		for k, v := range env.st {
			if strings.HasPrefix(k, "IT:") {
				return B(sel(v, e.term(arg(0))))
			}
		}
		e.fail("visited: no map iteration in scope")
	case "mdom", "mvals":
		// the set of keys and the values of a map, as arrays
		m := arg(0)
		d, v, _ := mapComps(e.P, m.T)
		if c.Fn == "mvals" {
			return Val{Sort: strings.TrimSuffix(strings.TrimPrefix(v[1], "(Array Int "), ")"), S: sel(e.comp(env.st, v[0], v[1]), m.S)}
		}
		so := strings.TrimSuffix(strings.TrimPrefix(d[1], "(Array Int "), ")")
		return Val{Sort: so, S: ite("(= "+m.S+" 0)", "((as const "+so+") false)", sel(e.comp(env.st, d[0], d[1]), m.S))}
	case "comp":
		// comp("F:pkg.T.f"): a whole heap component, for heap functions that take more than the tree
		kn, isStr := c.Args[0].(EStr)
		if !isStr {
			e.fail("comp: needs a component name string")
		}
		so := ""
		if g, ok := ghostByKey[kn.V]; ok {
			so = "(Array Int " + g.sort + ")"
		} else {
			so = e.P.sortOfComp(kn.V)
		}
		if so == "" {
			for _, h := range e.P.heapComps() {
				if h[1] == kn.V {
					so = h[2]
				}
			}
		}
		if so == "" {
			e.fail("comp: unknown component %s", kn.V)
		}
		return Val{Sort: so, S: e.comp(env.st, kn.V, so)}
	case "same_below":
		// every modelled heap component agrees with the old state below the given allocation mark
		var fs []string
		var ks []string
		for k := range e.comps {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			so := e.comps[k]
			if strings.HasPrefix(k, "IT:") || !strings.HasPrefix(so, "(Array Int") {
				continue
			}
			fs = append(fs, e.frameFormula(k, so, e.comp(env.old, k, so), e.comp(env.st, k, so), arg(0).S, nil))
		}
		return B(and(fs...))
	case "zero":
		tn, isStr := c.Args[0].(EStr)
		if !isStr {
			e.fail("zero: argument must be a type name string")
		}
		t, _ := e.parseType(tn.V, env.pkg)
		if t == nil {
			e.fail("zero: unknown type %s", tn.V)
		}
		sortOf(e.P, t)
		return Val{T: t, S: e.zero(t)}
	case "mk":
		// mk("T", f1, f2, ...): a struct value
		tn, isStr := c.Args[0].(EStr)
		if !isStr {
			e.fail("mk: first argument must be a type name string")
		}
		t, _ := e.parseType(tn.V, env.pkg)
		if t == nil {
			e.fail("mk: unknown type %s", tn.V)
		}
		u, isStruct := t.Underlying().(*types.Struct)
		if !isStruct || u.NumFields() != len(c.Args)-1 {
			e.fail("mk: %s does not have %d fields", tn.V, len(c.Args)-1)
		}
		sortOf(e.P, t)
		var as []string
		for i := 1; i < len(c.Args); i++ {
			as = append(as, e.term(arg(i)))
		}
		return Val{T: t, S: app(structMk(t), as...)}
	case "smt":
		// smt("name", args...) with declared logic
	}
	if m := e.P.db.Macros[c.Fn]; m != nil {
		if len(m.Params) != len(c.Args) {
			e.fail("macro %s: want %d args", c.Fn, len(m.Params))
		}
		n := *env
		n.vars = map[string]Val{}
		n.lookup = nil
		n.oldVars = nil
		for k, v := range env.vars {
			if strings.HasPrefix(k, "@") {
				n.vars[k] = v
			}
		}
		// arguments are substituted as values in both states: re-evaluate lazily under old()
		sub := map[string]Expr{}
		for i, p := range m.Params {
			sub[p] = eDelayed{c.Args[i], env}
		}
		n.vars = map[string]Val{}
		return e.eval(substExpr(m.Body, sub), &n)
	}
	// was_F(..): F in the old state, of arguments in the present one
	fn, hst := c.Fn, env.st
	if strings.HasPrefix(fn, "was_") {
		fn, hst = fn[len("was_"):], env.old
	}
	if l, ok := e.P.db.Logic[fn]; ok {
		if len(l.Args) != len(c.Args) {
			e.fail("logic function %s: want %d args, got %d", c.Fn, len(l.Args), len(c.Args))
		}
		var as []string
		if l.Heap {
			as = append(as, e.snap(hst))
		}
		for i := range c.Args {
			a := arg(i)
			so := e.sortOfVal(a)
			want := l.Args[i]
			if want == "Ref" {
				want = "Int"
			}
			if want == "TH" && a.Sort != "TH" {
				e.fail("logic %s arg %d", c.Fn, i)
			}
			if so != want {
				e.fail("logic function %s: argument %d has sort %s, want %s", c.Fn, i+1, so, want)
			}
			as = append(as, e.term(a))
		}
		if l.Ret == "Str" {
			return Val{T: types.Typ[types.String], S: app(fn, as...)}
		}
		if t, so := e.parseTypeSafe(l.Ret, env.pkg); t != nil {
			return Val{T: t, Sort: so, S: app(fn, as...)}
		}
		ret := l.Ret
		if ret == "Ref" {
			ret = "Int"
		}
		return Val{Sort: ret, S: app(fn, as...)}
	}
	// a pure repo function used in a contract? not supported
	e.fail("unknown function %s in contract", c.Fn)
	return Val{}
}

func (e *Enc) parseTypeSafe(s, pkg string) (t types.Type, so string) {
	if !strings.HasPrefix(s, "*") && !strings.HasPrefix(s, "[]") && s != "Ex" {
		return nil, s
	}
	return e.parseType(s, pkg)
}

// eDelayed evaluates an argument expression in its own environment but the current state.
type eDelayed struct {
	x   Expr
	env *Env
}

func substExpr(x Expr, sub map[string]Expr) Expr {
	switch v := x.(type) {
	case EIdent:
		if r, ok := sub[v.Name]; ok {
			return r
		}
		return v
	case EUn:
		return EUn{v.Op, substExpr(v.X, sub)}
	case EBin:
		return EBin{v.Op, substExpr(v.L, sub), substExpr(v.R, sub)}
	case ECall:
		var as []Expr
		if v.Fn == "is" {
			return ECall{v.Fn, []Expr{substExpr(v.Args[0], sub), v.Args[1]}}
		}
		for _, a := range v.Args {
			as = append(as, substExpr(a, sub))
		}
		return ECall{v.Fn, as}
	case ESel:
		return ESel{substExpr(v.X, sub), v.Name}
	case EIdx:
		return EIdx{substExpr(v.X, sub), substExpr(v.I, sub)}
	case ECast:
		return ECast{substExpr(v.X, sub), v.T}
	case ELet:
		s2 := shadow(sub, v.Name)
		return ELet{v.Name, substExpr(v.V, sub), substExpr(v.B, s2)}
	case EQuant:
		s2 := sub
		for _, q := range v.Vars {
			s2 = shadow(s2, q.Name)
		}
		n := EQuant{All: v.All, Vars: v.Vars, Body: substExpr(v.Body, s2)}
		for _, g := range v.Trig {
			var ng []Expr
			for _, t := range g {
				ng = append(ng, substExpr(t, s2))
			}
			n.Trig = append(n.Trig, ng)
		}
		return n
	}
	return x
}

func shadow(sub map[string]Expr, n string) map[string]Expr {
	if _, ok := sub[n]; !ok {
		return sub
	}
	o := map[string]Expr{}
	for k, v := range sub {
		if k != n {
			o[k] = v
		}
	}
	return o
}

// ---------- local names at loop heads ----------

func (r *region) loopEnv(hs *headState, st State, phi map[*ssa.Phi]Val, k string) *Env {
	e := r.e
	env := e.topEnv(st)
	env.vars["$k"] = Val{Sort: "Int", S: k}
	for o, ok := range e.loopKs {
		if o != hs.ord {
			env.vars[fmt.Sprintf("$k%d", o)] = Val{Sort: "Int", S: ok}
		}
	}
	env.vars["alloc_loop"] = Val{Sort: "Int", S: hs.allocL}
	// $r: the slice a range loop walks
	for _, p := range hs.phis {
		if p.Comment != "rangeindex" {
			continue
		}
		for _, in := range p.Block().Instrs {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.LSS {
				continue
			}
			if c, ok := b.Y.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if v, have := r.fr.vals[c.Call.Args[0]]; have {
						v.T = c.Call.Args[0].Type()
						env.vars["$r"] = v
					}
				}
			}
		}
	}
	fr := r.fr
	head := hs.phis
	var hb *ssa.BasicBlock
	for b, h := range r.heads {
		if h == hs {
			hb = b
		}
	}
	if hb == nil {
		// during init the head is not registered yet
		for _, p := range head {
			hb = p.Block()
		}
	}
	claimed := map[*ssa.Phi]bool{}
	alias := map[string]*ssa.Phi{}
	if hs.spec != nil {
		for _, v := range hs.spec.Vars {
			for _, p := range head {
				if p.Comment == v.Name {
					alias[v.Name] = p
					claimed[p] = true
				}
			}
		}
		for _, v := range hs.spec.Vars {
			if alias[v.Name] != nil || v.Type == "" {
				continue
			}
			for _, p := range head {
				if claimed[p] || p.Comment == "rangeindex" {
					continue
				}
				if matchType(p.Type(), v.Type) {
					alias[v.Name] = p
					claimed[p] = true
					break
				}
			}
		}
	}
	env.lookup = func(name string) (Val, bool) {
		if o := e.C.Shift[hs.ord]; o >= byTurns && hs.spec.Vars[0].Name == name {
			return Val{Sort: "Int", S: fmt.Sprintf("(+ %s %d)", k, o-byTurns)}, true
		}
		if p := alias[name]; p != nil {
			v := phi[p]
			if o := e.C.Shift[hs.ord]; o != 0 && hs.spec != nil && len(hs.spec.Vars) > 0 && hs.spec.Vars[0].Name == name && hs.spec.Vars[0].Type == "int" {
				v.S = fmt.Sprintf("(+ %s (- %d))", v.S, -o)
				if o > 0 {
					v.S = fmt.Sprintf("(+ %s %d)", phi[p].S, o)
				}
			}
			return v, true
		}
		for _, p := range head {
			if p.Comment == name {
				v := phi[p]
				v.T = p.Type()
				return v, true
			}
		}
		for f := fr; f != nil; f = f.parent {
			var at *ssa.BasicBlock
			if f == fr {
				at = hb
			}
			if v, ok := e.localVar(f, at, st, name); ok {
				return v, true
			}
		}
		if hs.spec != nil {
			for _, v := range hs.spec.Vars {
				if v.Name == name && v.Type != "" {
					if n := localOfType(fr.fn, hb, v.Type, hs.spec.Vars); n != "" {
						return e.localVar(fr, hb, st, n)
					}
				}
			}
		}
		return Val{}, false
	}
	return env
}

// localOfType names the first local variable of the given type declared
// before block at (variables declared by name in the loop specification are
// not considered).
func localOfType(fn *ssa.Function, at *ssa.BasicBlock, typ string, taken []QVar) string {
	best := ""
	bestPos := token.NoPos
	params := map[string]bool{}
	for _, p := range fn.Params {
		params[p.Name()] = true
	}
	for _, v := range taken {
		params[v.Name] = true
	}
	for _, b := range fn.Blocks {
		if at != nil && (b == at || !b.Dominates(at)) {
			continue
		}
		for _, in := range b.Instrs {
			n, pos := "", token.NoPos
			var t types.Type
			switch d := in.(type) {
			case *ssa.DebugRef:
				if id, ok := d.Expr.(*ast.Ident); ok && d.Object() != nil && d.Object().Pkg() != nil && d.Object().Parent() != d.Object().Pkg().Scope() {
					if o, ok := d.Object().(*types.Var); ok && !o.IsField() {
						n, t, pos = id.Name, d.Object().Type(), d.Object().Pos()
					}
				}
			case *ssa.Alloc:
				if d.Comment != "" && d.Comment != "complit" && d.Comment != "varargs" && d.Comment != "makeslice" && d.Comment != "slicelit" && d.Comment != "new" {
					n, t, pos = d.Comment, d.Type().(*types.Pointer).Elem(), d.Pos()
				}
			}
			if n == "" || params[n] || !matchType(t, typ) {
				continue
			}
			if best == "" || pos < bestPos {
				best, bestPos = n, pos
			}
		}
	}
	return best
}

func matchType(t types.Type, s string) bool {
	n := types.TypeString(t, func(p *types.Package) string { return "" })
	n = strings.ReplaceAll(n, "/", "")
	return n == s || strings.TrimPrefix(n, ".") == s || typeName(t) == s
}

// localVar finds the value of a source-level variable visible at block at.
func (e *Enc) localVar(f *Frame, at *ssa.BasicBlock, st State, name string) (Val, bool) {
	for i, p := range f.fn.Params {
		if p.Name() == name {
			_ = i
			if v, ok := f.vals[p]; ok {
				return v, true
			}
		}
	}
	for _, p := range f.fn.FreeVars {
		if p.Name() == name {
			if v, ok := f.vals[p]; ok {
				a := e.addrOf(f, v)
				return Val{T: a.T, S: e.slot(st, a)}, true
			}
		}
	}
	var best ssa.Value
	bestAddr := false
	bestKey := [2]int{-1, -1}
	for bi, b := range f.fn.Blocks {
		if at != nil && b != at && !b.Dominates(at) {
			continue
		}
		_ = bi
		for ii, in := range b.Instrs {
			switch d := in.(type) {
			case *ssa.DebugRef:
				id, ok := d.Expr.(*ast.Ident)
				if !ok || id.Name != name {
					continue
				}
				if _, have := f.vals[d.X]; !have {
					if _, isC := d.X.(*ssa.Const); !isC {
						continue
					}
				}
				if at != nil && b == at {
					continue
				}
				key := [2]int{domDepth(b), ii}
				if key[0] > bestKey[0] || key[0] == bestKey[0] && key[1] > bestKey[1] {
					best, bestAddr, bestKey = d.X, d.IsAddr, key
				}
			case *ssa.Phi:
				if d.Comment == name && (at == nil || b != at) {
					if _, have := f.vals[d]; have {
						key := [2]int{domDepth(b), -1}
						if key[0] > bestKey[0] {
							best, bestAddr, bestKey = d, false, key
						}
					}
				}
			case *ssa.Alloc:
				if d.Comment == name {
					if v, have := f.vals[d]; have {
						a := e.addrOf(f, v)
						if a.kind == "struct" {
							return Val{T: d.Type(), S: v.S}, true
						}
						return Val{T: a.T, S: e.slot(st, a)}, true
					}
				}
			}
		}
	}
	if best != nil {
		v := e.val(f, best, st)
		if bestAddr {
			a := e.addrOf(f, v)
			if a.kind == "struct" {
				return Val{T: v.T, S: v.S}, true
			}
			return Val{T: a.T, S: e.slot(st, a)}, true
		}
		return v, true
	}
	return Val{}, false
}

func domDepth(b *ssa.BasicBlock) int {
	n := 0
	for b.Idom() != nil {
		b = b.Idom()
		n++
	}
	return n
}

// topEnv: the contract's own parameter names in state st, old = entry.
func (e *Enc) topEnv(st State) *Env {
	env := &Env{e: e, st: st, old: e.entry, vars: map[string]Val{}, pkg: e.C.Pkg}
	for i, p := range e.fn.Params {
		env.vars[p.Name()] = e.params[i]
	}
	for i := range e.fn.Params {
		if i < len(e.C.Params) {
			env.vars[e.C.Params[i].Name] = e.params[i]
		}
	}
	for _, g := range e.C.GParams {
		t, so := e.parseType(g.Type, e.C.Pkg)
		n := "gp_" + g.Name
		if !e.declSet[n] {
			e.declSet[n] = true
			e.lines = append(e.lines, fmt.Sprintf("(declare-const %s %s)", n, so))
		}
		env.vars[g.Name] = Val{T: t, Sort: so, S: n}
	}
	return env
}
