package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *region) instr(in ssa.Instruction, pc string, st State) (string, bool) {
	e, fr := r.e, r.fr
	set := func(v ssa.Value, x Val) { x.T = v.Type(); fr.vals[v] = x }
	term := func(v ssa.Value) string { return e.term(e.val(fr, v, st)) }
	switch v := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := v.Type().Underlying().(*types.Pointer).Elem()
		if n := virtVarargs(v); n > 0 {
			vs := make([]Val, n)
			for i := range vs {
				vs[i] = Val{T: el.Underlying().(*types.Array).Elem(), S: e.zero(el.Underlying().(*types.Array).Elem())}
			}
			fr.vals[v] = Val{T: v.Type(), S: "0", Virt: &vs}
			break
		}
		ref := e.newRef(st, "new_"+v.Comment, nil)
		// guarded: branches that exclude each other allocate the same addresses
		e.assume(imp(pc, fmt.Sprintf("(= (typeof %s) %d)", ref, e.P.tag(v.Type()))))
		e.zeroInit(st, ref, el)
		set(v, Val{S: ref})
	case *ssa.FieldAddr:
		fr.vals[v] = e.fieldAddr(fr, e.val(fr, v.X, st), v.Field, st, pc, v.X.Name())
		x := fr.vals[v]
		x.T = v.Type()
		fr.vals[v] = x
	case *ssa.Field:
		x := e.val(fr, v.X, st)
		sortOf(e.P, v.X.Type())
		t := e.def("fld", sortOf(e.P, v.Type()), app(structSel(v.X.Type(), v.Field), x.S))
		e.assume(imp(pc, e.typeFact(t, v.Type(), st)))
		set(v, Val{S: t})
	case *ssa.IndexAddr:
		x := e.val(fr, v.X, st)
		if x.Virt != nil {
			fr.vals[v] = Val{T: v.Type(), Virt: x.Virt, VirtIdx: int(v.Index.(*ssa.Const).Int64())}
			break
		}
		i := term(v.Index)
		switch t := v.X.Type().Underlying().(type) {
		case *types.Slice:
			e.safety("index", pc, fmt.Sprintf("(and (<= 0 %s) (< %s (s_len %s)))", i, i, x.S), "index in bounds")
			k, s := elemComp(e.P, t.Elem())
			idx := e.def("ix", "Int", fmt.Sprintf("(+ (s_off %s) %s)", x.S, i))
			if i == "0" {
				idx = "(s_off " + x.S + ")"
			}
			fr.vals[v] = Val{T: v.Type(), Addr: &Addr{kind: "elem", comp: k, sort: s, ref: "(s_arr " + x.S + ")", idx: idx, root: t.Elem(), T: t.Elem()}}
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			e.safety("index", pc, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, at.Len()), "array index in bounds")
			k, s := elemComp(e.P, at.Elem())
			fr.vals[v] = Val{T: v.Type(), Addr: &Addr{kind: "elem", comp: k, sort: s, ref: e.term(x), idx: i, root: at.Elem(), T: at.Elem()}}
		default:
			e.fail("IndexAddr on %v", v.X.Type())
		}
	case *ssa.Index:
		x := e.val(fr, v.X, st)
		i := term(v.Index)
		switch t := v.X.Type().Underlying().(type) {
		case *types.Basic:
			e.safety("index", pc, fmt.Sprintf("(and (<= 0 %s) (< %s (slen %s)))", i, i, x.S), "string index in bounds")
			tt := e.def("ch", "Int", app("sat", x.S, i))
			e.assume(fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", tt, tt))
			set(v, Val{S: tt})
		case *types.Array:
			e.safety("index", pc, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, t.Len()), "array index in bounds")
			set(v, Val{S: e.def("ai", sortOf(e.P, v.Type()), sel(x.S, i))})
		default:
			e.fail("Index on %v", t)
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			x := e.val(fr, v.X, st)
			if x.Addr == nil {
				e.safety("nil("+v.X.Name()+")", pc, "(not (= "+x.S+" 0))", "nil pointer dereference")
			}
			a := e.addrOf(fr, x)
			if g, ok := v.X.(*ssa.Global); ok {
				if gv, ok := e.globalVal(g); ok {
					set(v, gv)
					break
				}
			}
			l := e.load(st, a, pc)
			if cl, ok := e.cellClosure(fr, v.X); ok {
				l.Fn, l.Bind = cl.Fn, cl.Bind
			}
			set(v, l)
		case token.NOT:
			set(v, Val{S: not(term(v.X))})
		case token.SUB:
			if _, _, ok := intRange(v.Type()); ok {
				set(v, Val{S: e.wrap(v.Type(), "(- "+term(v.X)+")", pc)})
			} else {
				set(v, Val{S: app("f64_neg", term(v.X))})
			}
		case token.XOR:
			set(v, Val{S: app("bitnot", term(v.X))})
		default:
			e.fail("unop %v", v.Op)
		}
	case *ssa.BinOp:
		set(v, Val{S: e.binop(v.Op, e.val(fr, v.X, st), e.val(fr, v.Y, st), v.X.Type(), v.Type(), pc)})
	case *ssa.Store:
		a := e.val(fr, v.Addr, st)
		if a.Virt != nil {
			(*a.Virt)[a.VirtIdx] = e.val(fr, v.Val, st)
			break
		}
		if a.Addr == nil {
			e.safety("nil-store", pc, "(not (= "+a.S+" 0))", "nil pointer store")
		}
		ad := e.addrOf(fr, a)
		val := e.val(fr, v.Val, st)
		if val.Fn != nil {
			e.noteCellClosure(fr, v.Addr, val)
		}
		if ad.kind == "array" && strings.HasPrefix(sortOf(e.P, ad.T), "(Array") {
			e.store(st, ad, e.term(val))
		} else {
			e.store(st, ad, e.term(val))
		}
	case *ssa.ChangeType:
		x := e.val(fr, v.X, st)
		if sortOf(e.P, v.X.Type()) != sortOf(e.P, v.Type()) {
			e.fail("ChangeType between different sorts")
		}
		x.T = v.Type()
		fr.vals[v] = x
	case *ssa.ChangeInterface:
		x := e.val(fr, v.X, st)
		x.T = v.Type()
		fr.vals[v] = x
	case *ssa.MakeInterface:
		x := e.val(fr, v.X, st)
		_, e.boxNonNil = v.X.(*ssa.Alloc)
		set(v, Val{S: e.box(x, v.X.Type(), pc)})
		e.boxNonNil = false
	case *ssa.TypeAssert:
		x := e.val(fr, v.X, st)
		ok, res := e.typeAssert(x.S, v.AssertedType, st, pc)
		if v.CommaOk {
			okn := e.def("ok", "Bool", ok)
			rs := e.def("ta", sortOf(e.P, v.AssertedType), ite(okn, res, e.zero(v.AssertedType)))
			fr.vals[v] = Val{T: v.Type(), Tup: []Val{{T: v.AssertedType, S: rs}, {T: types.Typ[types.Bool], S: okn}}}
			e.assume(imp(and(pc, okn), e.typeFact(rs, v.AssertedType, st)))
		} else {
			e.safety("type-assert", pc, ok, "type assertion to "+v.AssertedType.String())
			rs := e.def("ta", sortOf(e.P, v.AssertedType), res)
			set(v, Val{S: rs})
		}
	case *ssa.Extract:
		x := e.val(fr, v.Tuple, st)
		y := x.Tup[v.Index]
		y.T = v.Type()
		fr.vals[v] = y
	case *ssa.MakeSlice:
		l, c := term(v.Len), term(v.Cap)
		e.safety("makeslice", pc, fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", l, l, c), "make: length in range")
		ref := e.newRef(st, "mk", nil)
		el := v.Type().Underlying().(*types.Slice).Elem()
		k, s := elemComp(e.P, el)
		e.setComp(st, k, s, sto(e.comp(st, k, s), ref, e.constArr("(Array Int "+sortOf(e.P, el)+")", e.zero(el))))
		set(v, Val{S: e.def("sl", "Slice", fmt.Sprintf("(mkslice %s 0 %s %s)", ref, l, c))})
	case *ssa.MakeMap:
		ref := e.newRef(st, "mkmap", nil)
		d, vv, l := mapComps(e.P, v.Type())
		mt := v.Type().Underlying().(*types.Map)
		ks := sortOf(e.P, mt.Key())
		e.setComp(st, d[0], d[1], sto(e.comp(st, d[0], d[1]), ref, "((as const (Array "+ks+" Bool)) false)"))
		e.comp(st, vv[0], vv[1])
		e.setComp(st, l[0], l[1], sto(e.comp(st, l[0], l[1]), ref, "0"))
		set(v, Val{S: ref})
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range v.Bindings {
			bs = append(bs, e.val(fr, b, st))
		}
		fr.vals[v] = Val{T: v.Type(), Fn: f, Bind: bs}
	case *ssa.MapUpdate:
		m := term(v.Map)
		e.safety("nil-map", pc, "(not (= "+m+" 0))", "assignment to entry in nil map")
		e.mapStore(st, v.Map.Type(), m, term(v.Key), term(v.Value))
	case *ssa.Lookup:
		m := term(v.X)
		mt, isMap := v.X.Type().Underlying().(*types.Map)
		if !isMap {
			i := term(v.Index)
			e.safety("index", pc, fmt.Sprintf("(and (<= 0 %s) (< %s (slen %s)))", i, i, m), "string index in bounds")
			tt := e.def("ch", "Int", app("sat", m, i))
			e.assume(fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", tt, tt))
			set(v, Val{S: tt})
			break
		}
		key := term(v.Index)
		ok, val := e.mapLookup(st, v.X.Type(), m, key)
		okn := e.def("ok", "Bool", ok)
		x := e.def("mv", sortOf(e.P, mt.Elem()), ite(okn, val, e.zero(mt.Elem())))
		e.assume(imp(and(pc, okn), e.typeFact(x, mt.Elem(), st)))
		if v.CommaOk {
			fr.vals[v] = Val{T: v.Type(), Tup: []Val{{T: mt.Elem(), S: x}, {T: types.Typ[types.Bool], S: okn}}}
		} else {
			set(v, Val{S: x})
		}
	case *ssa.Range:
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			id := fmt.Sprintf("IT:%s.%s.%d", fr.fn.Name(), v.Name(), fr.depth)
			mt := v.X.Type().Underlying().(*types.Map)
			so := "(Array " + sortOf(e.P, mt.Key()) + " Bool)"
			e.comps[id] = so
			st[id] = "((as const " + so + ") false)"
			m := term(v.X)
			fr.vals[v] = Val{T: v.Type(), S: m, Lazy: id}
		} else {
			fr.vals[v] = Val{T: v.Type(), S: term(v.X), Lazy: "str"}
		}
	case *ssa.Next:
		it := e.val(fr, v.Iter, st)
		tt := v.Type().(*types.Tuple)
		okc := e.freshConst("nok", "Bool")
		if v.IsString {
			i := e.freshConst("ri", "Int")
			c := e.freshConst("rune", "Int")
			e.assume(fmt.Sprintf("(=> %s (and (<= 0 %s) (< %s (slen %s)) (<= 0 %s)))", okc, i, i, it.S, c))
			fr.vals[v] = Val{T: v.Type(), Tup: []Val{{T: types.Typ[types.Bool], S: okc}, {T: tt.At(1).Type(), S: i}, {T: tt.At(2).Type(), S: c}}}
			break
		}
		rng := v.Iter.(*ssa.Range)
		mt := rng.X.Type().Underlying().(*types.Map)
		d, vv, _ := mapComps(e.P, rng.X.Type())
		dom := sel(e.comp(st, d[0], d[1]), it.S)
		vals := sel(e.comp(st, vv[0], vv[1]), it.S)
		vis := st[it.Lazy]
		ks := sortOf(e.P, mt.Key())
		kc := e.freshConst("key", ks)
		e.assume(imp(and(pc, okc), and("(not (= "+it.S+" 0))", sel(dom, kc), not(sel(vis, kc)), e.typeFact(kc, mt.Key(), st))))
		e.assume(imp(and(pc, not(okc)), fmt.Sprintf("(forall ((x %s)) (! (=> (and (not (= %s 0)) (select %s x)) (select %s x)) :pattern ((select %s x)) :pattern ((select %s x))))", ks, it.S, dom, vis, dom, vis)))
		x := e.def("mval", sortOf(e.P, mt.Elem()), sel(vals, kc))
		e.assume(imp(and(pc, okc), e.typeFact(x, mt.Elem(), st)))
		st[it.Lazy] = e.def("vis", e.comps[it.Lazy], ite(okc, sto(vis, kc, "true"), vis))
		fr.vals[v] = Val{T: v.Type(), Tup: []Val{{T: types.Typ[types.Bool], S: okc}, {T: mt.Key(), S: kc}, {T: mt.Elem(), S: x}}}
	case *ssa.Slice:
		r.slice(v, pc, st)
	case *ssa.Convert:
		set(v, Val{S: e.convert(e.val(fr, v.X, st), v.X.Type(), v.Type(), st, pc)})
	case *ssa.Call:
		return r.call(v, v.Common(), pc, st)
	case *ssa.Defer:
		fr.defers = append(fr.defers, v)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			g := d.Common().StaticCallee()
			if g != nil && len(g.Blocks) == 0 && e.P.contractFor(g) == nil {
				continue
			}
			e.fail("deferred call %v", d.Common())
		}
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		e.fail("concurrency instruction %v", in)
	default:
		if val, ok := in.(ssa.Value); ok {
			e.warn[fmt.Sprintf("havoced %T in %s", in, fr.fn.Name())] = true
			fr.vals[val] = e.havocVal("unk", val.Type(), st, pc)
			return pc, true
		}
		e.fail("instruction %T", in)
	}
	return pc, true
}

func (e *Enc) zeroInit(st State, ref string, el types.Type) {
	switch u := el.Underlying().(type) {
	case *types.Struct:
		if isExternStruct(e.P, el) {
			for _, g := range ghostsOf(el) {
				so := "(Array Int " + g.sort + ")"
				e.setComp(st, g.key, so, sto(e.comp(st, g.key, so), ref, g.zero))
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			k, s := fieldComp(e.P, el, i)
			e.setComp(st, k, s, sto(e.comp(st, k, s), ref, e.zero(u.Field(i).Type())))
		}
	case *types.Array:
		k, s := elemComp(e.P, u.Elem())
		e.setComp(st, k, s, sto(e.comp(st, k, s), ref, e.zero(el)))
	default:
		k, s := cellComp(e.P, el)
		e.setComp(st, k, s, sto(e.comp(st, k, s), ref, e.zero(el)))
	}
}

// package-level variables that are never written outside init and hold simple values are left symbolic
func (e *Enc) globalVal(g *ssa.Global) (Val, bool) { return Val{}, false }

// closures stored into local cells (recursive closures, captured function variables)
func (e *Enc) noteCellClosure(fr *Frame, addr ssa.Value, v Val) {
	if a, ok := addr.(*ssa.Alloc); ok {
		// unique store?
		n := 0
		for _, rf := range *a.Referrers() {
			if s, ok := rf.(*ssa.Store); ok && s.Addr == a {
				n++
			}
		}
		if n == 1 {
			x := fr.vals[a]
			x.Fn, x.Bind = v.Fn, v.Bind
			fr.vals[a] = x
		}
	}
}
func (e *Enc) cellClosure(fr *Frame, addr ssa.Value) (Val, bool) {
	if a, ok := fr.vals[addr]; ok && a.Fn != nil {
		return a, true
	}
	return Val{}, false
}

func (e *Enc) box(x Val, t types.Type, pc string) string {
	if types.IsInterface(t) {
		return x.S
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		s := e.term(x)
		if e.C.Opts["nosafety"] || e.C.Opts["typednil"] {
			// a nil pointer in an interface: some value, nothing known about it
			if !e.boxNonNil {
				r := e.freshConst("boxed", "Int")
				e.assume(fmt.Sprintf("(=> (not (= %s 0)) (= %s %s))", s, r, s))
				return r
			}
			return s
		}
		e.safety("typed-nil", pc, "(not (= "+s+" 0))", "no typed nil pointer stored in an interface")
		return s
	case *types.Map, *types.Chan:
	}
	if x.S == "" && x.Fn != nil {
		return e.freshConst("fnbox", "Int")
	}
	so := sortOf(e.P, t)
	n := e.boxFn(t, so)
	return app(n, x.S)
}

func (e *Enc) boxFn(t types.Type, so string) string {
	n := q("box:" + typeName(t))
	if !e.declSet[n] {
		e.declSet[n] = true
		un := q("unbox:" + typeName(t))
		e.decls = append(e.decls, fmt.Sprintf("(declare-fun %s (%s) Int)", n, so), fmt.Sprintf("(declare-fun %s (Int) %s)", un, so),
			fmt.Sprintf("(assert (forall ((x %s)) (! (and (= (%s (%s x)) x) (< (%s x) 0) (= (typeof (%s x)) %d)) :pattern ((%s x)))))", so, un, n, n, n, e.P.tag(t), n))
	}
	return n
}

func (e *Enc) typeAssert(x string, t types.Type, st State, pc string) (ok, res string) {
	if it, isI := t.Underlying().(*types.Interface); isI {
		if it.NumMethods() == 0 {
			return "(not (= " + x + " 0))", x
		}
		var alts []string
		for _, im := range e.P.implementers(it) {
			alts = append(alts, fmt.Sprintf("(= (typeof %s) %d)", x, e.P.tag(im)))
		}
		return and("(not (= "+x+" 0))", or(alts...)), x
	}
	okf := and("(not (= "+x+" 0))", fmt.Sprintf("(= (typeof %s) %d)", x, e.P.tag(t)))
	if _, isP := t.Underlying().(*types.Pointer); isP {
		return okf, x
	}
	so := sortOf(e.P, t)
	e.boxFn(t, so)
	un := q("unbox:" + typeName(t))
	return okf, app(un, x)
}

func (e *Enc) wrap(t types.Type, x, pc string) string {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	n := e.def("ar", "Int", x)
	return e.def("w", "Int", fmt.Sprintf("(ite (and (<= %s %s) (<= %s %s)) %s (wrapint %s %s %s))", lo, n, n, hi, n, lo, hi, n))
}

func (e *Enc) binop(op token.Token, x, y Val, xt, rt types.Type, pc string) string {
	a, b := "", ""
	_, isNilX := xt.(*types.Basic)
	_ = isNilX
	a, b = e.term(x), e.term(y)
	switch op {
	case token.EQL, token.NEQ:
		t := xt.Underlying()
		s := "(= " + a + " " + b + ")"
		if sl, ok := t.(*types.Slice); ok {
			_ = sl
			// comparison with nil only
			z := a
			if a == "(mkslice 0 0 0 0)" {
				z = b
			}
			s = "(= (s_arr " + z + ") 0)"
		}
		if sortOf(e.P, xt) == "F64" {
			s = app("f64_eq", a, b)
		}
		if op == token.NEQ {
			return not(s)
		}
		return s
	}
	so := sortOf(e.P, xt)
	switch so {
	case "Str":
		switch op {
		case token.ADD:
			if x, ok := e.litText(a); ok {
				if y, ok := e.litText(b); ok {
					return e.strLit(x + y)
				}
			}
			return e.def("cat", "Str", app("scat", a, b))
		case token.LSS:
			return app("slt", a, b)
		case token.GTR:
			return app("slt", b, a)
		case token.LEQ:
			return not(app("slt", b, a))
		case token.GEQ:
			return not(app("slt", a, b))
		}
	case "F64":
		m := map[token.Token]string{token.ADD: "f64_add", token.SUB: "f64_sub", token.MUL: "f64_mul", token.QUO: "f64_div", token.LSS: "f64_lt", token.LEQ: "f64_le"}
		if f, ok := m[op]; ok {
			if op == token.LSS || op == token.LEQ {
				return app(f, a, b)
			}
			return e.f32(rt, app(f, a, b))
		}
		if op == token.GTR {
			return app("f64_lt", b, a)
		}
		if op == token.GEQ {
			return app("f64_le", b, a)
		}
	case "Bool":
		switch op {
		case token.AND, token.LAND:
			return and(a, b)
		case token.OR, token.LOR:
			return or(a, b)
		}
	case "Int":
		switch op {
		case token.ADD:
			return e.wrap(rt, "(+ "+a+" "+b+")", pc)
		case token.SUB:
			return e.wrap(rt, "(- "+a+" "+b+")", pc)
		case token.MUL:
			return e.wrap(rt, "(* "+a+" "+b+")", pc)
		case token.LSS:
			return "(< " + a + " " + b + ")"
		case token.LEQ:
			return "(<= " + a + " " + b + ")"
		case token.GTR:
			return "(> " + a + " " + b + ")"
		case token.GEQ:
			return "(>= " + a + " " + b + ")"
		case token.QUO:
			e.safety("div-zero", pc, "(not (= "+b+" 0))", "division by zero")
			return e.wrap(rt, app("tdiv", a, b), pc)
		case token.REM:
			e.safety("div-zero", pc, "(not (= "+b+" 0))", "division by zero")
			return e.def("rem", "Int", app("trem", a, b))
		}
		n := e.def("bit", "Int", app("bitop", e.strLit("op"+op.String()), a, b))
		lo, hi, _ := intRange(rt)
		e.assume(fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lo, n, n, hi))
		return n
	}
	e.fail("binop %v on %v", op, xt)
	return ""
}

func isF32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

// float32 arithmetic is double arithmetic rounded once more (innocuous double rounding)
func (e *Enc) f32(t types.Type, s string) string {
	if isF32(t) {
		return app("f32_round", s)
	}
	return s
}

func (e *Enc) convert(x Val, from, to types.Type, st State, pc string) string {
	fs, ts := sortOf(e.P, from), sortOf(e.P, to)
	if fs == "Int" && ts == "Int" {
		lo, hi, ok := intRange(to)
		flo, fhi, ok2 := intRange(from)
		if ok && ok2 && (lo != flo || hi != fhi) {
			return e.def("cv", "Int", fmt.Sprintf("(ite (and (<= %s %s) (<= %s %s)) %s (wrapint %s %s %s))", lo, x.S, x.S, hi, x.S, lo, hi, x.S))
		}
		return x.S
	}
	if fs == "Int" && ts == "F64" {
		return e.f32(to, app("f64_of_int", x.S))
	}
	if fs == "F64" && ts == "F64" {
		if isF32(from) {
			return x.S
		}
		return e.f32(to, x.S)
	}
	if fs == "F64" && ts == "Int" {
		fn := "int_of_f64"
		if lo, _, ok := intRange(to); ok && lo == "0" {
			fn = "uint_of_f64"
		}
		n := e.def("f2i", "Int", app(fn, x.S))
		e.assume(imp(pc, e.typeFact(n, to, st)))
		return n
	}
	if fs == "Str" && ts == "Slice" {
		// []byte(s)
		el := to.Underlying().(*types.Slice).Elem()
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			ref := e.newRef(st, "bytes", nil)
			k, s := elemComp(e.P, el)
			e.setComp(st, k, s, sto(e.comp(st, k, s), ref, app("str_bytes", x.S)))
			return e.def("sl", "Slice", fmt.Sprintf("(mkslice %s 0 (slen %s) (slen %s))", ref, x.S, x.S))
		}
	}
	if fs == "Slice" && ts == "Str" {
		el := from.Underlying().(*types.Slice).Elem()
		k, s := elemComp(e.P, el)
		return e.def("str", "Str", app("bytes_str", sel(e.comp(st, k, s), "(s_arr "+x.S+")"), "(s_off "+x.S+")", "(s_len "+x.S+")"))
	}
	if fs == "Int" && ts == "Str" {
		return app("rune_str", x.S)
	}
	v := e.havocVal("conv", to, st, pc)
	e.warn["havoced conversion"] = true
	return v.S
}

func (e *Enc) mapLookup(st State, mt types.Type, m, k string) (ok, val string) {
	d, v, _ := mapComps(e.P, mt)
	dom := e.comp(st, d[0], d[1])
	vals := e.comp(st, v[0], v[1])
	return and("(not (= "+m+" 0))", sel(sel(dom, m), k)), sel(sel(vals, m), k)
}

func (e *Enc) mapStore(st State, mt types.Type, m, k, v string) {
	d, vv, l := mapComps(e.P, mt)
	dom, vals, ln := e.comp(st, d[0], d[1]), e.comp(st, vv[0], vv[1]), e.comp(st, l[0], l[1])
	for _, c := range []string{d[0], vv[0], l[0]} {
		e.stores = append(e.stores, storeRec{c, m})
	}
	e.setComp(st, l[0], l[1], sto(ln, m, ite(sel(sel(dom, m), k), sel(ln, m), "(+ 1 "+sel(ln, m)+")")))
	e.setComp(st, d[0], d[1], sto(dom, m, sto(sel(dom, m), k, "true")))
	e.setComp(st, vv[0], vv[1], sto(vals, m, sto(sel(vals, m), k, v)))
}

func (r *region) slice(v *ssa.Slice, pc string, st State) {
	e, fr := r.e, r.fr
	x := e.val(fr, v.X, st)
	if x.Virt != nil {
		fr.vals[v] = Val{T: v.Type(), S: "(mkslice 0 0 0 0)", Virt: x.Virt}
		return
	}
	lo, hi := "0", ""
	if v.Low != nil {
		lo = e.term(e.val(fr, v.Low, st))
	}
	if v.High != nil {
		hi = e.term(e.val(fr, v.High, st))
	}
	switch t := v.X.Type().Underlying().(type) {
	case *types.Basic:
		if hi == "" {
			hi = "(slen " + x.S + ")"
		}
		e.safety("slice", pc, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (slen %s)))", lo, lo, hi, hi, x.S), "string slice bounds")
		fr.vals[v] = Val{T: v.Type(), S: e.def("sub", "Str", app("ssub", x.S, lo, hi))}
	case *types.Slice:
		if hi == "" {
			hi = "(s_len " + x.S + ")"
		}
		cp := "(s_cap " + x.S + ")"
		if v.Max != nil {
			cp = e.term(e.val(fr, v.Max, st))
		}
		e.safety("slice", pc, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s (s_cap %s)))", lo, lo, hi, hi, cp, cp, x.S), "slice bounds")
		fr.vals[v] = Val{T: v.Type(), S: e.def("sl", "Slice", fmt.Sprintf("(mkslice (s_arr %s) (+ (s_off %s) %s) (- %s %s) (- %s %s))", x.S, x.S, lo, hi, lo, cp, lo))}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		n := fmt.Sprint(at.Len())
		if hi == "" {
			hi = n
		}
		e.safety("slice", pc, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, n), "array slice bounds")
		hl := hi
		if lo != "0" {
			hl = "(- " + hi + " " + lo + ")"
		}
		c := n
		if lo != "0" {
			c = "(- " + n + " " + lo + ")"
		}
		fr.vals[v] = Val{T: v.Type(), S: e.def("sl", "Slice", fmt.Sprintf("(mkslice %s %s %s %s)", e.term(x), lo, hl, c))}
	default:
		e.fail("slice of %v", v.X.Type())
	}
}

// ---------- calls ----------

func (r *region) call(v *ssa.Call, cc *ssa.CallCommon, pc string, st State) (string, bool) {
	e, fr := r.e, r.fr
	bind := func(vals []Val) {
		switch len(vals) {
		case 0:
			fr.vals[v] = Val{T: v.Type()}
		case 1:
			x := vals[0]
			x.T = v.Type()
			fr.vals[v] = x
		default:
			fr.vals[v] = Val{T: v.Type(), Tup: vals}
		}
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.val(fr, a, st))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return r.builtin(v, b, cc, args, pc, st)
	}
	if cc.IsInvoke() {
		recv := e.val(fr, cc.Value, st)
		vals, pc2 := e.invoke(fr, cc, recv, args, pc, st)
		bind(vals)
		return pc2, pc2 != "false"
	}
	var callee *ssa.Function
	var binds []Val
	if g := cc.StaticCallee(); g != nil {
		callee = g
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			binds = fr.vals[mc].Bind
		}
	} else {
		fv := e.val(fr, cc.Value, st)
		if fv.Fn != nil {
			callee, binds = fv.Fn, fv.Bind
		}
	}
	if callee == nil {
		// unknown function value
		vals := e.unknownCall(fr, cc, args, pc, st)
		bind(vals)
		return pc, true
	}
	if isAtomicAccess(callee) {
		// an atomic access is an ordinary one: the verifier sees one thread
		e.assumed["sync/atomic "+callee.Name()+" read as an ordinary memory access (one thread)"] = true
		x := args[0]
		if x.Addr == nil {
			e.safety("nil-atomic", pc, "(not (= "+x.S+" 0))", "nil pointer passed to "+callee.Name())
		}
		a := e.addrOf(fr, x)
		if strings.HasPrefix(callee.Name(), "Load") {
			bind([]Val{e.load(st, a, pc)})
		} else {
			e.store(st, a, args[1].S)
			bind(nil)
		}
		return pc, true
	}
	vals, pc2 := e.callFn(fr, callee, args, binds, pc, st, cc.Signature())
	bind(vals)
	return pc2, pc2 != "false"
}

func isAtomicAccess(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() != nil || f.Object() == nil || f.Object().Pkg() == nil || f.Object().Pkg().Path() != "sync/atomic" {
		return false
	}
	switch f.Name() {
	case "LoadUint64", "LoadInt64", "LoadUint32", "LoadInt32", "StoreUint64", "StoreInt64", "StoreUint32", "StoreInt32":
		return true
	}
	return false
}

func (e *Enc) unknownCall(fr *Frame, cc *ssa.CallCommon, args []Val, pc string, st State) []Val {
	e.warn["call of an unknown function value havocs the whole heap"] = true
	e.havocAll(st, pc)
	return e.havocResults(cc.Signature(), st, pc, "unk")
}

func (e *Enc) havocResults(sig *types.Signature, st State, pc, hint string) []Val {
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, e.havocVal(hint, sig.Results().At(i).Type(), st, pc))
	}
	return vals
}

func (e *Enc) havocAll(st State, pc string) {
	a0 := e.alloc(st)
	var ks []string
	for k := range e.comps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "IT:") {
			continue
		}
		st[k] = e.freshConst("hv", e.comps[k])
	}
	st["alloc"] = e.freshConst("alloc", "Int")
	e.assume(imp(pc, "(<= "+a0+" "+st["alloc"]+")"))
	e.useAll = true
}

func sharesProp(a, b *Contract) bool {
	for _, p := range a.Props {
		if has(b.Props, p) {
			return true
		}
	}
	return false
}

// ifaceContractOf finds the contract of an interface method that f implements.
func (P *Prog) ifaceContractOf(f *ssa.Function) *Contract {
	rv := f.Signature.Recv()
	if rv == nil {
		return nil
	}
	for _, c := range P.db.Order {
		if !c.Iface || c.Extern {
			continue
		}
		in, m, _ := strings.Cut(c.Key, ".")
		if m != f.Name() || P.tpkgs[c.Pkg] == nil {
			continue
		}
		o := P.tpkgs[c.Pkg].Scope().Lookup(in)
		if o == nil {
			continue
		}
		if it := ifaceOf(o.Type()); it != nil && types.Implements(rv.Type(), it) {
			return c
		}
	}
	return nil
}

func fnFull(f *ssa.Function) string {
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	return shortPkg(p) + "." + fnKey(f)
}

func (e *Enc) callFn(fr *Frame, f *ssa.Function, args, binds []Val, pc string, st State, sig *types.Signature) ([]Val, string) {
	full := fnFull(f)
	c := e.P.contractFor(f)
	onStack := false
	for _, g := range e.stack {
		onStack = onStack || g == f
	}
	if c != nil && c.Opts["impl"] || c == nil && onStack || c != nil && !c.Extern && !sharesProp(c, e.C) {
		// the contract of an interface method this function implements
		if ic := e.P.ifaceContractOf(f); ic != nil && (c == nil || c.Opts["impl"] || sharesProp(ic, e.C)) {
			c = ic
		} else if c != nil && c.Opts["impl"] {
			c = nil
		}
	}
	if c != nil && !(c.Opts["inline"]) && !e.C.Opts["inline:"+c.Key] {
		e.calls[full] = true
		var names []string
		if len(c.Params) > 0 {
			for _, p := range c.Params {
				names = append(names, p.Name)
			}
		} else if f.Params != nil && len(f.Blocks) > 0 {
			for _, p := range f.Params {
				names = append(names, p.Name())
			}
		} else {
			if rv := f.Signature.Recv(); rv != nil {
				names = append(names, rv.Name())
			}
			for i := 0; i < f.Signature.Params().Len(); i++ {
				names = append(names, f.Signature.Params().At(i).Name())
			}
		}
		var w *writeSet
		if len(f.Blocks) > 0 && !c.Extern {
			w = e.P.writes(f)
		}
		return e.applyContract(c, full, names, args, f.Signature, pc, st, w)
	}
	rec := false
	for _, g := range e.stack {
		if g == f {
			rec = true
		}
	}
	if len(f.Blocks) > 0 && !rec && len(e.stack) < 12 {
		e.inlined[full] = true
		npc, nst, vals, ok := e.inline(fr, f, args, binds, pc, st)
		if !ok {
			return nil, "false"
		}
		for k := range st {
			delete(st, k)
		}
		for k, v := range nst {
			st[k] = v
		}
		return vals, npc
	}
	if len(f.Blocks) > 0 && rec {
		e.fail("recursive call of %s without a contract", full)
	}
	if f.Name() == "init" {
		return nil, pc
	}
	if isNoReturn(full) {
		if !e.C.Opts["maypanic"] {
			e.oblige("no-exit("+full+")", "safety", pc, "false", full+" is unreachable")
		}
		return nil, "false"
	}
	if externHavocs(f) {
		e.warn["external "+full+" may call back: whole heap havoced"] = true
		e.havocAll(st, pc)
	} else {
		e.assumed["external function without contract, assumed not to touch expreduce data: "+full] = true
	}
	return e.havocResults(f.Signature, st, pc, "x_"+f.Name()), pc
}

func isNoReturn(n string) bool {
	switch n {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf":
		return true
	}
	return false
}

func (e *Enc) invoke(fr *Frame, cc *ssa.CallCommon, recv Val, args []Val, pc string, st State) ([]Val, string) {
	mname := cc.Method.Name()
	if c := e.P.ifaceContract(cc); c != nil {
		e.safety("nil-recv("+mname+")", pc, "(not (= "+recv.S+" 0))", "method call on nil interface")
		var names []string
		for _, p := range c.Params {
			names = append(names, p.Name)
		}
		if len(names) == 0 {
			names = []string{"this"}
			for i := 0; i < cc.Signature().Params().Len(); i++ {
				names = append(names, cc.Signature().Params().At(i).Name())
			}
		}
		var w *writeSet
		if !c.Extern {
			w = &writeSet{comps: map[string]string{}}
			it := cc.Value.Type().Underlying().(*types.Interface)
			for _, t := range e.P.implementers(it) {
				if m := e.P.method(t, cc.Method); m != nil {
					e.P.collectWrites(m, w, map[*ssa.Function]bool{})
				}
			}
		}
		e.calls["iface "+typeName(cc.Value.Type())+"."+mname] = true
		return e.applyContract(c, typeName(cc.Value.Type())+"."+mname, names, append([]Val{recv}, args...), cc.Signature(), pc, st, w)
	}
	it, _ := cc.Value.Type().Underlying().(*types.Interface)
	impl := e.P.implementers(it)
	nm, isNamed := cc.Value.Type().(*types.Named)
	if isNamed && (nm.Obj().Pkg() == nil || !e.P.isRepo(nm.Obj().Pkg())) {
		impl = nil
	}
	if len(impl) == 0 || len(impl) > 8 {
		e.assumed["interface method without contract, assumed effect-free: "+typeName(cc.Value.Type())+"."+mname] = true
		return e.havocResults(cc.Signature(), st, pc, "inv_"+mname), pc
	}
	e.safety("nil-recv("+mname+")", pc, "(not (= "+recv.S+" 0))", "method call on nil interface")
	var in []edge
	var vss [][]Val
	for _, t := range impl {
		m := e.P.method(t, cc.Method)
		if m == nil {
			e.fail("no method %s on %v", mname, t)
		}
		bpc := pc
		if len(impl) > 1 {
			bpc = e.def("dpc", "Bool", and(pc, fmt.Sprintf("(= (typeof %s) %d)", recv.S, e.P.tag(t))))
		}
		bst := st.copy()
		var rv Val
		if _, isP := t.Underlying().(*types.Pointer); isP {
			rv = Val{T: t, S: recv.S}
			e.assume(imp(bpc, fmt.Sprintf("(= (typeof %s) %d)", recv.S, e.P.tag(t))))
		} else {
			e.boxFn(t, sortOf(e.P, t))
			rv = Val{T: t, S: app(q("unbox:"+typeName(t)), recv.S)}
		}
		vals, npc := e.callFn(fr, m, append([]Val{rv}, args...), nil, bpc, bst, cc.Signature())
		if npc == "false" {
			continue
		}
		in = append(in, edge{nil, npc, bst})
		vss = append(vss, vals)
	}
	if len(in) == 0 {
		return nil, "false"
	}
	npc, nst := e.mergeEdges(in)
	for k := range st {
		delete(st, k)
	}
	for k, v := range nst {
		st[k] = v
	}
	var pcs []string
	for _, x := range in {
		pcs = append(pcs, x.pc)
	}
	var out []Val
	for i := 0; i < cc.Signature().Results().Len(); i++ {
		var vs []Val
		for _, v := range vss {
			vs = append(vs, v[i])
		}
		out = append(out, e.mergeVals(pcs, vs, cc.Signature().Results().At(i).Type()))
	}
	return out, npc
}

// applyContract checks the precondition, havocs per modifies, assumes the postcondition.
func (e *Enc) applyContract(c *Contract, full string, names []string, args []Val, sig *types.Signature, pc string, st State, w *writeSet) ([]Val, string) {
	env := &Env{e: e, st: st, old: st, vars: map[string]Val{}, pkg: c.Pkg, defLine: len(e.lines)}
	type lent struct {
		addr *Addr
		tmp  string
		old  map[string]string
		keys []string
	}
	var lents []lent
	for i, n := range names {
		if i < len(args) {
			a := args[i]
			if a.Addr != nil {
				if _, isS := a.Addr.T.Underlying().(*types.Struct); isS && (a.Addr.kind == "field" || a.Addr.kind == "global") && !isExternStruct(e.P, a.Addr.T) {
					// a struct inside another object: lent to the callee as an object of its own
					key := a.Addr.comp
					for _, p := range a.Addr.path {
						key += fmt.Sprint(".", p.i)
					}
					ref := a.Addr.ref
					if a.Addr.kind == "global" {
						ref = "1"
					}
					l := lent{addr: a.Addr, tmp: e.def("lent", "Int", app("interior", e.strLit(key), ref)), old: map[string]string{}}
					cur := e.load(st, a.Addr, pc)
					u := a.Addr.T.Underlying().(*types.Struct)
					for j := 0; j < u.NumFields(); j++ {
						k, s := fieldComp(e.P, a.Addr.T, j)
						c0 := e.comp(st, k, s)
						l.keys = append(l.keys, k)
						l.old[k] = sel(c0, l.tmp)
						st[k] = e.def("hl", s, sto(c0, l.tmp, app(structSel(a.Addr.T, j), cur.S)))
					}
					lents = append(lents, l)
					a = Val{T: a.T, S: l.tmp}
				} else if a.Addr.kind == "struct" || (len(a.Addr.path) == 0 && (a.Addr.kind == "cell" || a.Addr.kind == "array")) {
					a = Val{T: a.T, S: a.Addr.ref}
				}
			}
			env.vars[n] = a
		}
	}
	pre := st.copy()
	env.st, env.old = pre, pre
	for _, g := range c.GParams {
		te := e.topEnv(pre)
		if x, ok := e.C.GCalls[c.Key+"\x00"+g.Name]; ok {
			v := e.eval(x, te)
			v.S = e.term(v)
			env.vars[g.Name] = v
		} else if e.isSelf(c) {
			env.vars[g.Name] = te.vars[g.Name]
		} else {
			e.fail("call of %s: no value for ghost parameter %s", full, g.Name)
		}
	}
	for i, q := range c.Req {
		if e.C.Opts["assume:"+c.Key] {
			e.assumed["preconditions of "+full+" where "+e.name+" calls it"] = true
			continue
		}
		e.oblige(fmt.Sprintf("call(%s)/requires%s", full, label(q, i)), "requires", pc, e.formula(q, env), q.Src)
		e.assume(imp(pc, e.formula(q, env)))
	}
	if c.Extern {
		e.assumed["assumed contract: "+full] = true
	}
	if e.isSelf(c) && c.Dec != nil {
		// recursion measure
		d0 := e.term(e.eval(c.Dec.E, e.topEnv(e.entry)))
		d1 := e.term(e.eval(c.Dec.E, env))
		e.oblige("recursion-decreases", "termination", pc, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", d1, d1, d0), c.Dec.Src)
	}
	if !c.Pure {
		mods := map[string][]modEnt{}
		if !c.ModAll {
			mods = e.modifies(c, env)
		}
		keys := map[string]string{}
		for k, ms := range mods {
			keys[k] = ms[0].sort
		}
		all := c.ModAll
		if w != nil {
			if w.all {
				for k, s := range e.comps {
					keys[k] = s
				}
				e.useAll = true
			}
			for k, s := range w.comps {
				keys[k] = s
			}
		} else {
			cw := &writeSet{comps: map[string]string{}}
			e.P.contractWrites(cw, c)
			for k, s := range cw.comps {
				keys[k] = s
			}
			if c.Opts["allocs-all"] || cw.all {
				for k, s := range e.comps {
					keys[k] = s
				}
				e.useAll = true
			}
		}
		a0 := e.alloc(pre)
		if all {
			e.havocAll(st, pc)
		} else {
			var ks []string
			for k := range keys {
				if !strings.HasPrefix(k, "IT:") {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			st["alloc"] = e.freshConst("alloc", "Int")
			e.assume(imp(pc, "(<= "+a0+" "+st["alloc"]+")"))
			for _, k := range ks {
				so := keys[k]
				if so == "" {
					so = e.comps[k]
				}
				if so == "" {
					continue
				}
				before := e.comp(pre, k, so)
				whole := false
				for _, m := range mods[k] {
					if m.ref == "" {
						whole = true
					} else {
						e.stores = append(e.stores, storeRec{k, m.ref})
					}
				}
				if strings.HasPrefix(k, "G:") && len(mods[k]) == 0 {
					continue
				}
				after := e.freshConst("hc", so)
				st[k] = after
				if whole {
					continue
				}
				// single-reference update without allocation: a plain store
				if c.Opts["noalloc"] && len(mods[k]) == 1 && mods[k][0].cond == "" {
					es := strings.TrimSuffix(strings.TrimPrefix(so, "(Array Int "), ")")
					nv := e.freshConst("hcv", es)
					st[k] = e.def("hs", so, sto(before, mods[k][0].ref, nv))
					continue
				}
				e.assume(e.frameFormula(k, so, before, after, a0, mods[k]))
			}
			if c.Opts["noalloc"] {
				st["alloc"] = a0
			}
		}
	}
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		vals = append(vals, e.havocVal("r_"+sanitize(c.Key), t, st, pc))
	}
	e.bindResults(env, c, sig, vals)
	env.st = st.copy()
	for _, q := range c.Ens {
		e.assume(imp(pc, e.formula(q, env)))
	}
	for i := range lents {
		l := lents[len(lents)-1-i]
		u := l.addr.T.Underlying().(*types.Struct)
		var fs []string
		same := true
		for j := 0; j < u.NumFields(); j++ {
			k, s := fieldComp(e.P, l.addr.T, j)
			c0 := e.comp(st, k, s)
			fs = append(fs, sel(c0, l.tmp))
			if c0 != pre[k] {
				same = false
			}
		}
		if !same {
			e.store(st, l.addr, e.def("lback", sortOf(e.P, l.addr.T), app(structMk(l.addr.T), fs...)))
		}
		for j := 0; j < u.NumFields(); j++ {
			k, s := fieldComp(e.P, l.addr.T, j)
			st[k] = e.def("hl", s, sto(e.comp(st, k, s), l.tmp, l.old[k]))
		}
	}
	return vals, pc
}

func (e *Enc) bindResults(env *Env, c *Contract, sig *types.Signature, vals []Val) {
	for i, v := range vals {
		v.T = sig.Results().At(i).Type()
		env.vars[fmt.Sprintf("result%d", i)] = v
		if i == 0 {
			env.vars["result"] = v
		}
		if n := sig.Results().At(i).Name(); n != "" && n != "_" && len(c.Results) == 0 {
			if _, clash := env.vars[n]; !clash {
				env.vars[n] = v
			}
		}
		if i < len(c.Results) {
			env.vars[c.Results[i].Name] = v
		}
	}
}

// modifies evaluates the modifies clauses to component/reference sets.
func (e *Enc) modifies(c *Contract, env *Env) map[string][]modEnt {
	out := map[string][]modEnt{}
	add := func(k, s, ref, cond string) { out[k] = append(out[k], modEnt{k, s, ref, cond}) }
	var one func(x Expr, cond string)
	one = func(x Expr, cond string) {
		switch v := x.(type) {
		case ECall:
			switch v.Fn {
			case "when":
				one(v.Args[1], and(cond, e.eval(v.Args[0], env).S))
				return
			case "elems":
				s := e.eval(v.Args[0], env)
				k, so := elemComp(e.P, s.T.Underlying().(*types.Slice).Elem())
				add(k, so, "(s_arr "+s.S+")", cond)
				return
			case "map":
				m := e.eval(v.Args[0], env)
				d, vv, l := mapComps(e.P, m.T)
				add(d[0], d[1], m.S, cond)
				add(vv[0], vv[1], m.S, cond)
				add(l[0], l[1], m.S, cond)
				return
			case "any":
				k := v.Args[0].(EStr).V
				so := knownSorts[k]
				if s, ok := e.comps[k]; ok {
					so = s
				}
				if so == "" {
					so = e.P.sortOfComp(k)
				}
				add(k, so, "", "true")
				return
			case "global":
				k := "G:" + v.Args[0].(EStr).V
				add(k, e.comps[k], "", "true")
				return
			case "all":
				// every field of the object
				o := e.eval(v.Args[0], env)
				el := o.T.Underlying().(*types.Pointer).Elem()
				u := el.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					k, so := fieldComp(e.P, el, i)
					add(k, so, o.S, cond)
				}
				return
			}
		case ESel:
			b := e.eval(v.X, env)
			if strings.HasPrefix(v.Name, "$") {
				g := e.ghostFor(b.T, v.Name)
				add(g.key, "(Array Int "+g.sort+")", b.S, cond)
				return
			}
			el := b.T
			if p, ok := b.T.Underlying().(*types.Pointer); ok {
				el = p.Elem()
			}
			u := el.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == v.Name {
					k, so := fieldComp(e.P, el, i)
					add(k, so, b.S, cond)
					return
				}
			}
		case EUn:
		}
		e.fail("cannot interpret modifies clause in %s: %#v", c.Key, x)
	}
	for _, m := range c.Mod {
		one(m.E, "true")
	}
	for k, ms := range out {
		for i := range ms {
			if ms[i].cond == "true" {
				ms[i].cond = ""
			}
		}
		out[k] = ms
	}
	return out
}

func (P *Prog) sortOfComp(k string) string {
	if strings.HasPrefix(k, "E:") {
		if k == "E:float64" {
			return "(Array Int (Array Int F64))"
		}
		if t := P.namedType(k[2:]); t != nil {
			_, s := elemComp(P, t)
			return s
		}
	}
	// F:pkg.T.f
	if strings.HasPrefix(k, "F:") {
		for _, n := range P.named {
			pre := "F:" + typeName(n) + "."
			if strings.HasPrefix(k, pre) {
				if u, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < u.NumFields(); i++ {
						if u.Field(i).Name() == k[len(pre):] {
							_, s := fieldComp(P, n, i)
							return s
						}
					}
				}
			}
		}
	}
	return ""
}

func (e *Enc) ghostFor(t types.Type, name string) ghost {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := types.TypeString(t, nil)
	for _, g := range allGhosts {
		if g.typ == n && g.name == name {
			return g
		}
	}
	e.fail("no ghost field %s on %s", name, n)
	return ghost{}
}

func (r *region) builtin(v *ssa.Call, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pc string, st State) (string, bool) {
	e, fr := r.e, r.fr
	set := func(s string) { fr.vals[v] = Val{T: v.Type(), S: s} }
	switch b.Name() {
	case "len":
		x := args[0]
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			set("(s_len " + x.S + ")")
		case *types.Basic:
			set("(slen " + x.S + ")")
		case *types.Map:
			d, _, l := mapComps(e.P, cc.Args[0].Type())
			n := e.def("mlen", "Int", ite("(= "+x.S+" 0)", "0", sel(e.comp(st, l[0], l[1]), x.S)))
			e.assume(imp(pc, "(<= 0 "+n+")"))
			// a map has a key exactly when its length is not zero
			dom := "(select " + e.comp(st, d[0], d[1]) + " " + x.S + ")"
			ks := strings.Fields(strings.TrimPrefix(d[1], "(Array Int (Array "))[0]
			e.assume(imp(and(pc, "(not (= "+x.S+" 0))"), fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (< 0 %s)) :pattern ((select %s k))))", ks, dom, n, dom)))
			w := e.freshConst("mkey", ks)
			e.assume(imp(and(pc, "(< 0 "+n+")"), "(select "+dom+" "+w+")"))
			set(n)
		case *types.Array:
			set(fmt.Sprint(t.Len()))
		default:
			e.fail("len of %v", t)
		}
	case "cap":
		set("(s_cap " + args[0].S + ")")
	case "append":
		set(e.appendOp(cc, args, pc, st))
	case "copy":
		dt, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok || sortOf(e.P, cc.Args[1].Type()) != "Slice" {
			e.fail("copy")
		}
		k, so := elemComp(e.P, dt.Elem())
		es := "(Array Int " + sortOf(e.P, dt.Elem()) + ")"
		d, s := args[0].S, args[1].S
		n := e.def("cpn", "Int", fmt.Sprintf("(ite (< (s_len %s) (s_len %s)) (s_len %s) (s_len %s))", d, s, d, s))
		old := e.comp(st, k, so)
		na := e.freshConst("cp", es)
		e.assume(imp(pc, fmt.Sprintf("(forall ((j Int)) (! (= (select %s j) (ite (and (<= (s_off %s) j) (< j (+ (s_off %s) %s))) (select (select %s (s_arr %s)) (+ (s_off %s) (- j (s_off %s)))) (select (select %s (s_arr %s)) j))) :pattern ((select %s j))))",
			na, d, d, n, old, s, s, d, old, d, na)))
		e.stores = append(e.stores, storeRec{k, "(s_arr " + d + ")"})
		e.setComp(st, k, so, sto(old, "(s_arr "+d+")", na))
		set(n)
	case "delete":
		mt := cc.Args[0].Type()
		d, _, l := mapComps(e.P, mt)
		m, key := args[0].S, e.term(args[1])
		dom, ln := e.comp(st, d[0], d[1]), e.comp(st, l[0], l[1])
		e.stores = append(e.stores, storeRec{d[0], m}, storeRec{l[0], m})
		e.setComp(st, l[0], l[1], sto(ln, m, ite(sel(sel(dom, m), key), "(- "+sel(ln, m)+" 1)", sel(ln, m))))
		e.setComp(st, d[0], d[1], sto(dom, m, sto(sel(dom, m), key, "false")))
		fr.vals[v] = Val{T: v.Type()}
	case "print", "println":
		fr.vals[v] = Val{T: v.Type()}
	case "min", "max":
		op := "<"
		if b.Name() == "max" {
			op = ">"
		}
		t := args[0].S
		for _, a := range args[1:] {
			t = fmt.Sprintf("(ite (%s %s %s) %s %s)", op, t, a.S, t, a.S)
		}
		set(e.def("mm", "Int", t))
	case "ssa:wrapnilchk":
		fr.vals[v] = args[0]
	default:
		e.fail("builtin %s", b.Name())
	}
	return pc, true
}

func (e *Enc) appendOp(cc *ssa.CallCommon, args []Val, pc string, st State) string {
	s := args[0].S
	t := cc.Args[0].Type().Underlying().(*types.Slice)
	k, so := elemComp(e.P, t.Elem())
	es := "(Array Int " + sortOf(e.P, t.Elem()) + ")"
	old := e.comp(st, k, so)
	var n string
	var src func(j string) string
	var virt []string
	if sortOf(e.P, cc.Args[1].Type()) == "Str" {
		x := args[1].S
		n = "(slen " + x + ")"
		src = func(j string) string { return app("sat", x, j) }
	} else if args[1].Virt != nil {
		for _, v := range *args[1].Virt {
			virt = append(virt, e.term(v))
		}
		n = fmt.Sprint(len(virt))
		src = func(j string) string {
			t := virt[len(virt)-1]
			for i := len(virt) - 2; i >= 0; i-- {
				t = fmt.Sprintf("(ite (= %s %d) %s %s)", j, i, virt[i], t)
			}
			return t
		}
	} else {
		x := args[1].S
		n = "(s_len " + x + ")"
		src = func(j string) string { return sel(sel(old, "(s_arr "+x+")"), "(+ (s_off "+x+") "+j+")") }
	}
	nref := e.newRef(st, "app", nil)
	tot := e.def("tot", "Int", "(+ (s_len "+s+") "+n+")")
	grow := e.def("grow", "Bool", "(> "+tot+" (s_cap "+s+"))")
	ncap := e.freshConst("ncap", "Int")
	e.assume("(>= " + ncap + " " + tot + ")")
	// lengths stay within int (memory is finite)
	e.assume(imp(pc, fmt.Sprintf("(and (<= %s 9223372036854775807) (<= %s 9223372036854775807))", tot, ncap)))
	rarr := e.def("rarr", "Int", ite(grow, nref, "(s_arr "+s+")"))
	roff := e.def("roff", "Int", ite(grow, "0", "(s_off "+s+")"))
	res := e.def("apps", "Slice", fmt.Sprintf("(mkslice %s %s %s (ite %s %s (s_cap %s)))", rarr, roff, tot, grow, ncap, s))
	oa := e.def("oa", es, sel(old, "(s_arr "+s+")"))
	na := e.freshConst("na", es)
	end := "(+ " + roff + " (s_len " + s + "))"
	e.assume(imp(pc, fmt.Sprintf("(forall ((j Int)) (! (ite (and (<= %s j) (< j (+ %s %s))) (= (select %s j) %s) (=> (or (not %s) (and (<= 0 j) (< j (s_len %s)))) (= (select %s j) (select %s (ite %s (+ (s_off %s) j) j))))) :pattern ((select %s j))))",
		end, roff, tot, na, src("(- j "+end+")"), grow, s, na, oa, grow, s, na)))
	e.stores = append(e.stores, storeRec{k, "(s_arr " + s + ")"})
	// a zero-length append to a nil slice stays nil: no array is written
	nh := sto(old, rarr, na)
	if len(virt) == 0 {
		nh = ite("(= "+n+" 0)", old, nh)
	}
	e.setComp(st, k, so, nh)
	if _, ok := e.P.db.Logic["smem"]; ok && len(virt) == 1 && k == "E:string" {
		nv, ov := e.smemView(e.comp(st, k, so), res), e.smemView(old, s)
		e.assume(imp(pc, fmt.Sprintf("(forall ((s Str)) (! (= (smem %s s) (or (smem %s s) (= s %s))) :pattern ((smem %s s))))", nv, ov, virt[0], nv)))
	}
	return res
}

func (e *Enc) smemView(h, s string) string {
	return "(select " + h + " (s_arr " + s + ")) (s_off " + s + ") (s_len " + s + ")"
}

// virtVarargs recognises the compiler-made argument array of append(x, a, b, ...): it is written once per
// constant index and then only sliced whole and passed to append, so it never needs to exist on the heap.
func virtVarargs(a *ssa.Alloc) int {
	at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() == 0 || at.Len() > 8 {
		return 0
	}
	okUse := false
	for _, rf := range *a.Referrers() {
		switch v := rf.(type) {
		case *ssa.IndexAddr:
			if _, isC := v.Index.(*ssa.Const); !isC {
				return 0
			}
			for _, r2 := range *v.Referrers() {
				if s, ok := r2.(*ssa.Store); !ok || s.Addr != ssa.Value(v) || s.Block() != a.Block() {
					return 0
				}
			}
		case *ssa.Slice:
			if v.Low != nil || v.High != nil || v.Block() != a.Block() {
				return 0
			}
			for _, r2 := range *v.Referrers() {
				c, ok := r2.(*ssa.Call)
				if !ok {
					return 0
				}
				b, ok := c.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "append" || c.Call.Args[0] == ssa.Value(v) {
					return 0
				}
				okUse = true
			}
		case *ssa.DebugRef:
		default:
			return 0
		}
	}
	if !okUse {
		return 0
	}
	return int(at.Len())
}
