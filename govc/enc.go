package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Addr struct {
	comp, sort string // component and its full sort
	kind       string // field elem cell global
	ref, idx   string
	root       types.Type // type stored at the component slot
	path       []pathEl   // into struct values
	T          types.Type // type of the addressed value
}
type pathEl struct {
	T types.Type
	i int
}

type Val struct {
	T    types.Type
	S    string
	Addr *Addr
	Tup  []Val
	Fn   *ssa.Function
	Bind []Val
	// logic-only values
	Sort    string
	Lazy    string // iterator id etc
	Virt    *[]Val // elements of a virtual varargs array
	VirtIdx int
}

type State map[string]string

func (s State) copy() State {
	n := State{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

type Obl struct {
	Name string
	Kind string
	Pos  int
	Goal string
	Desc string
	Cand string // houdini candidate id
	Soft bool
	Blk  int // top-level block of the obligation (-1: none)
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	parent *Frame
	depth  int
	loopIt map[*ssa.BasicBlock]string
	defers []*ssa.Defer
}

type Enc struct {
	boxNonNil bool              // the boxed pointer is the address of a variable
	trigSort  map[string]string // sort of each trigger term
	P         *Prog
	C         *Contract
	fn        *ssa.Function
	name      string
	decls     []string
	declSet   map[string]bool
	lines     []string
	obls      []Obl
	n         int
	comps     map[string]string
	dry       int
	loopOrd   int
	entry     State
	alloc0    string
	params    []Val
	top       *Frame
	dropped   map[string]bool
	cands     map[string]string
	lits      map[string]string
	litOrd    []string
	stores    []storeRec
	warn      map[string]bool
	modSets   map[string][]modEnt // function's own modifies
	snaps     map[string]string
	snapOrd   []string
	oblCnt    map[string]int
	stack     []*ssa.Function
	assumed   map[string]bool
	epoch     int
	loopsSeen map[int]bool
	exits     int
	retPcs    []string
	stepPcs   []string
	loopKs    map[int]string // loop number -> its count of rounds
	useAll    bool
	boxes     map[string]bool
	inlined   map[string]bool
	calls     map[string]bool
	marks     []mark
	lineAlso  map[int][]int
	snapLine  map[string]int
}

// mark: from line Pos on, lines belong to top-level block Blk
type mark struct{ Pos, Blk int }

type storeRec struct{ comp, base string }

type modEnt struct {
	comp, sort, ref string // ref "" = whole component
	cond            string
}

type encErr struct{ msg string }

func (e *Enc) fail(f string, a ...interface{}) {
	panic(encErr{fmt.Sprintf(f, a...)})
}

func (e *Enc) fresh(hint string) string {
	e.n++
	return fmt.Sprintf("v%d_%s", e.n, sanitize(hint))
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (e *Enc) declare(n, sort string) string {
	if !e.declSet[n] {
		e.declSet[n] = true
		e.decls = append(e.decls, fmt.Sprintf("(declare-const %s %s)", n, sort))
	}
	return n
}
func (e *Enc) freshConst(hint, sort string) string { return e.declare(e.fresh(hint), sort) }

func (e *Enc) def(hint, sort, term string) string {
	if !strings.Contains(term, " ") || len(term) < 24 {
		return term
	}
	n := e.fresh(hint)
	e.lines = append(e.lines, fmt.Sprintf("(declare-const %s %s)(assert (= %s %s))", n, sort, n, term))
	return n
}
func (e *Enc) assume(f string) {
	if f == "true" {
		return
	}
	e.lines = append(e.lines, "(assert "+f+")")
}
func imp(pc, f string) string {
	if pc == "true" {
		return f
	}
	if f == "true" {
		return "true"
	}
	return "(=> " + pc + " " + f + ")"
}
func and(fs ...string) string {
	var o []string
	for _, f := range fs {
		if f == "false" {
			return "false"
		}
		if f != "true" && f != "" {
			o = append(o, f)
		}
	}
	if len(o) == 0 {
		return "true"
	}
	if len(o) == 1 {
		return o[0]
	}
	return "(and " + strings.Join(o, " ") + ")"
}
func or(fs ...string) string {
	var o []string
	for _, f := range fs {
		if f == "true" {
			return "true"
		}
		if f != "false" {
			o = append(o, f)
		}
	}
	if len(o) == 0 {
		return "false"
	}
	if len(o) == 1 {
		return o[0]
	}
	return "(or " + strings.Join(o, " ") + ")"
}
func not(f string) string {
	if f == "true" {
		return "false"
	}
	if f == "false" {
		return "true"
	}
	return "(not " + f + ")"
}
func ite(c, a, b string) string {
	if a == b || c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}
func sel(a, i string) string    { return "(select " + a + " " + i + ")" }
func sto(a, i, v string) string { return "(store " + a + " " + i + " " + v + ")" }
func app(f string, as ...string) string {
	if len(as) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(as, " ") + ")"
}

func (e *Enc) curBlk() int {
	if len(e.marks) == 0 {
		return -1
	}
	return e.marks[len(e.marks)-1].Blk
}
func (e *Enc) setBlk(fr *Frame, b int) {
	if fr.parent != nil || fr.fn != e.fn {
		return
	}
	e.marks = append(e.marks, mark{len(e.lines), b})
}
func (e *Enc) trimMarks(line int) {
	n := len(e.marks)
	for n > 0 && e.marks[n-1].Pos > line {
		n--
	}
	e.marks = e.marks[:n]
	for l := range e.lineAlso {
		if l >= line {
			delete(e.lineAlso, l)
		}
	}
}

// forwardTo: blocks from which b is reached without taking a back edge
func (e *Enc) forwardTo(b int) map[int]bool {
	out := map[int]bool{b: true}
	work := []*ssa.BasicBlock{e.fn.Blocks[b]}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range x.Preds {
			if x.Dominates(p) || out[p.Index] {
				continue
			}
			out[p.Index] = true
			work = append(work, p)
		}
	}
	return out
}

func (e *Enc) oblige(name, kind, pc, goal, desc string) {
	if pc == "false" || goal == "true" {
		return
	}
	e.oblCnt[name]++
	nm := name
	if c := e.oblCnt[name]; c > 1 {
		nm = fmt.Sprintf("%s#%d", name, c)
	}
	e.obls = append(e.obls, Obl{Name: e.name + "/" + nm, Kind: kind, Pos: len(e.lines), Goal: imp(pc, goal), Desc: desc, Blk: e.curBlk()})
}

// safety obligation, then assume it
func (e *Enc) safety(name, pc, goal, desc string) {
	if goal == "true" {
		return
	}
	if !e.C.Opts["nosafety"] {
		e.oblige(name, "safety", pc, goal, desc)
	}
	e.assume(imp(pc, goal))
}

func (e *Enc) comp(st State, key, sort string) string {
	if v, ok := st[key]; ok {
		return v
	}
	if _, ok := e.comps[key]; !ok {
		e.comps[key] = sort
	}
	n := e.declare(q(key+"_0"), sort)
	return n
}
func (e *Enc) alloc(st State) string {
	if v, ok := st["alloc"]; ok {
		return v
	}
	return e.alloc0
}
func (e *Enc) setComp(st State, key, sort, term string) {
	if _, ok := e.comps[key]; !ok {
		e.comps[key] = sort
		e.comp(st, key, sort)
	}
	st[key] = e.def("h", sort, term)
}

func (e *Enc) newRef(st State, hint string, t types.Type) string {
	a := e.alloc(st)
	r := e.def(hint, "Int", a)
	st["alloc"] = e.def("alloc", "Int", "(+ "+a+" 1)")
	if t != nil {
		e.assume(fmt.Sprintf("(= (typeof %s) %d)", r, e.P.tag(t)))
	}
	return r
}

// ---------- strings ----------

func (e *Enc) strLit(s string) string {
	if s == "" {
		return "str_empty"
	}
	if n, ok := rawLits[s]; ok {
		return n
	}
	if n, ok := e.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit_%d_%s", len(e.lits), sanitize(s))
	if len(n) > 40 {
		n = n[:40]
	}
	e.lits[s] = n
	e.litOrd = append(e.litOrd, s)
	return n
}

// litText: the text of a string constant's name
func (e *Enc) litText(n string) (string, bool) {
	if n == "str_empty" {
		return "", true
	}
	for s, x := range rawLits {
		if x == n {
			return s, true
		}
	}
	for s, x := range e.lits {
		if x == n {
			return s, true
		}
	}
	return "", false
}

// ---------- zero values and type facts ----------

func (e *Enc) zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsString != 0:
			return "str_empty"
		case u.Info()&types.IsFloat != 0:
			return "f64_zero"
		}
		return "0"
	case *types.Slice:
		return "(mkslice 0 0 0 0)"
	case *types.Struct:
		if isExternStruct(e.P, t) {
			return "0"
		}
		sortOf(e.P, t)
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return app(structMk(t), fs...)
	case *types.Array:
		return e.constArr(sortOf(e.P, t), e.zero(u.Elem()))
	}
	return "0"
}

// constArr is the constant array; over uninterpreted sorts it is axiomatised (cvc5 wants values).
func (e *Enc) constArr(so, v string) string {
	if !strings.Contains(v, "str_empty") && !strings.Contains(v, "f64_zero") {
		return "((as const " + so + ") " + v + ")"
	}
	n := q("zero:" + so + ":" + v)
	if !e.declSet[n] {
		e.declare(n, so)
		e.decls = append(e.decls, fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))", n, v, n))
	}
	return n
}

func (e *Enc) typeFact(v string, t types.Type, st State) string {
	al := e.alloc(st)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			if _, err := strconv.Atoi(v); err == nil {
				return "true"
			}
			return fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lo, v, v, hi)
		}
	case *types.Pointer:
		tg := e.P.tag(t)
		return fmt.Sprintf("(or (= %s 0) (and (< 0 %s) (< %s %s) (= (typeof %s) %d)))", v, v, v, al, v, tg)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return fmt.Sprintf("(< %s %s)", v, al)
		}
		impl := e.P.implementers(u)
		if len(impl) == 0 {
			return fmt.Sprintf("(< %s %s)", v, al)
		}
		n, isN := t.(*types.Named)
		if isN && n.Obj().Pkg() != nil && !e.P.isRepo(n.Obj().Pkg()) || isN && n.Obj().Pkg() == nil {
			return fmt.Sprintf("(< %s %s)", v, al)
		}
		var alts []string
		onlyPtr := true
		for _, it := range impl {
			if _, ok := it.(*types.Pointer); !ok {
				// a value type implementing the interface (also its pointer): boxed
				if _, isS := it.Underlying().(*types.Struct); isS || true {
					onlyPtr = false
				}
			}
			alts = append(alts, fmt.Sprintf("(= (typeof %s) %d)", v, e.P.tag(it)))
		}
		lo := fmt.Sprintf("(< 0 %s)", v)
		if !onlyPtr {
			lo = "true"
		}
		return fmt.Sprintf("(or (= %s 0) %s)", v, and(lo, fmt.Sprintf("(< %s %s)", v, al), or(alts...)))
	case *types.Map:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", v, v, al)
	case *types.Slice:
		return fmt.Sprintf("(sliceok %s %s)", v, al)
	case *types.Struct:
		if isExternStruct(e.P, t) {
			return "true"
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := e.typeFact(app(structSel(t, i), v), u.Field(i).Type(), st)
			fs = append(fs, f)
		}
		sortOf(e.P, t)
		return and(fs...)
	}
	return "true"
}

func (e *Enc) havocVal(hint string, t types.Type, st State, pc string) Val {
	if tt, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tt.Len(); i++ {
			v.Tup = append(v.Tup, e.havocVal(hint, tt.At(i).Type(), st, pc))
		}
		return v
	}
	s := sortOf(e.P, t)
	c := e.freshConst(hint, s)
	e.assume(imp(pc, e.typeFact(c, t, st)))
	return Val{T: t, S: c}
}

// ---------- loads and stores ----------

func (e *Enc) addrOf(fr *Frame, v Val) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		e.fail("address of non-pointer %v", v.T)
	}
	el := pt.Elem()
	switch u := el.Underlying().(type) {
	case *types.Struct:
		if !isExternStruct(e.P, el) {
			return &Addr{kind: "struct", ref: v.S, T: el}
		}
	case *types.Array:
		k, s := elemComp(e.P, u.Elem())
		return &Addr{kind: "array", comp: k, sort: s, ref: v.S, T: el}
	}
	k, s := cellComp(e.P, el)
	return &Addr{kind: "cell", comp: k, sort: s, ref: v.S, T: el, root: el}
}

func (e *Enc) load(st State, a *Addr, pc string) Val {
	if a.kind == "struct" {
		u := a.T.Underlying().(*types.Struct)
		sortOf(e.P, a.T)
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			k, s := fieldComp(e.P, a.T, i)
			fs = append(fs, sel(e.comp(st, k, s), a.ref))
		}
		t := e.def("ld", sortOf(e.P, a.T), app(structMk(a.T), fs...))
		e.assume(imp(pc, e.typeFact(t, a.T, st)))
		return Val{T: a.T, S: t}
	}
	t := e.slot(st, a)
	for _, p := range a.path {
		t = app(structSel(p.T, p.i), t)
	}
	t = e.def("ld", sortOf(e.P, a.T), t)
	e.assume(imp(pc, e.typeFact(t, a.T, st)))
	return Val{T: a.T, S: t}
}

func (e *Enc) slot(st State, a *Addr) string {
	switch a.kind {
	case "global":
		return e.comp(st, a.comp, a.sort)
	case "elem":
		return sel(sel(e.comp(st, a.comp, a.sort), a.ref), a.idx)
	case "array":
		return sel(e.comp(st, a.comp, a.sort), a.ref)
	}
	return sel(e.comp(st, a.comp, a.sort), a.ref)
}

func (e *Enc) store(st State, a *Addr, v string) {
	if a.kind == "struct" {
		u := a.T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			k, s := fieldComp(e.P, a.T, i)
			e.stores = append(e.stores, storeRec{k, a.ref})
			e.setComp(st, k, s, sto(e.comp(st, k, s), a.ref, app(structSel(a.T, i), v)))
		}
		return
	}
	if len(a.path) > 0 {
		v = e.rebuild(e.slot(st, a), a.path, v)
	}
	c := e.comp(st, a.comp, a.sort)
	e.stores = append(e.stores, storeRec{a.comp, a.ref})
	switch a.kind {
	case "global":
		e.setComp(st, a.comp, a.sort, v)
	case "elem":
		e.setComp(st, a.comp, a.sort, sto(c, a.ref, sto(sel(c, a.ref), a.idx, v)))
	default:
		e.setComp(st, a.comp, a.sort, sto(c, a.ref, v))
	}
}

func (e *Enc) rebuild(old string, path []pathEl, v string) string {
	p := path[0]
	u := p.T.Underlying().(*types.Struct)
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		f := app(structSel(p.T, i), old)
		if i == p.i {
			if len(path) > 1 {
				f = e.rebuild(f, path[1:], v)
			} else {
				f = v
			}
		}
		fs = append(fs, f)
	}
	return app(structMk(p.T), fs...)
}

func (e *Enc) fieldAddr(fr *Frame, x Val, field int, st State, pc, what string) Val {
	pt := x.T.Underlying().(*types.Pointer)
	stT := pt.Elem()
	ft := stT.Underlying().(*types.Struct).Field(field).Type()
	rt := types.NewPointer(ft)
	if x.Addr != nil {
		a := x.Addr
		if a.kind == "struct" {
			k, s := fieldComp(e.P, a.T, field)
			return Val{T: rt, Addr: &Addr{kind: "field", comp: k, sort: s, ref: a.ref, root: ft, T: ft}}
		}
		na := *a
		na.path = append(append([]pathEl{}, a.path...), pathEl{stT, field})
		na.T = ft
		return Val{T: rt, Addr: &na}
	}
	e.safety("nil("+what+")", pc, "(not (= "+x.S+" 0))", "nil pointer dereference")
	k, s := fieldComp(e.P, stT, field)
	return Val{T: rt, Addr: &Addr{kind: "field", comp: k, sort: s, ref: x.S, root: ft, T: ft}}
}

// first-class pointer term for a value
func (e *Enc) term(v Val) string {
	if v.Addr != nil {
		if v.Addr.kind == "struct" || v.Addr.kind == "array" {
			return v.Addr.ref
		}
		if len(v.Addr.path) == 0 && v.Addr.kind == "cell" {
			return v.Addr.ref
		}
		// interior pointer made first-class: an opaque (but stable) reference
		e.warn["interior pointer used as a first-class value: "+v.Addr.comp] = true
		return app("interior", e.strLit(v.Addr.comp), v.Addr.ref)
	}
	if v.S == "" && v.Fn != nil {
		n := q("fn:" + v.Fn.String())
		e.declare(n, "Int")
		return n
	}
	if v.S == "" {
		e.fail("no term for value of type %v", v.T)
	}
	return v.S
}

// ---------- values ----------

func (e *Enc) val(fr *Frame, v ssa.Value, st State) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		k, s := globalComp(e.P, x)
		el := x.Type().Underlying().(*types.Pointer).Elem()
		return Val{T: x.Type(), Addr: &Addr{kind: "global", comp: k, sort: s, T: el, root: el}}
	case *ssa.Function:
		return Val{T: x.Type(), Fn: x}
	case *ssa.Builtin:
		return Val{T: x.Type()}
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	e.fail("value %s = %s not available in %s", v.Name(), v.String(), fr.fn.Name())
	return Val{}
}

func (e *Enc) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return Val{T: t, S: e.zero(t)}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return Val{T: t, S: "true"}
		}
		return Val{T: t, S: "false"}
	case constant.String:
		return Val{T: t, S: e.strLit(constant.StringVal(c.Value))}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{T: t, S: e.f64Lit(c.Value)}
		}
		s := c.Value.ExactString()
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		return Val{T: t, S: s}
	case constant.Float:
		return Val{T: t, S: e.f64Lit(c.Value)}
	}
	return Val{T: t, S: e.freshConst("const", sortOf(e.P, t))}
}

func (e *Enc) f64Lit(v constant.Value) string {
	s := v.ExactString()
	if s == "0" {
		return "f64_zero"
	}
	if len(s) < 15 && strings.Trim(s, "0123456789") == "" {
		return app("f64_of_int", s)
	}
	n := q("f64:" + s)
	e.declare(n, "F64")
	return n
}

func intTerm(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}

// ---------- CFG ----------

type edge struct {
	from *ssa.BasicBlock
	pc   string
	st   State
}
type ret struct {
	pc   string
	st   State
	vals []Val
	pos  token.Pos
	blk  int
}

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		out = append(out, b)
	}
	dfs(f.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = li
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if li.body[x] {
						return
					}
					li.body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	return out
}

// region executes blocks (in order); in[b] holds the incoming edges. Edges to blocks not in the
// region are dropped into out; back edges to the loop headers in the region are checked.
type region struct {
	e      *Enc
	fr     *Frame
	loops  map[*ssa.BasicBlock]*loopInfo
	order  []*ssa.BasicBlock
	in     map[*ssa.BasicBlock][]edge
	rets   []ret
	heads  map[*ssa.BasicBlock]*headState
	dryTop *ssa.BasicBlock
	dryBk  []edge
}

type headState struct {
	ord    int
	phis   []*ssa.Phi
	entry  State // state at loop entry (merged)
	head   State // havoced state
	pc     string
	k      string
	allocL string
	init   map[*ssa.Phi]Val
	vars   map[string]Val
	cands  []cand
	spec   *LoopSpec
	dec0   string
	itPre  string
}

type cand struct {
	id string
	f  func(st State, phi map[*ssa.Phi]Val, k string) string
}

func (e *Enc) mergeEdges(in []edge) (string, State) {
	if len(in) == 1 {
		return in[0].pc, in[0].st.copy()
	}
	var pcs []string
	for _, x := range in {
		pcs = append(pcs, x.pc)
	}
	pc := e.def("pc", "Bool", or(pcs...))
	st := State{}
	keys := map[string]bool{}
	for _, x := range in {
		for k := range x.st {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		so := "Int"
		if k != "alloc" {
			so = e.comps[k]
		}
		get := func(s State) string {
			if k == "alloc" {
				return e.alloc(s)
			}
			return e.comp(s, k, so)
		}
		t := get(in[len(in)-1].st)
		for i := len(in) - 2; i >= 0; i-- {
			t = ite(in[i].pc, get(in[i].st), t)
		}
		st[k] = e.def("m", so, t)
	}
	return pc, st
}

func (e *Enc) mergeVals(pcs []string, vs []Val, t types.Type) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	if tt, ok := t.(*types.Tuple); ok {
		out := Val{T: t}
		for i := 0; i < tt.Len(); i++ {
			var c []Val
			for _, v := range vs {
				c = append(c, v.Tup[i])
			}
			out.Tup = append(out.Tup, e.mergeVals(pcs, c, tt.At(i).Type()))
		}
		return out
	}
	allSame := true
	for _, v := range vs[1:] {
		if v.Fn != vs[0].Fn || v.S != vs[0].S || v.Addr != vs[0].Addr || len(v.Bind) != len(vs[0].Bind) {
			allSame = false
		}
	}
	if allSame {
		return vs[0]
	}
	s := e.term(vs[len(vs)-1])
	for i := len(vs) - 2; i >= 0; i-- {
		s = ite(pcs[i], e.term(vs[i]), s)
	}
	return Val{T: t, S: e.def("phi", sortOf(e.P, t), s)}
}

func (r *region) run() {
	e, fr := r.e, r.fr
	for _, b := range r.order {
		in := r.in[b]
		if len(in) == 0 {
			continue
		}
		e.setBlk(fr, b.Index)
		if li := r.loops[b]; li != nil && b != r.dryTop {
			r.enterLoop(li, in)
			continue
		}
		if b == r.dryTop {
			r.block(b, in[0].pc, in[0].st.copy())
			continue
		}
		pc, st := e.mergeEdges(in)
		r.phis(b, in, fr)
		r.smemPhis(b, in, st)
		r.block(b, pc, st)
	}
}

func (r *region) phis(b *ssa.BasicBlock, in []edge, fr *Frame) {
	e := r.e
	nv := map[*ssa.Phi]Val{}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var pcs []string
		var vs []Val
		for _, x := range in {
			for pi, pb := range b.Preds {
				if pb == x.from {
					pcs = append(pcs, x.pc)
					vs = append(vs, e.val(fr, p.Edges[pi], x.st))
					break
				}
			}
		}
		nv[p] = e.mergeVals(pcs, vs, p.Type())
	}
	for p, v := range nv {
		fr.vals[p] = v
	}
}

// string-slice membership distributes over the merge (a congruence consequence, stated as a hint)
func (r *region) smemPhis(b *ssa.BasicBlock, in []edge, st State) {
	e := r.e
	if _, ok := e.P.db.Logic["smem"]; !ok || len(in) != 2 {
		return
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		sl, ok := p.Type().Underlying().(*types.Slice)
		if !ok || sortOf(e.P, sl.Elem()) != "Str" {
			continue
		}
		k, so := elemComp(e.P, sl.Elem())
		var vs [2]string
		for i, x := range in {
			for pi, pb := range b.Preds {
				if pb == x.from {
					vs[i] = e.smemView(e.comp(x.st, k, so), e.val(r.fr, p.Edges[pi], x.st).S)
				}
			}
		}
		m := e.smemView(e.comp(st, k, so), r.fr.vals[p].S)
		e.assume(fmt.Sprintf("(forall ((s Str)) (! (= (smem %s s) (ite %s (smem %s s) (smem %s s))) :pattern ((smem %s s))))", m, in[0].pc, vs[0], vs[1], m))
	}
}

func (r *region) edgeTo(from, to *ssa.BasicBlock, pc string, st State) {
	e := r.e
	if pc == "false" {
		return
	}
	if r.dryTop == to {
		r.dryBk = append(r.dryBk, edge{from, pc, st.copy()})
		return
	}
	if to.Dominates(from) {
		if hs := r.heads[to]; hs != nil {
			r.backEdge(hs, from, to, pc, st)
		}
		return
	}
	pc = e.def("pc", "Bool", pc)
	r.in[to] = append(r.in[to], edge{from, pc, st.copy()})
}

var vnum = regexp.MustCompile(`\bv(\d+)_`)

func (e *Enc) definedBefore(t string, n int) bool {
	for _, m := range vnum.FindAllStringSubmatch(t, -1) {
		k, _ := strconv.Atoi(m[1])
		if k > n {
			return false
		}
	}
	return true
}

func (r *region) enterLoop(li *loopInfo, in []edge) {
	e, fr := r.e, r.fr
	e.loopOrd++
	ord := e.loopOrd
	if e.loopKs == nil {
		e.loopKs = map[int]string{}
	}
	if e.loopKs[ord] == "" {
		e.loopKs[ord] = "0"
	}
	b := li.head
	pc, st := e.mergeEdges(in)
	hs := &headState{ord: ord, entry: st.copy(), init: map[*ssa.Phi]Val{}, pc: pc}
	hs.allocL = e.alloc(st)
	// initial phi values
	r.phis(b, in, fr)
	for _, ins := range b.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			hs.phis = append(hs.phis, p)
			hs.init[p] = fr.vals[p]
		} else {
			break
		}
	}
	n0 := e.n
	// dry run to find modified components
	mods := map[string]bool{}
	bases := map[string]map[string]bool{}
	{
		svLines, svObls, svOrd, svCnt := len(e.lines), len(e.obls), e.loopOrd, e.oblCnt
		svStores, svRets := e.stores, e.retPcs
		e.oblCnt = map[string]int{}
		for k, v := range svCnt {
			e.oblCnt[k] = v
		}
		e.stores = nil
		e.dry++
		dr := &region{e: e, fr: fr, loops: r.loops, in: map[*ssa.BasicBlock][]edge{}, heads: map[*ssa.BasicBlock]*headState{}, dryTop: b}
		for _, x := range r.order {
			if li.body[x] {
				dr.order = append(dr.order, x)
			}
		}
		hst := State{}
		for k := range st {
			hst[k] = st[k]
		}
		svVals := map[ssa.Value]Val{}
		for k, v := range fr.vals {
			svVals[k] = v
		}
		for _, p := range hs.phis {
			fr.vals[p] = r.havocPhi(p, hst, pc)
		}
		dr.in[b] = []edge{{nil, pc, hst}}
		dr.run()
		for _, x := range dr.dryBk {
			for k, v := range x.st {
				if hst[k] != v {
					if _, had := hst[k]; !had {
						if k != "alloc" && e.comp(State{}, k, e.comps[k]) == v {
							continue
						}
					}
					mods[k] = true
				}
			}
		}
		for _, s := range e.stores {
			if bases[s.comp] == nil {
				bases[s.comp] = map[string]bool{}
			}
			bases[s.comp][s.base] = true
		}
		fr.vals = svVals
		e.dry--
		e.stores = append(svStores, e.stores...)
		e.retPcs = svRets
		e.lines = e.lines[:svLines]
		e.trimMarks(svLines)
		e.setBlk(fr, b.Index)
		e.obls = e.obls[:svObls]
		e.loopOrd = svOrd
		e.oblCnt = svCnt
		e.trimSnaps(svLines)
	}
	// spec
	spec := e.C.Loops[ord]
	e.loopsSeen[ord] = true
	hs.spec = spec
	head := st.copy()
	var mk []string
	for k := range mods {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	hs.k = e.freshConst("k", "Int")
	for _, k := range mk {
		if k == "alloc" {
			head["alloc"] = e.freshConst("allocH", "Int")
			e.assume(imp(pc, "(<= "+hs.allocL+" "+head["alloc"]+")"))
		} else {
			head[k] = e.freshConst("hh", e.comps[k])
		}
	}
	hs.head = head
	e.loopKs[ord] = hs.k
	phiv := map[*ssa.Phi]Val{}
	for _, p := range hs.phis {
		phiv[p] = r.havocPhi(p, head, pc)
	}
	// candidates
	r.mkCands(hs, li, mk, bases, n0)
	if e.dry == 0 {
		for _, c := range hs.cands {
			if e.dropped[c.id] {
				continue
			}
			f := c.f(st, hs.init, "0")
			if f != "true" {
				e.obls = append(e.obls, Obl{Name: e.name + "/cand/" + c.id + "/init", Kind: "cand", Pos: len(e.lines), Goal: imp(pc, f), Cand: c.id, Blk: e.curBlk()})
			}
		}
	}
	// user invariants: init
	if spec != nil {
		env := r.loopEnv(hs, st, hs.init, "0")
		for i, c := range spec.Inv {
			f := e.formula(c, env)
			e.oblige(fmt.Sprintf("loop%d/inv%s/init", ord, label(c, i)), "inv-init", pc, f, c.Src)
		}
	}
	for _, p := range hs.phis {
		fr.vals[p] = phiv[p]
	}
	hpc := e.freshConst("hpc", "Bool")
	e.assume(imp(hpc, pc))
	hs.pc = hpc
	e.assume("(<= 0 " + hs.k + ")")
	for _, c := range hs.cands {
		if !e.dropped[c.id] {
			e.assume(imp(hpc, c.f(head, phiv, hs.k)))
		}
	}
	if spec != nil {
		env := r.loopEnv(hs, head, phiv, hs.k)
		for _, c := range spec.Inv {
			e.assume(imp(hpc, e.formula(c, env)))
		}
		if spec.Dec != nil {
			hs.dec0 = e.def("dec", "Int", e.term(e.eval(spec.Dec.E, env)))
		}
	}
	r.heads[b] = hs
	r.block(b, hpc, head.copy())
}

func label(c Clause, i int) string {
	if c.Label != "" {
		return "[" + c.Label + "]"
	}
	return fmt.Sprintf("[%d]", i+1)
}

func (r *region) havocPhi(p *ssa.Phi, st State, pc string) Val {
	e := r.e
	init := r.fr.vals[p]
	if init.Addr != nil || init.Fn != nil {
		// loop-carried interior pointer/closure: only supported when unchanged
		same := true
		for _, ed := range p.Edges {
			if ed != p {
				if v, ok := r.fr.vals[ed]; ok && v.Addr == init.Addr && v.Fn == init.Fn {
					continue
				}
				same = false
			}
		}
		if same {
			return init
		}
	}
	return e.havocVal("phi_"+p.Comment, p.Type(), st, pc)
}

func (r *region) mkCands(hs *headState, li *loopInfo, mods []string, bases map[string]map[string]bool, n0 int) {
	e := r.e
	id := func(s string, a ...interface{}) string { return fmt.Sprintf("L%d:", hs.ord) + fmt.Sprintf(s, a...) }
	for _, k := range mods {
		k := k
		if k == "alloc" || strings.HasPrefix(k, "IT:") || strings.HasPrefix(k, "G:") {
			continue
		}
		so := e.comps[k]
		if !strings.HasPrefix(so, "(Array Int") {
			continue
		}
		frameTo := func(base State, al string, excl []modEnt) func(State, map[*ssa.Phi]Val, string) string {
			return func(st State, _ map[*ssa.Phi]Val, _ string) string {
				return e.frameFormula(k, so, e.comp(base, k, so), e.comp(st, k, so), al, excl)
			}
		}
		whole := false
		var own []modEnt
		for _, m := range e.modSets[k] {
			if m.ref == "" {
				whole = true
			}
			own = append(own, m)
		}
		if !whole && !e.C.ModAll {
			hs.cands = append(hs.cands, cand{id("frame0:%s", k), frameTo(State{}, e.alloc0, own)})
		}
		var inv []modEnt
		for b := range bases[k] {
			if e.definedBefore(b, n0) {
				inv = append(inv, modEnt{comp: k, ref: b})
			}
		}
		sort.Slice(inv, func(i, j int) bool { return inv[i].ref < inv[j].ref })
		hs.cands = append(hs.cands, cand{id("frameL:%s", k), frameTo(hs.entry, hs.allocL, inv)})
		if len(inv) > 0 {
			hs.cands = append(hs.cands, cand{id("frameLs:%s", k), frameTo(hs.entry, hs.allocL, nil)})
		}
	}
	for pi, p := range hs.phis {
		p := p
		t := p.Type()
		init := hs.init[p]
		switch t.Underlying().(type) {
		case *types.Slice:
			hs.cands = append(hs.cands, cand{id("sl0:%d", pi), func(st State, phi map[*ssa.Phi]Val, k string) string {
				v := phi[p].S
				return fmt.Sprintf("(or (>= (s_arr %s) %s) (= (s_cap %s) 0))", v, e.alloc0, v)
			}}, cand{id("slL:%d", pi), func(st State, phi map[*ssa.Phi]Val, k string) string {
				v := phi[p].S
				return fmt.Sprintf("(or (>= (s_arr %s) %s) (= (s_cap %s) 0) (= (s_arr %s) (s_arr %s)))", v, hs.allocL, v, v, init.S)
			}})
		case *types.Pointer, *types.Map:
			if init.S != "" {
				hs.cands = append(hs.cands, cand{id("nn:%d", pi), func(st State, phi map[*ssa.Phi]Val, k string) string {
					if phi[p].S == "" {
						return "true"
					}
					return "(not (= " + phi[p].S + " 0))"
				}})
				hs.cands = append(hs.cands, cand{id("fr0:%d", pi), func(st State, phi map[*ssa.Phi]Val, k string) string {
					if phi[p].S == "" {
						return "true"
					}
					return "(or (= " + phi[p].S + " 0) (>= " + phi[p].S + " " + e.alloc0 + "))"
				}})
			}
		case *types.Basic:
			if _, _, ok := intRange(t); !ok {
				continue
			}
			hs.cands = append(hs.cands, cand{id("ge0:%d", pi), func(st State, phi map[*ssa.Phi]Val, k string) string {
				return "(>= " + phi[p].S + " 0)"
			}})
			// induction variable: every back edge adds the same constant
			step, ok := int64(0), true
			first := true
			for i, ed := range p.Edges {
				if !li.body[li.head.Preds[i]] {
					continue
				}
				bo, isB := ed.(*ssa.BinOp)
				if !isB || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != ssa.Value(p) {
					ok = false
					break
				}
				c, isC := bo.Y.(*ssa.Const)
				if !isC || c.Value == nil {
					ok = false
					break
				}
				s := c.Int64()
				if bo.Op == token.SUB {
					s = -s
				}
				if first {
					step, first = s, false
				} else if s != step {
					ok = false
				}
			}
			if ok && !first {
				hs.cands = append(hs.cands, cand{id("iv:%d", pi), func(st State, phi map[*ssa.Phi]Val, k string) string {
					return fmt.Sprintf("(= %s (+ %s (* %s %s)))", phi[p].S, init.S, intTerm(big.NewInt(step)), k)
				}})
				// bound from the header's condition
				if iff, isIf := li.head.Instrs[len(li.head.Instrs)-1].(*ssa.If); isIf {
					if cmp, isC := iff.Cond.(*ssa.BinOp); isC {
						off := int64(0)
						x := cmp.X
						if bo, isB := x.(*ssa.BinOp); isB && bo.X == ssa.Value(p) {
							if c, isK := bo.Y.(*ssa.Const); isK && bo.Op == token.ADD && c.Value != nil {
								off = c.Int64()
								x = bo.X
							}
						}
						if x == ssa.Value(p) {
							y := cmp.Y
							outside, lenOf := false, false
							if c, isCall := y.(*ssa.Call); isCall {
								// the length of a slice that is there before the loop
								if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
									if _, isS := c.Call.Args[0].Type().Underlying().(*types.Slice); isS {
										y, lenOf = c.Call.Args[0], true
									}
								}
							}
							if in, isI := y.(ssa.Instruction); isI {
								outside = !li.body[in.Block()]
							} else {
								outside = true
							}
							if outside {
								op := cmp.Op
								hs.cands = append(hs.cands, cand{id("bd:%d", pi), func(st State, phi map[*ssa.Phi]Val, k string) string {
									yv := e.val(r.fr, y, st).S
									if lenOf {
										yv = "(s_len " + yv + ")"
									}
									v := fmt.Sprintf("(+ %s %d)", phi[p].S, off)
									switch op {
									case token.LSS:
										return fmt.Sprintf("(or (= %s 0) (<= %s %s))", k, v, yv)
									case token.LEQ:
										return fmt.Sprintf("(or (= %s 0) (<= %s (+ %s 1)))", k, v, yv)
									case token.GEQ:
										return fmt.Sprintf("(or (= %s 0) (>= %s (- %s 1)))", k, v, yv)
									case token.GTR:
										return fmt.Sprintf("(or (= %s 0) (>= %s %s))", k, v, yv)
									}
									return "true"
								}})
							}
						}
					}
				}
			}
		}
	}
}

// frameFormula: components agree below al except at the excluded references.
func (e *Enc) frameFormula(k, so, a, b, al string, excl []modEnt) string {
	if a == b {
		return "true"
	}
	conds := []string{"(< r " + al + ")"}
	for _, m := range excl {
		c := "(not (= r " + m.ref + "))"
		if m.cond != "" {
			c = "(or (not " + m.cond + ") (not (= r " + m.ref + ")))"
		}
		conds = append(conds, c)
	}
	return fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", and(conds...), b, a, b)
}

func (r *region) backEdge(hs *headState, from, to *ssa.BasicBlock, pc string, st State) {
	e, fr := r.e, r.fr
	phi := map[*ssa.Phi]Val{}
	for _, p := range hs.phis {
		for i, pb := range to.Preds {
			if pb == from {
				phi[p] = e.val(fr, p.Edges[i], st)
				if phi[p].S == "" && phi[p].Addr == nil && phi[p].Fn == nil {
					e.fail("phi without term")
				}
			}
		}
	}
	pc = e.def("bpc", "Bool", pc)
	if e.dry == 0 {
		e.stepPcs = append(e.stepPcs, pc)
	}
	k1 := "(+ " + hs.k + " 1)"
	if e.dry == 0 {
		for _, c := range hs.cands {
			if e.dropped[c.id] {
				continue
			}
			e.obls = append(e.obls, Obl{Name: e.name + "/cand/" + c.id + "/step", Kind: "cand", Pos: len(e.lines), Goal: imp(pc, c.f(st, phi, k1)), Cand: c.id, Blk: e.curBlk()})
		}
	}
	if hs.spec != nil {
		env := r.loopEnv(hs, st, phi, k1)
		pos := len(e.lines)
		_ = pos
		for i, c := range hs.spec.Inv {
			f := e.formula(c, env)
			e.oblige(fmt.Sprintf("loop%d/inv%s/step", hs.ord, label(c, i)), "inv-step", pc, f, c.Src)
		}
		if hs.spec.Dec != nil {
			d := e.term(e.eval(hs.spec.Dec.E, env))
			e.oblige(fmt.Sprintf("loop%d/decreases", hs.ord), "termination", pc, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", hs.dec0, d, hs.dec0), hs.spec.Dec.Src)
		}
	}
}

// run one block's instructions
func (r *region) block(b *ssa.BasicBlock, pc string, st State) {
	e, fr := r.e, r.fr
	for _, in := range b.Instrs {
		switch v := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := e.val(fr, v.Cond, st).S
			r.edgeTo(b, b.Succs[0], and(pc, c), st)
			r.edgeTo(b, b.Succs[1], and(pc, not(c)), st)
			return
		case *ssa.Jump:
			r.edgeTo(b, b.Succs[0], pc, st)
			return
		case *ssa.Return:
			var vs []Val
			for _, x := range v.Results {
				vs = append(vs, e.val(fr, x, st))
			}
			r.rets = append(r.rets, ret{pc, st, vs, v.Pos(), b.Index})
			return
		case *ssa.Panic:
			if e.C.Panics != nil && fr.parent == nil {
				// allowed when the panics clause holds (evaluated in entry state)
				env := e.topEnv(e.entry)
				e.oblige("panic-only-if", "panic", pc, e.formula(*e.C.Panics, env), e.C.Panics.Src)
			} else if !e.C.Opts["maypanic"] {
				e.oblige("no-panic", "safety", pc, "false", "explicit panic is unreachable")
			}
			return
		default:
			var alive bool
			pc, alive = r.instr(in, pc, st)
			if !alive {
				return
			}
		}
	}
}

// encodeCall inlines a function body.
func (e *Enc) inline(parent *Frame, f *ssa.Function, args, binds []Val, pc string, st State) (string, State, []Val, bool) {
	fr := &Frame{fn: f, vals: map[ssa.Value]Val{}, parent: parent, loopIt: map[*ssa.BasicBlock]string{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	for i, p := range f.Params {
		fr.vals[p] = args[i]
	}
	for i, p := range f.FreeVars {
		if i < len(binds) {
			fr.vals[p] = binds[i]
		}
	}
	e.stack = append(e.stack, f)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	r := &region{e: e, fr: fr, loops: loopsOf(f), order: rpo(f), in: map[*ssa.BasicBlock][]edge{}, heads: map[*ssa.BasicBlock]*headState{}}
	r.in[f.Blocks[0]] = []edge{{nil, pc, st.copy()}}
	r.run()
	if len(r.rets) == 0 {
		return "false", st, nil, false
	}
	var in []edge
	var pcs []string
	for _, x := range r.rets {
		in = append(in, edge{nil, x.pc, x.st})
		pcs = append(pcs, x.pc)
	}
	rpc, rst := e.mergeEdges(in)
	n := f.Signature.Results().Len()
	var vals []Val
	for i := 0; i < n; i++ {
		var vs []Val
		for _, x := range r.rets {
			vs = append(vs, x.vals[i])
		}
		vals = append(vals, e.mergeVals(pcs, vs, f.Signature.Results().At(i).Type()))
	}
	return rpc, rst, vals, true
}
