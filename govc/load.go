package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	tpkgs map[string]*types.Package
	fns   map[string]*ssa.Function // pkgpath\0key
	named []*types.Named           // all named non-interface types of the repo
	db    *SpecDB
	tags  map[string]int
	tagT  []types.Type

	writesMemo map[*ssa.Function]*writeSet
	impl       map[string][]types.Type
	errs       []string
}

const rubiStub = `package rubi_snapshot

import "errors"

func Asset(name string) ([]byte, error) { return nil, errors.New("no snapshot") }
`

func loadProg(repo string, db *SpecDB, patterns []string) (*Prog, error) {
	stub := filepath.Join(repo, "expreduce/rubi_snapshot/rubi_resources.go")
	overlay := map[string][]byte{}
	if _, err := os.Stat(stub); err != nil {
		overlay[stub] = []byte(rubiStub)
	}
	// resources.go is 56k lines of embedded data; keep its declarations but not the data.
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir: repo, Fset: fset, Overlay: overlay, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	cfg.Mode &^= packages.NeedDeps
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pk, ssa.GlobalDebug|ssa.InstantiateGenerics)
	P := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, fns: map[string]*ssa.Function{}, db: db, tags: map[string]int{}, writesMemo: map[*ssa.Function]*writeSet{}, impl: map[string][]types.Type{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", pk[i].PkgPath)
		}
		if pk[i].Name == "main" {
			continue
		}
		sp.Build()
		P.pkgs[sp.Pkg.Path()] = sp
	}
	var addT func(tp *types.Package)
	addT = func(tp *types.Package) {
		if P.tpkgs[tp.Path()] != nil {
			return
		}
		P.tpkgs[tp.Path()] = tp
		for _, im := range tp.Imports() {
			addT(im)
		}
	}
	for _, sp := range P.pkgs {
		addT(sp.Pkg)
	}
	var paths []string
	for p := range P.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sp := P.pkgs[path]
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok && !types.IsInterface(nt) {
					P.named = append(P.named, nt)
					for i := 0; i < nt.NumMethods(); i++ {
						m := nt.Method(i)
						f := prog.FuncValue(m)
						if f != nil {
							P.fns[path+"\x00"+fnKey(f)] = f
						}
					}
				}
			}
		}
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				P.fns[path+"\x00"+f.Name()] = f
				P.addAnon(path, f)
			}
		}
	}
	for i, p := range pk {
		if spkgs[i] != nil && p.Name != "main" {
			P.findBuiltins(p, spkgs[i])
		}
	}
	return P, nil
}

func (P *Prog) addAnon(path string, f *ssa.Function) {
	for _, a := range f.AnonFuncs {
		P.fns[path+"\x00"+a.Name()] = a
		P.addAnon(path, a)
	}
}

// findBuiltins keys functions that are the legacyEvalFn/toString of a Definition literal by its Name.
func (P *Prog) findBuiltins(p *packages.Package, sp *ssa.Package) {
	byPos := map[token.Pos]*ssa.Function{}
	for _, f := range P.fns {
		if f.Pkg == sp && f.Syntax() != nil {
			byPos[f.Syntax().Pos()] = f
		}
	}
	for _, file := range p.Syntax {
		ast.Inspect(file, func(n ast.Node) bool {
			cl, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			name := ""
			fs := map[string]ast.Expr{}
			for _, e := range cl.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				id, ok := kv.Key.(*ast.Ident)
				if !ok {
					continue
				}
				if id.Name == "Name" {
					if bl, ok := kv.Value.(*ast.BasicLit); ok {
						name, _ = strconv.Unquote(bl.Value)
					}
				} else {
					fs[id.Name] = kv.Value
				}
			}
			if name == "" {
				return true
			}
			for fld, v := range fs {
				var f *ssa.Function
				switch v := v.(type) {
				case *ast.FuncLit:
					f = byPos[v.Pos()]
				case *ast.Ident:
					f = P.fns[sp.Pkg.Path()+"\x00"+v.Name]
				}
				if f != nil {
					P.fns[sp.Pkg.Path()+"\x00builtin:"+name+"."+fld] = f
				}
			}
			return true
		})
	}
}

// fnKey: "(*T).m", "T.m" or "f".
func fnKey(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		return recvKey(r.Type()) + "." + f.Name()
	}
	return f.Name()
}

func recvKey(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			return "(*" + n.Obj().Name() + ")"
		}
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (P *Prog) contractFor(f *ssa.Function) *Contract {
	o := f
	if o.Pkg == nil && o.Object() == nil {
		return nil
	}
	path := ""
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	}
	if c := P.db.Contracts[path+"\x00"+fnKey(f)]; c != nil {
		return c
	}
	for k, g := range P.fns {
		if g == f && strings.Contains(k, "\x00builtin:") {
			if c := P.db.Contracts[k]; c != nil {
				return c
			}
		}
	}
	return nil
}

func (P *Prog) isRepo(tp *types.Package) bool {
	return tp != nil && P.pkgs[tp.Path()] != nil
}

// implementers of an interface among the repo's types (closed world).
func (P *Prog) implementers(it *types.Interface) []types.Type {
	k := types.TypeString(it, nil)
	if r, ok := P.impl[k]; ok {
		return r
	}
	var out []types.Type
	for _, n := range P.named {
		pt := types.NewPointer(n)
		if types.Implements(n, it) {
			// value receivers: value type itself
			out = append(out, n)
		}
		if types.Implements(pt, it) {
			out = append(out, pt)
		}
	}
	P.impl[k] = out
	return out
}

func (P *Prog) tag(t types.Type) int {
	k := types.TypeString(t, nil)
	if n, ok := P.tags[k]; ok {
		return n
	}
	n := len(P.tags) + 1
	P.tags[k] = n
	P.tagT = append(P.tagT, t)
	return n
}

// ---------- static write sets ----------

type writeSet struct {
	all   bool
	comps map[string]string // key -> sort
}

func (P *Prog) writes(f *ssa.Function) *writeSet {
	if w, ok := P.writesMemo[f]; ok {
		return w
	}
	w := &writeSet{comps: map[string]string{}}
	seen := map[*ssa.Function]bool{}
	P.collectWrites(f, w, seen)
	P.writesMemo[f] = w
	return w
}

func (w *writeSet) add(k, s string) { w.comps[k] = s }

func (P *Prog) addTypeWrites(w *writeSet, t types.Type) {
	// zeroing / storing a whole value of type t through a pointer
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isExternStruct(P, t) {
			for _, g := range ghostsOf(t) {
				w.add(g.key, "(Array Int "+g.sort+")")
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			k, s := fieldComp(P, t, i)
			w.add(k, s)
		}
	case *types.Array:
		k, s := elemComp(P, u.Elem())
		w.add(k, s)
	default:
		k, s := cellComp(P, t)
		w.add(k, s)
	}
}

func (P *Prog) addrWrites(w *writeSet, a ssa.Value) {
	switch v := a.(type) {
	case *ssa.FieldAddr:
		if inner, ok := v.X.(*ssa.IndexAddr); ok {
			P.addrWrites(w, inner)
			return
		}
		if inner, ok := v.X.(*ssa.FieldAddr); ok {
			P.addrWrites(w, inner)
		}
		st := v.X.Type().Underlying().(*types.Pointer).Elem()
		k, s := fieldComp(P, st, v.Field)
		w.add(k, s)
	case *ssa.IndexAddr:
		var el types.Type
		switch t := v.X.Type().Underlying().(type) {
		case *types.Slice:
			el = t.Elem()
		case *types.Pointer:
			el = t.Elem().Underlying().(*types.Array).Elem()
		}
		k, s := elemComp(P, el)
		w.add(k, s)
	case *ssa.Global:
		k, s := globalComp(P, v)
		w.add(k, s)
	default:
		P.addTypeWrites(w, a.Type().Underlying().(*types.Pointer).Elem())
	}
}

func (P *Prog) contractWrites(w *writeSet, c *Contract) {
	if c.ModAll {
		w.all = true
		return
	}
	// modifies comps are found at call time; only fresh objects matter here
	for o := range c.Opts {
		if strings.HasPrefix(o, "allocs=") {
			for _, k := range strings.Split(o[7:], ";") {
				if g, ok := ghostByKey[k]; ok {
					w.add(g.key, "(Array Int "+g.sort+")")
				} else {
					w.add(k, knownSorts[k])
				}
			}
		}
	}
	for _, m := range c.Mod {
		for k, s := range modKeys(P, m.E) {
			w.add(k, s)
		}
	}
}

// modKeys recognises ghost-field modifies syntactically (x.$val).
func modKeys(P *Prog, e Expr) map[string]string {
	out := map[string]string{}
	if s, ok := e.(ESel); ok && strings.HasPrefix(s.Name, "$") {
		for _, g := range allGhosts {
			if g.name == s.Name {
				out[g.key] = "(Array Int " + g.sort + ")"
			}
		}
	}
	return out
}

func (P *Prog) collectWrites(f *ssa.Function, w *writeSet, seen map[*ssa.Function]bool) {
	if seen[f] || w.all {
		return
	}
	seen[f] = true
	if len(f.Blocks) == 0 {
		if c := P.contractFor(f); c != nil {
			P.contractWrites(w, c)
			return
		}
		if externHavocs(f) {
			w.all = true
		}
		return
	}
	if c := P.contractFor(f); c != nil && c.Extern {
		if c.Pure {
			return
		}
		P.contractWrites(w, c)
		if !c.Opts["scan"] {
			return
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Store:
				P.addrWrites(w, v.Addr)
			case *ssa.Alloc:
				P.addTypeWrites(w, v.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.MakeSlice:
				k, s := elemComp(P, v.Type().Underlying().(*types.Slice).Elem())
				w.add(k, s)
			case *ssa.MakeMap:
				P.mapWrites(w, v.Type())
			case *ssa.MapUpdate:
				P.mapWrites(w, v.Map.Type())
			case *ssa.MakeClosure:
				if g, ok := v.Fn.(*ssa.Function); ok {
					P.collectWrites(g, w, seen)
				}
			case ssa.CallInstruction:
				cc := v.Common()
				if cc.IsInvoke() {
					if c := P.ifaceContract(cc); c != nil && c.Extern {
						if !c.Pure {
							P.contractWrites(w, c)
						}
						continue
					}
					it := cc.Value.Type().Underlying().(*types.Interface)
					for _, t := range P.implementers(it) {
						if m := P.method(t, cc.Method); m != nil {
							P.collectWrites(m, w, seen)
						}
					}
					continue
				}
				switch cv := cc.Value.(type) {
				case *ssa.Builtin:
					switch cv.Name() {
					case "append", "copy":
						if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
							k, s := elemComp(P, sl.Elem())
							w.add(k, s)
						}
					case "delete":
						P.mapWrites(w, cc.Args[0].Type())
					}
				default:
					if g := cc.StaticCallee(); isAtomicAccess(g) {
						if strings.HasPrefix(g.Name(), "Store") {
							P.addrWrites(w, cc.Args[0])
						}
					} else if g != nil {
						P.collectWrites(g, w, seen)
					} else {
						w.all = true
					}
				}
			}
			if w.all {
				return
			}
		}
	}
}

func (P *Prog) mapWrites(w *writeSet, t types.Type) {
	d, v, l := mapComps(P, t)
	w.add(d[0], d[1])
	w.add(v[0], v[1])
	w.add(l[0], l[1])
}

func (P *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	sel := P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

func (P *Prog) ifaceContract(cc *ssa.CallCommon) *Contract {
	n, ok := cc.Value.Type().(*types.Named)
	if !ok {
		return nil
	}
	try := func(n *types.Named) *Contract {
		if n.Obj().Pkg() == nil {
			return P.db.Contracts["\x00"+n.Obj().Name()+"."+cc.Method.Name()]
		}
		return P.db.Contracts[n.Obj().Pkg().Path()+"\x00"+n.Obj().Name()+"."+cc.Method.Name()]
	}
	if c := try(n); c != nil {
		return c
	}
	// embedded interface that declares the method
	var rec func(it *types.Interface) *Contract
	rec = func(it *types.Interface) *Contract {
		for i := 0; i < it.NumEmbeddeds(); i++ {
			if en, ok := it.EmbeddedType(i).(*types.Named); ok {
				eit, ok := en.Underlying().(*types.Interface)
				if !ok {
					continue
				}
				for j := 0; j < eit.NumMethods(); j++ {
					if eit.Method(j).Name() == cc.Method.Name() {
						if c := try(en); c != nil {
							return c
						}
					}
				}
				if c := rec(eit); c != nil {
					return c
				}
			}
		}
		return nil
	}
	return rec(n.Underlying().(*types.Interface))
}

// externHavocs: stdlib functions that call back into repo code.
func externHavocs(f *ssa.Function) bool {
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	if p == "sort" {
		return f.Name() != "Strings" && f.Name() != "Ints"
	}
	return false
}
