package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ghost struct{ typ, name, key, sort, zero string }

// ghost (abstract value) fields of external types
var allGhosts = []ghost{
	{"math/big.Int", "$val", "F:math/big.Int.$val", "Int", "0"},
	{"math/big.Float", "$val", "F:math/big.Float.$val", "BF", "bf_zero"},
	{"math/big.Rat", "$val", "F:math/big.Rat.$val", "Real", "0.0"},
	{"bytes.Buffer", "$s", "F:bytes.Buffer.$s", "Str", "str_empty"},
	{"strings.Builder", "$s", "F:strings.Builder.$s", "Str", "str_empty"},
	{"hash.Hash64", "$h", "F:hash.Hash64.$h", "Str", "str_empty"},
	{"io.Writer", "$out", "F:os.File.$out", "Str", "str_empty"},
	{"github.com/corywalker/expreduce/pkg/expreduceapi.EvalStateInterface", "$defs", "F:EvalState.$defs", "DS", "ds_empty"},
	{"github.com/corywalker/expreduce/pkg/expreduceapi.EvalStateInterface", "$thrown", "F:EvalState.$thrown", "Bool", "false"},
	{"github.com/corywalker/expreduce/pkg/expreduceapi.EvalStateInterface", "$cand", "F:EvalState.$cand", "Tree", "(TI 0)"},
	{"github.com/corywalker/expreduce/pkg/expreduceapi.DefinitionMap", "$d", "F:DefinitionMap.$d", "DS", "ds_empty"},
	{"github.com/corywalker/expreduce/expreduce/parser.evalStateForParser", "$d", "F:evalStateForParser.$d", "DS", "ds_empty"},
	{"os.File", "$out", "F:os.File.$out", "Str", "str_empty"},
}
var ghostByKey = map[string]ghost{}
var knownSorts = map[string]string{}

func init() {
	for _, g := range allGhosts {
		ghostByKey[g.key] = g
		knownSorts[g.key] = "(Array Int " + g.sort + ")"
	}
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

func shortPkg(p string) string {
	p = strings.TrimPrefix(p, "github.com/corywalker/expreduce/")
	p = strings.TrimPrefix(p, "expreduce/")
	p = strings.TrimPrefix(p, "pkg/")
	if p == "expreduce" {
		return "main"
	}
	return p
}

func ghostsOf(t types.Type) []ghost {
	n := types.TypeString(t, nil)
	var out []ghost
	for _, g := range allGhosts {
		if g.typ == n {
			out = append(out, g)
		}
	}
	return out
}

// packages outside the repository whose structs are treated field by field
var transparent = map[string]bool{"github.com/wcharczuk/go-chart": true, "github.com/wcharczuk/go-chart/drawing": true}

func isExternStruct(P *Prog, t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || transparent[n.Obj().Pkg().Path()] {
		return false
	}
	return !P.isRepo(n.Obj().Pkg())
}

func q(s string) string {
	s = strings.ReplaceAll(s, "|", "!")
	s = strings.ReplaceAll(s, "\\", "!")
	return "|" + s + "|"
}

var structDecls = map[string]string{} // sort name -> declaration
var structOrder []string

func sortOf(P *Prog, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		}
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Struct:
		if isExternStruct(P, t) {
			return "Int"
		}
		return structSort(P, t, u)
	case *types.Array:
		return "(Array Int " + sortOf(P, u.Elem()) + ")"
	}
	return "Int"
}

func structSort(P *Prog, t types.Type, u *types.Struct) string {
	n := q("St:" + typeName(t))
	if _, ok := structDecls[n]; ok {
		return n
	}
	structDecls[n] = "" // reserve (recursion only through refs)
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, fmt.Sprintf("(%s %s)", structSel(t, i), sortOf(P, u.Field(i).Type())))
	}
	if len(fs) == 0 {
		structDecls[n] = fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s))))", n, q("mk:"+typeName(t)))
	} else {
		structDecls[n] = fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", n, q("mk:"+typeName(t)), strings.Join(fs, " "))
	}
	structOrder = append(structOrder, n)
	return n
}

func structSel(t types.Type, i int) string {
	return q("sel:" + typeName(t) + "." + t.Underlying().(*types.Struct).Field(i).Name())
}
func structMk(t types.Type) string { return q("mk:" + typeName(t)) }

func fieldComp(P *Prog, t types.Type, i int) (string, string) {
	f := t.Underlying().(*types.Struct).Field(i)
	return "F:" + typeName(t) + "." + f.Name(), "(Array Int " + sortOf(P, f.Type()) + ")"
}

// elemKey: all pointer-like element types that share a static type share a component.
func elemComp(P *Prog, t types.Type) (string, string) {
	return "E:" + typeName(t), "(Array Int (Array Int " + sortOf(P, t) + "))"
}
func cellComp(P *Prog, t types.Type) (string, string) {
	return "C:" + typeName(t), "(Array Int " + sortOf(P, t) + ")"
}
func globalComp(P *Prog, g *ssa.Global) (string, string) {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	return "G:" + shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name(), sortOf(P, t)
}
func mapComps(P *Prog, t types.Type) (d, v, l [2]string) {
	m := t.Underlying().(*types.Map)
	n := typeName(m)
	ks, vs := sortOf(P, m.Key()), sortOf(P, m.Elem())
	return [2]string{"MD:" + n, "(Array Int (Array " + ks + " Bool))"},
		[2]string{"MV:" + n, "(Array Int (Array " + ks + " " + vs + "))"},
		[2]string{"ML:" + n, "(Array Int Int)"}
}

func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return "(- 9223372036854775808)", "9223372036854775807", true
	case types.Int32:
		return "(- 2147483648)", "2147483647", true
	case types.Int16:
		return "(- 32768)", "32767", true
	case types.Int8:
		return "(- 128)", "127", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint8:
		return "0", "255", true
	}
	return "(- 9223372036854775808)", "9223372036854775807", true
}
