package parser

import (
	"fmt"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// c09ff prints the structure of an expression in full.
func c09ff(e expreduceapi.Ex) string {
	switch x := e.(type) {
	case *atoms.Symbol:
		return x.Name
	case *atoms.String:
		return fmt.Sprintf("%q", x.Val)
	case *atoms.Integer:
		return x.Val.String()
	case *atoms.Flt:
		return "flt:" + x.Val.Text('g', 20)
	case *atoms.Expression:
		s := []string{}
		for _, p := range x.Parts[1:] {
			s = append(s, c09ff(p))
		}
		return c09ff(x.Parts[0]) + "[" + strings.Join(s, ", ") + "]"
	}
	return fmt.Sprintf("?%T", e)
}

// c09es answers the questions the parser asks of the evaluator.
type c09es struct {
	defs    map[string]bool
	seen    map[string]bool
	context string
	path    []string
}

func (s *c09es) IsDef(n string) bool { return s.defs[n] }
func (s *c09es) MarkSeen(n string)   { s.seen[n] = true; s.defs[n] = true }
func (s *c09es) GetStringDef(n, d string) string {
	if n == "System`$Context" {
		return s.context
	}
	return d
}
func (s *c09es) GetListDef(n string) expreduceapi.ExpressionInterface {
	l := atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`List")})
	if n == "System`$ContextPath" {
		for _, p := range s.path {
			l.AppendEx(atoms.NewString(p))
		}
	}
	return l
}

func c09new() *c09es {
	return &c09es{map[string]bool{}, map[string]bool{}, "Global`", []string{"System`", "Global`"}}
}

func c09parse(src string, es *c09es) string { return c09ff(Interp(src, es)) }

// Reference: the structure of a chain.  ops[i] stands between args[i] and
// args[i+1]; an argument is a written text and the structure it stands for.
type c09arg struct{ src, ff string }

var c09ops = map[string]string{
	"|": "Alternatives", "&&": "And", ";": "CompoundExpression", ".": "Dot", "<>": "StringJoin",
	"===": "SameQ", "=!=": "UnsameQ", "||": "Or", "+": "Plus", "*": "Times", ";;": "Span",
	"==": "Equal", "!=": "Unequal", "<": "Less", "<=": "LessEqual", ">": "Greater", ">=": "GreaterEqual",
}
var c09cmp = []string{"==", "!=", "<", "<=", ">", ">="}

func c09chain(args []c09arg, ops []string) c09arg {
	src, ff := args[0].src, []string{args[0].ff}
	same := true
	for i, o := range ops {
		src += " " + o + " " + args[i+1].src
		same = same && o == ops[0]
	}
	if same {
		for _, a := range args[1:] {
			ff = append(ff, a.ff)
		}
		return c09arg{src, "System`" + c09ops[ops[0]] + "[" + strings.Join(ff, ", ") + "]"}
	}
	for i, o := range ops {
		ff = append(ff, "System`"+c09ops[o], args[i+1].ff)
	}
	return c09arg{src, "System`Inequality[" + strings.Join(ff, ", ") + "]"}
}

func TestVerifC09Chains(t *testing.T) {
	r := vStart(t, "random chains of one associative operator, of comparisons, of sums with differences and products with quotients; operands are names, numbers, strings, calls, lists, written-out operations and parenthesised chains, nested", "chains up to 8 operands, nesting to 3")
	defer r.Done()
	R := r.Rnd
	assoc := []string{"|", "&&", ";", ".", "<>", "===", "=!=", "||", "+", "*", ";;"}
	names := []string{"a", "b", "c", "xx", "y1", "z"}
	var chain func(d int) c09arg
	var arg func(d int) c09arg
	join := func(d int) (string, string) {
		n := R.Intn(4)
		src, ff := []string{}, []string{}
		for i := 0; i < n; i++ {
			a := arg(d - 1)
			if R.Intn(4) == 0 && d > 0 {
				a = chain(d - 1)
			}
			src, ff = append(src, a.src), append(ff, a.ff)
		}
		return strings.Join(src, ", "), strings.Join(ff, ", ")
	}
	arg = func(d int) c09arg {
		k := R.Intn(12)
		if d <= 0 && k >= 7 {
			k = R.Intn(7)
		}
		switch {
		case k < 5:
			n := names[R.Intn(len(names))]
			return c09arg{n, "Global`" + n}
		case k == 5:
			n := fmt.Sprint(R.Intn(20))
			return c09arg{"q" + n, "Global`q" + n}
		case k == 6:
			n := names[R.Intn(len(names))]
			return c09arg{`"` + n + `"`, `"` + n + `"`}
		case k == 7:
			s, f := join(d)
			return c09arg{"{" + s + "}", "System`List[" + f + "]"}
		case k == 8:
			s, f := join(d)
			return c09arg{"f[" + s + "]", "Global`f[" + f + "]"}
		case k == 9:
			// a written-out operation is one operand
			o := append(append([]string{}, assoc...), c09cmp...)
			h := c09ops[o[R.Intn(len(o))]]
			s, f := join(d)
			return c09arg{"System`" + h + "[" + s + "]", "System`" + h + "[" + f + "]"}
		}
		c := chain(d - 1)
		for i := R.Intn(3); i >= 0; i-- {
			c.src = "(" + c.src + ")"
		}
		return c
	}
	chain = func(d int) c09arg {
		n := 2 + R.Intn(4)
		if R.Intn(6) == 0 {
			n += 3
		}
		args := []c09arg{}
		for i := 0; i < n; i++ {
			args = append(args, arg(d))
		}
		ops := []string{}
		o := assoc[R.Intn(len(assoc))]
		if R.Intn(3) == 0 {
			o = c09cmp[R.Intn(6)]
			// comparisons, from all the same to all different
			two := []string{o, c09cmp[R.Intn(6)]}
			mode := R.Intn(3)
			for i := 1; i < n; i++ {
				switch mode {
				case 0:
					ops = append(ops, o)
				case 1:
					ops = append(ops, two[R.Intn(2)])
				default:
					ops = append(ops, c09cmp[R.Intn(6)])
				}
			}
			return c09chain(args, ops)
		}
		for i := 1; i < n; i++ {
			ops = append(ops, o)
		}
		if o == "+" && R.Intn(2) == 0 || o == "*" && R.Intn(3) == 0 {
			// differences and quotients are sums of negatives, products of inverses
			res := args[0].src
			for i := range ops {
				w := o
				if R.Intn(2) == 0 {
					if o == "+" {
						w = "-"
						args[i+1].ff = "System`Times[" + args[i+1].ff + ", -1]"
					} else if i == len(ops)-1 {
						w = "/"
						// the quotient is the last operand
						if i > 0 {
							args[i].ff = "System`Times[" + args[i].ff + ", System`Power[" + args[i+1].ff + ", -1]]"
							return c09arg{res + " / " + args[i+1].src, c09chain(args[:i+1], ops[:i]).ff}
						}
						args[i+1].ff = "System`Power[" + args[i+1].ff + ", -1]"
					}
				}
				res += " " + w + " " + args[i+1].src
			}
			return c09arg{res, c09chain(args, ops).ff}
		}
		return c09chain(args, ops)
	}
	N := 20000
	if r.Deep {
		N = 200000
	}
	for i := 0; i < N; i++ {
		c := chain(R.Intn(4))
		r.Run("chain", c.src, func() {
			got := c09parse(c.src, c09new())
			r.Check("structure", c.src, true, got == c.ff, c.ff, got)
			// parentheses around the whole change nothing
			if i%8 == 0 {
				got := c09parse("(("+c.src+"))", c09new())
				r.Check("parentheses", "(("+c.src+"))", true, got == c.ff, c.ff, got)
			}
		})
	}
}

// Pattern abbreviations and the contexts of names.
func TestVerifC09Names(t *testing.T) {
	r := vStart(t, "all abbreviations name? _,__,___ head? and optional marks, inside other expressions; names, plain and qualified, against random contexts, search paths and known names", "names over five words and four contexts")
	defer r.Done()
	R := r.Rnd
	words := []string{"a", "bb", "List", "Integer", "x1"}
	ctxs := []string{"System`", "Global`", "p`", "p`q`"}
	// resolve: the context a name ends in
	resolve := func(n string, s *c09es, seen map[string]bool) string {
		if !strings.Contains(n, "`") {
			for _, c := range s.path {
				if s.defs[c+n] || seen[c+n] {
					return c + n
				}
			}
			n = s.context + n
		}
		seen[n] = true
		return n
	}
	// abbreviations with a qualified name or head
	for _, c := range [][2]string{
		{"_System`Integer", "System`Blank[System`Integer]"},
		{"x_System`Integer", "System`Pattern[Global`x, System`Blank[System`Integer]]"},
		{"p`x_", "System`Pattern[p`x, System`Blank[]]"},
	} {
		r.Run("qualified", c[0], func() {
			got := c09parse(c[0], c09new())
			r.Check("qualified", c[0], true, got == c[1], c[1], got)
		})
	}
	N := 20000
	if r.Deep {
		N = 100000
	}
	for i := 0; i < N; i++ {
		mk := func() *c09es {
			return &c09es{map[string]bool{}, map[string]bool{}, "", nil}
		}
		s := mk()
		s.context = ctxs[R.Intn(4)]
		for _, j := range R.Perm(4)[:R.Intn(5)] {
			s.path = append(s.path, ctxs[j])
		}
		for j := R.Intn(6); j > 0; j-- {
			s.defs[ctxs[R.Intn(4)]+words[R.Intn(5)]] = true
		}
		// what an empty definition table would know from the start
		seen := map[string]bool{}
		name := func() string {
			w := words[R.Intn(5)]
			if R.Intn(4) == 0 {
				w = ctxs[R.Intn(4)] + w
			}
			return w
		}
		// an element and what it stands for, names resolved from left to right
		type part struct {
			src string
			ff  func() string
		}
		res := func(n string) string { return resolve(n, s, seen) }
		sys := func(n string) string { seen["System`"+n] = true; return "System`" + n }
		pat := func() part {
			n, h, d := "", "", []string{"_", "__", "___"}[R.Intn(3)]
			if R.Intn(3) > 0 {
				n = words[R.Intn(5)]
			}
			if R.Intn(2) == 0 {
				h = words[R.Intn(5)]
			}
			opt := d == "_" && h == "" && R.Intn(3) == 0
			src := n + d + h
			if opt {
				src += "."
			}
			return part{src, func() string {
				b := map[string]string{"_": "Blank", "__": "BlankSequence", "___": "BlankNullSequence"}[d]
				out, end := "", ""
				if opt {
					out, end = sys("Optional")+"[", "]"
				}
				if n != "" {
					out += sys("Pattern") + "["
					out += res(n) + ", "
					end = "]" + end
				}
				out += sys(b) + "["
				if h != "" {
					out += res(h)
				}
				return out + "]" + end
			}}
		}
		var elem func(d int) part
		elem = func(d int) part {
			switch k := R.Intn(6); {
			case k < 2:
				return pat()
			case k < 4 || d == 0:
				n := name()
				return part{n, func() string { return res(n) }}
			case k == 4:
				a, b := elem(d-1), elem(d-1)
				return part{"{" + a.src + ", " + b.src + "}", func() string { x := sys("List") + "["; x += a.ff() + ", "; return x + b.ff() + "]" }}
			default:
				h, a := name(), elem(d-1)
				return part{h + "[" + a.src + "]", func() string { x := res(h) + "["; return x + a.ff() + "]" }}
			}
		}
		e := elem(3)
		in := fmt.Sprintf("%s  with context %s, path %v, known %v", e.src, s.context, s.path, s.defs)
		r.Run("names", in, func() {
			before := map[string]bool{}
			for k := range s.defs {
				before[k] = true
			}
			want := func() string { d := s.defs; s.defs = before; defer func() { s.defs = d }(); return e.ff() }()
			got := c09parse(e.src, s)
			r.Check("resolved", in, true, got == want, want, got)
			// names the current context made are known from then on
			for k := range seen {
				r.Check("known", in, false, s.defs[k], k+" known", "unknown")
			}
			for k := range s.seen {
				r.Check("no-others", in, false, seen[k] || before[k], "no other names", k)
			}
		})
	}
}

// The marks of parentheses go, everything else stays.
func TestVerifC09Parens(t *testing.T) {
	r := vStart(t, "random trees with marks of parentheses anywhere, heads included", "depth 4, up to 3 marks on one another")
	defer r.Done()
	R := r.Rnd
	var tree func(d int) (expreduceapi.Ex, string)
	tree = func(d int) (expreduceapi.Ex, string) {
		if d == 0 || R.Intn(4) == 0 {
			n := fmt.Sprint("a", R.Intn(5))
			return atoms.NewSymbol(n), n
		}
		h, s := tree(R.Intn(d))
		parts, ss := []expreduceapi.Ex{h}, []string{}
		for n := R.Intn(4); n > 0; n-- {
			p, q := tree(d - 1)
			for k := R.Intn(4); k > 1; k-- {
				p = atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("Internal`Parens"), p})
			}
			parts, ss = append(parts, p), append(ss, q)
		}
		if R.Intn(3) == 0 {
			parts[0] = atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("Internal`Parens"), parts[0]})
		}
		return atoms.NewExpression(parts), s + "[" + strings.Join(ss, ", ") + "]"
	}
	for i := 0; i < 20000; i++ {
		e, want := tree(4)
		in := c09ff(e)
		r.Run("removed", in, func() {
			removeParens(e)
			got := c09ff(e)
			r.Check("marks-only", in, in != want, got == want, want, got)
		})
	}
}

// Chains of comparisons built one operand at a time.
func TestVerifC09Assoc(t *testing.T) {
	r := vStart(t, "chains built one operand at a time, all sequences of up to five of the six comparisons, and every other associative operator", "all 9330 sequences of comparisons")
	defer r.Done()
	sym := func(n string) expreduceapi.Ex { return atoms.NewSymbol(n) }
	var rec func(ops []string)
	rec = func(ops []string) {
		if len(ops) > 0 {
			var args []c09arg
			for i := 0; i <= len(ops); i++ {
				args = append(args, c09arg{fmt.Sprint("a", i), fmt.Sprint("a", i)})
			}
			c := c09chain(args, ops)
			r.Run("built", c.src, func() {
				e := sym("a0")
				for i, o := range ops {
					e = fullyAssoc("System`"+c09ops[o], e, sym(fmt.Sprint("a", i+1)))
				}
				got := c09ff(e)
				r.Check("structure", c.src, true, got == c.ff, c.ff, got)
			})
		}
		if len(ops) < 5 {
			for _, o := range c09cmp {
				rec(append(append([]string{}, ops...), o))
			}
		}
	}
	rec(nil)
	for o := range c09ops {
		rec5 := []string{o, o, o, o, o}
		var args []c09arg
		for i := 0; i <= 5; i++ {
			args = append(args, c09arg{fmt.Sprint("b", i), fmt.Sprint("b", i)})
		}
		c := c09chain(args, rec5)
		r.Run("built", c.src, func() {
			e := sym("b0")
			for i := 0; i < 5; i++ {
				e = fullyAssoc("System`"+c09ops[o], e, sym(fmt.Sprint("b", i+1)))
			}
			got := c09ff(e)
			r.Check("structure", c.src, true, got == c.ff, c.ff, got)
		})
	}
}
