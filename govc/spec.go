package main

// Contract files: lexer, expression parser, and the file-level structure.

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
)

// ---------- expressions ----------

type Expr interface{}

type (
	EIdent struct{ Name string }
	EInt   struct{ V string }
	EStr   struct{ V string }
	EUn    struct {
		Op string
		X  Expr
	}
	EBin struct {
		Op   string
		L, R Expr
	}
	ECall struct {
		Fn   string
		Args []Expr
	}
	ESel struct {
		X    Expr
		Name string
	}
	EIdx  struct{ X, I Expr }
	ECast struct {
		X Expr
		T string
	}
	EQuant struct {
		All  bool
		Vars []QVar
		Trig [][]Expr
		Body Expr
	}
	ELet struct {
		Name string
		V, B Expr
	}
)

type QVar struct{ Name, Type string }

type tok struct {
	k string // id int str op eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	rs := []rune(src)
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">="}
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_' || c == '$' || c == '@':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && unicode.IsDigit(rs[j]) {
				j++
			}
			out = append(out, tok{"int", string(rs[i:j])})
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(string(rs[i : j+1]))
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", s})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					out = append(out, tok{"op", o})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	ts []tok
	p  int
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) isOp(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *parser) eat(s string) {
	t := p.next()
	if t.s != s {
		panic(fmt.Sprintf("expected %q got %q (near token %d)", s, t.s, p.p))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func parseExpr(src string) (e Expr, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("spec parse error in %q: %v", src, r)
		}
	}()
	p := &parser{ts: ts}
	e = p.expr(0)
	if p.peek().k != "eof" {
		panic("trailing tokens: " + p.peek().s)
	}
	return e, nil
}

func (p *parser) expr(minp int) Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr < minp {
			return l
		}
		p.next()
		var r Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparisons a <= b < c
		if pr == 5 {
			var acc Expr = EBin{t.s, l, r}
			prev := r
			for p.peek().k == "op" && prec[p.peek().s] == 5 {
				t2 := p.next()
				r2 := p.expr(6)
				acc = EBin{"&&", acc, EBin{t2.s, prev, r2}}
				prev = r2
			}
			l = acc
			continue
		}
		l = EBin{t.s, l, r}
	}
}

func (p *parser) typ() string {
	s := ""
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]" || t.s == ".") {
			s += t.s
			p.next()
			continue
		}
		if t.k == "id" {
			s += t.s
			p.next()
			if p.isOp(".") {
				continue
			}
			if t.s == "map" && p.isOp("[") {
				continue
			}
			if strings.HasPrefix(s, "map[") && p.isOp("]") {
				continue
			}
			return s
		}
		return s
	}
}

func (p *parser) unary() Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return EUn{t.s, p.unary()}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		var vs []QVar
		for {
			n := p.next().s
			p.eat(":")
			vs = append(vs, QVar{n, p.typ()})
			if p.isOp(",") {
				p.next()
				continue
			}
			break
		}
		p.eat("::")
		var trig [][]Expr
		for p.isOp("{") {
			p.next()
			var g []Expr
			for {
				g = append(g, p.expr(0))
				if p.isOp(",") {
					p.next()
					continue
				}
				break
			}
			p.eat("}")
			trig = append(trig, g)
		}
		return EQuant{t.s == "forall", vs, trig, p.expr(0)}
	}
	if t.k == "id" && t.s == "let" {
		p.next()
		n := p.next().s
		p.eat("=")
		v := p.expr(0)
		if p.peek().s != "in" {
			panic("expected in")
		}
		p.next()
		return ELet{n, v, p.expr(0)}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e Expr) Expr {
	for {
		if p.isOp(".") {
			p.next()
			if p.isOp("(") {
				p.next()
				ty := p.typ()
				p.eat(")")
				e = ECast{e, ty}
				continue
			}
			e = ESel{e, p.next().s}
			continue
		}
		if p.isOp("[") {
			p.next()
			i := p.expr(0)
			p.eat("]")
			e = EIdx{e, i}
			continue
		}
		return e
	}
}

func (p *parser) primary() Expr {
	t := p.next()
	switch t.k {
	case "int":
		return EInt{t.s}
	case "str":
		return EStr{t.s}
	case "id":
		if p.isOp("(") {
			p.next()
			var as []Expr
			if t.s == "is" {
				as = append(as, p.expr(0))
				p.eat(",")
				as = append(as, EIdent{p.typ()})
				p.eat(")")
				return ECall{t.s, as}
			}
			for !p.isOp(")") {
				as = append(as, p.expr(0))
				if p.isOp(",") {
					p.next()
				}
			}
			p.eat(")")
			return ECall{t.s, as}
		}
		return EIdent{t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.eat(")")
			return e
		}
	}
	panic("unexpected token " + t.s)
}

// ---------- files ----------

type Clause struct {
	Label string
	Src   string
	E     Expr
}

type LoopSpec struct {
	Inv  []Clause
	Vars []QVar
	Dec  *Clause
}

type Contract struct {
	Pkg      string
	Key      string // e.g. (*Integer).addI  or ExOrder or Ex.Hash (interface) or closure name
	Extern   bool   // assumed, not checked
	Iface    bool
	Props    []string
	Req, Ens []Clause
	Mod      []Clause // modifies expressions
	ModAll   bool
	Pure     bool // no heap effects at all (not even allocation)
	Ghost    []Clause
	Loops    map[int]*LoopSpec
	Shift    map[int]int // rewritten loops: the loop variable is off by this much
	NoSafety bool
	Dec      *Clause
	File     string
	Panics   *Clause
	Hints    map[string][]Clause // "exit" -> extra terms
	Asserts  []Clause            // checked at return before ensures and then assumed
	Params   []QVar              // for extern/iface contracts: names
	Results  []QVar
	Timeout  int
	Depth    int // inline depth limit
	Opts     map[string]bool
	CallRule map[string]string
	Bounded  bool
	GParams  []QVar          // ghost parameters, chosen by the caller
	GCalls   map[string]Expr // callee key + "\x00" + ghost parameter -> value
}

type LogicFn struct {
	Name string
	Heap bool
	Args []string
	Ret  string
}

type MacroDef struct {
	Name   string
	Params []string
	Body   Expr
}

type Lemma struct {
	Pkg   string
	Name  string
	Props []string
	Vars  []QVar
	Req   []Clause
	Ens   []Clause
	Hyp   []Clause
	Parts []string // raw SMT scripts, each of which must be unsatisfiable
	File  string
}

type SpecDB struct {
	Contracts map[string]*Contract // pkg + "\x00" + key
	Logic     map[string]LogicFn
	Macros    map[string]*MacroDef
	Raw       []RawBlock
	Lemmas    []*Lemma
	Order     []*Contract
	Files     []string
	AbbrevPkg map[string]string
	HeapComps [][3]string
}

// RawBlock is SMT text included when one of its trigger symbols is used.
type RawBlock struct {
	Name  string
	Needs []string
	Text  string
	Axiom bool // contains (assert ...)
	File  string
}

func newDB() *SpecDB {
	return &SpecDB{Contracts: map[string]*Contract{}, Logic: map[string]LogicFn{}, Macros: map[string]*MacroDef{}, AbbrevPkg: map[string]string{}}
}

func (db *SpecDB) loadFile(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	db.Files = append(db.Files, path)
	lines := strings.Split(string(b), "\n")
	pkg := ""
	var cur *Contract
	var lem *Lemma
	curLoop := 0
	fail := func(i int, f string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", path, i+1, fmt.Sprintf(f, a...))
	}
	i := 0
	for i < len(lines) {
		ln := lines[i]
		start := i
		i++
		t := strings.TrimSpace(ln)
		if t == "" || strings.HasPrefix(t, "//") || strings.HasPrefix(t, "#") {
			continue
		}
		// raw smt block
		if strings.HasPrefix(t, "smt ") {
			hdr := strings.Fields(strings.TrimSuffix(t, "{"))
			var body []string
			for i < len(lines) && strings.TrimSpace(lines[i]) != "}" {
				l := lines[i]
				if k := strings.Index(l, ";"); k >= 0 {
					l = l[:k]
				}
				body = append(body, l)
				i++
			}
			i++
			txt := strings.Join(body, "\n")
			db.Raw = append(db.Raw, RawBlock{Name: hdr[1], Needs: hdr[2:], Text: txt, Axiom: strings.Contains(txt, "(assert"), File: path})
			continue
		}
		// lemma NAME props P.. { parts separated by --- }: proves the axiom block NAME
		// from the blocks that come before it
		if strings.HasPrefix(t, "lemma ") {
			hdr := strings.Fields(strings.TrimSuffix(t, "{"))
			l := &Lemma{Pkg: pkg, Name: hdr[1], File: path}
			for _, h := range hdr[2:] {
				if h != "props" {
					l.Props = append(l.Props, h)
				}
			}
			part := ""
			for i < len(lines) && strings.TrimSpace(lines[i]) != "}" {
				x := lines[i]
				if k := strings.Index(x, ";"); k >= 0 {
					x = x[:k]
				}
				if strings.TrimSpace(x) == "---" {
					l.Parts = append(l.Parts, part)
					part = ""
				} else {
					part += x + "\n"
				}
				i++
			}
			i++
			l.Parts = append(l.Parts, part)
			db.Lemmas = append(db.Lemmas, l)
			cur, lem = nil, nil
			continue
		}
		// continuation lines: deeper-indented lines starting with '|' or ending with '\'
		for i < len(lines) {
			nt := strings.TrimSpace(lines[i])
			if strings.HasPrefix(nt, "| ") {
				t += " " + nt[2:]
				i++
				continue
			}
			break
		}
		kw, rest, _ := strings.Cut(t, " ")
		rest = strings.TrimSpace(rest)
		clause := func(s string) (Clause, error) {
			label := ""
			if strings.HasPrefix(s, "[") {
				if k := strings.Index(s, "]"); k > 0 {
					label = s[1:k]
					s = strings.TrimSpace(s[k+1:])
				}
			}
			e, err := parseExpr(s)
			return Clause{label, s, e}, err
		}
		switch kw {
		case "package":
			pkg = rest
			cur, lem = nil, nil
		case "heapcomp":
			f := strings.Fields(rest)
			h := [3]string{f[0], f[1], ""}
			if len(f) > 2 {
				h[2] = strings.Join(f[2:], " ")
			}
			db.HeapComps = append(db.HeapComps, h)
		case "logic":
			// logic [heap] name(S1,S2) Ret
			heap := false
			if strings.HasPrefix(rest, "heap ") {
				heap = true
				rest = rest[5:]
			}
			k := strings.Index(rest, "(")
			j, depth := k, 0
			for ; j < len(rest); j++ {
				if rest[j] == '(' {
					depth++
				} else if rest[j] == ')' {
					if depth--; depth == 0 {
						break
					}
				}
			}
			var args []string
			for _, a := range splitTop(rest[k+1 : j]) {
				if a = strings.TrimSpace(a); a != "" {
					args = append(args, a)
				}
			}
			n := strings.TrimSpace(rest[:k])
			db.Logic[n] = LogicFn{n, heap, args, strings.TrimSpace(rest[j+1:])}
		case "define":
			k := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			n := strings.TrimSpace(rest[:k])
			var ps []string
			for _, a := range strings.Split(rest[k+1:j], ",") {
				if a = strings.TrimSpace(a); a != "" {
					ps = append(ps, a)
				}
			}
			body := strings.TrimSpace(rest[j+1:])
			if !strings.HasPrefix(body, "=") {
				return fail(start, "define needs =")
			}
			e, err := parseExpr(body[1:])
			if err != nil {
				return fail(start, "%v", err)
			}
			db.Macros[n] = &MacroDef{n, ps, e}
		case "func", "extern", "iface":
			lem = nil
			cur = &Contract{Pkg: pkg, Extern: kw == "extern", Iface: kw == "iface", Loops: map[int]*LoopSpec{}, Hints: map[string][]Clause{}, File: path, Opts: map[string]bool{}}
			// key [ (params) (results) ] -- params only for extern/iface
			key := rest
			if k := strings.Index(rest, " :: "); k >= 0 {
				key = strings.TrimSpace(rest[:k])
				sig := rest[k+4:]
				pa, re, _ := strings.Cut(sig, "->")
				parse := func(s string) []QVar {
					var out []QVar
					for _, a := range strings.Split(s, ",") {
						a = strings.TrimSpace(a)
						if a == "" {
							continue
						}
						n, ty, _ := strings.Cut(a, " ")
						out = append(out, QVar{n, strings.TrimSpace(ty)})
					}
					return out
				}
				cur.Params = parse(pa)
				cur.Results = parse(re)
			}
			cur.Key = key
			curLoop = 0
			ck := pkg + "\x00" + key
			if db.Contracts[ck] != nil {
				return fail(start, "duplicate contract %s", key)
			}
			db.Contracts[ck] = cur
			db.Order = append(db.Order, cur)
		case "gparam":
			for _, a := range strings.Split(rest, ",") {
				n, ty, _ := strings.Cut(strings.TrimSpace(a), ":")
				cur.GParams = append(cur.GParams, QVar{strings.TrimSpace(n), strings.TrimSpace(ty)})
			}
		case "gcall":
			// gcall KEY n = expr
			f := strings.SplitN(rest, " ", 3)
			if len(f) != 3 || !strings.HasPrefix(f[2], "=") {
				return fail(start, "gcall KEY name = expr")
			}
			x, err := parseExpr(strings.TrimSpace(f[2][1:]))
			if err != nil {
				return fail(start, "%v", err)
			}
			if cur.GCalls == nil {
				cur.GCalls = map[string]Expr{}
			}
			cur.GCalls[f[0]+"\x00"+f[1]] = x
		case "props":
			if lem != nil {
				lem.Props = strings.Fields(rest)
			} else {
				cur.Props = strings.Fields(rest)
			}
		case "requires", "ensures", "assert", "ghost", "hyp":
			c, err := clause(rest)
			if err != nil {
				return fail(start, "%v", err)
			}
			if lem != nil {
				switch kw {
				case "requires":
					lem.Req = append(lem.Req, c)
				case "ensures":
					lem.Ens = append(lem.Ens, c)
				case "hyp":
					lem.Hyp = append(lem.Hyp, c)
				}
				continue
			}
			if cur == nil {
				return fail(start, "clause outside function")
			}
			switch kw {
			case "requires":
				cur.Req = append(cur.Req, c)
			case "ensures":
				cur.Ens = append(cur.Ens, c)
			case "assert":
				cur.Asserts = append(cur.Asserts, c)
			case "ghost":
				cur.Ghost = append(cur.Ghost, c)
			}
		case "modifies":
			if rest == "*" {
				cur.ModAll = true
				continue
			}
			for _, s := range splitTop(rest) {
				c, err := clause(strings.TrimSpace(s))
				if err != nil {
					return fail(start, "%v", err)
				}
				cur.Mod = append(cur.Mod, c)
			}
		case "hint":
			c, err := clause(rest)
			if err != nil {
				return fail(start, "%v", err)
			}
			cur.Hints["exit"] = append(cur.Hints["exit"], c)
		case "decreases":
			c, err := clause(rest)
			if err != nil {
				return fail(start, "%v", err)
			}
			if curLoop > 0 {
				cur.Loops[curLoop].Dec = &c
			} else {
				cur.Dec = &c
			}
		case "panics":
			c, err := clause(rest)
			if err != nil {
				return fail(start, "%v", err)
			}
			cur.Panics = &c
		case "opt":
			for _, o := range strings.Fields(rest) {
				cur.Opts[o] = true
			}
		case "pure":
			cur.Pure = true
		case "timeout":
			cur.Timeout, _ = strconv.Atoi(rest)
		case "loop":
			n, r2, _ := strings.Cut(rest, " ")
			k, err := strconv.Atoi(strings.TrimSuffix(n, ":"))
			if err != nil {
				return fail(start, "loop ordinal: %v", err)
			}
			curLoop = k
			if cur.Loops[k] == nil {
				cur.Loops[k] = &LoopSpec{}
			}
			if r2 = strings.TrimSpace(r2); r2 != "" {
				for _, a := range strings.Split(r2, ",") {
					nn, ty, _ := strings.Cut(strings.TrimSpace(a), ":")
					cur.Loops[k].Vars = append(cur.Loops[k].Vars, QVar{strings.TrimSpace(nn), strings.TrimSpace(ty)})
				}
			}
		case "invariant":
			c, err := clause(rest)
			if err != nil {
				return fail(start, "%v", err)
			}
			if curLoop == 0 {
				return fail(start, "invariant outside loop")
			}
			cur.Loops[curLoop].Inv = append(cur.Loops[curLoop].Inv, c)
		default:
			return fail(start, "unknown keyword %q", kw)
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}
