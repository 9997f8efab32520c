package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblRes struct {
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Desc   string  `json:"desc,omitempty"`
	Status string  `json:"status"` // discharged failed
	Solver string  `json:"solver,omitempty"`
	Sec    float64 `json:"sec"`
	Output string  `json:"output,omitempty"`
	query  string
}

type FnRes struct {
	Name     string   `json:"name"`
	Contract string   `json:"contract"`
	Obls     []OblRes `json:"obligations"`
	Err      string   `json:"error,omitempty"`
	Inlined  []string `json:"inlined,omitempty"`
	Calls    []string `json:"contracts_used,omitempty"`
	Assumed  []string `json:"assumed,omitempty"`
	Warn     []string `json:"warnings,omitempty"`
	AutoInv  int      `json:"auto_invariants"`
	Reach    string   `json:"reachability"`
	Sec      float64  `json:"sec"`
	Loops    int      `json:"loops"`
	Retried  bool     `json:"retried,omitempty"`
}

type Task struct {
	First bool // stop at the first failure
	C     *Contract
	F     *ssa.Function
	Name  string
	Lemma *Lemma
}

var encMu sync.Mutex
var sem chan struct{}
var tmpDir string
var dumpDir string
var quickTO = 10

func (P *Prog) heapComps() [][3]string {
	var out [][3]string
	for _, h := range P.db.HeapComps {
		so := ""
		if g, ok := ghostByKey[h[1]]; ok {
			so = "(Array Int " + g.sort + ")"
		} else if strings.HasPrefix(h[1], "E:") {
			so = h[2]
		} else {
			so = P.sortOfComp(h[1])
		}
		out = append(out, [3]string{h[0], h[1], so})
	}
	return out
}

func newEnc(P *Prog, t Task, dropped map[string]bool, comps map[string]string) *Enc {
	e := &Enc{trigSort: map[string]string{}, P: P, C: t.C, fn: t.F, name: t.Name, declSet: map[string]bool{}, comps: map[string]string{}, dropped: dropped, cands: map[string]string{}, lits: map[string]string{}, warn: map[string]bool{}, snaps: map[string]string{}, oblCnt: map[string]int{}, assumed: map[string]bool{}, loopsSeen: map[int]bool{}, inlined: map[string]bool{}, calls: map[string]bool{}, lineAlso: map[int][]int{}, snapLine: map[string]int{}}
	for k, v := range comps {
		e.comps[k] = v
	}
	e.alloc0 = e.declare("alloc_0", "Int")
	e.assume("(< 0 alloc_0)")
	return e
}

func (e *Enc) encodeFn() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(encErr); ok {
				err = fmt.Errorf("%s", x.msg)
				return
			}
			panic(r)
		}
	}()
	f := e.fn
	st := State{}
	var eks []string
	for k := range e.comps {
		eks = append(eks, k)
	}
	sort.Strings(eks)
	for _, k := range eks {
		so := e.comps[k]
		if !strings.HasPrefix(k, "IT:") {
			n := e.comp(st, k, so)
			e.entryClosed(k, n)
		}
	}
	e.entry = State{}
	fr := &Frame{fn: f, vals: map[ssa.Value]Val{}}
	for _, p := range f.Params {
		so := sortOf(e.P, p.Type())
		c := e.declare(q("p:"+p.Name()), so)
		e.params = append(e.params, Val{T: p.Type(), S: c})
		e.assume(e.typeFact(c, p.Type(), st))
	}
	_ = fr
	var binds []Val
	for _, fv := range f.FreeVars {
		c := e.declare(q("fv:"+fv.Name()), "Int")
		e.assume("(and (< 0 " + c + ") (< " + c + " alloc_0))")
		binds = append(binds, Val{T: fv.Type(), S: c})
	}
	if e.C.Iface && len(e.C.Params) == 0 {
		e.fail("iface contract needs parameter names")
	}
	// method receivers reached through an interface are non-nil
	if f.Signature.Recv() != nil && !e.C.Opts["nilrecv"] {
		if _, ok := f.Params[0].Type().Underlying().(*types.Pointer); ok {
			e.assume("(not (= " + e.params[0].S + " 0))")
		}
	}
	env := e.topEnv(st)
	env.old = st
	for _, g := range e.C.Ghost {
		e.assume("(= " + e.eval(g.E, env).S + " " + e.eval(g.E, env).S + ")")
	}
	for _, c := range e.C.Req {
		e.assume(e.formula(c, env))
	}
	e.modSets = map[string][]modEnt{}
	if !e.C.ModAll {
		e.modSets = e.modifies(e.C, env)
	}
	// run
	topFr := &Frame{fn: f, vals: map[ssa.Value]Val{}, loopIt: map[*ssa.BasicBlock]string{}}
	e.top = topFr
	for i, p := range f.Params {
		topFr.vals[p] = e.params[i]
	}
	for i, p := range f.FreeVars {
		topFr.vals[p] = binds[i]
	}
	e.stack = append(e.stack, f)
	r := &region{e: e, fr: topFr, loops: loopsOf(f), order: rpo(f), in: map[*ssa.BasicBlock][]edge{}, heads: map[*ssa.BasicBlock]*headState{}}
	r.in[f.Blocks[0]] = []edge{{nil, "true", State{}}}
	r.run()
	for i, x := range r.rets {
		e.setBlk(topFr, x.blk)
		e.retPcs = append(e.retPcs, x.pc)
		env := e.topEnv(x.st)
		e.bindResults(env, e.C, f.Signature, x.vals)
		env.lookup = func(name string) (Val, bool) { return Val{}, false }
		// $kN: how often loop N had gone round when the function returned
		for o, ok := range e.loopKs {
			env.vars[fmt.Sprintf("$k%d", o)] = Val{Sort: "Int", S: ok}
		}
		for _, h := range e.C.Hints["exit"] {
			t := e.eval(h.E, env).S
			e.assume("(= " + t + " " + t + ")")
		}
		for j, c := range e.C.Asserts {
			f := e.formula(c, env)
			e.oblige(fmt.Sprintf("assert%s/ret%d", label(c, j), i+1), "assert", x.pc, f, c.Src)
			e.assume(imp(x.pc, f))
		}
		for j, c := range e.C.Ens {
			e.oblige(fmt.Sprintf("ensures%s/ret%d", label(c, j), i+1), "ensures", x.pc, e.formula(c, env), c.Src)
		}
		// frame
		if !e.C.ModAll {
			var ks []string
			for k := range x.st {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if k == "alloc" || strings.HasPrefix(k, "IT:") {
					continue
				}
				so := e.comps[k]
				init := e.comp(State{}, k, so)
				if x.st[k] == init {
					continue
				}
				whole := false
				for _, m := range e.modSets[k] {
					if m.ref == "" {
						whole = true
					}
				}
				if whole {
					continue
				}
				if strings.HasPrefix(k, "G:") {
					e.oblige(fmt.Sprintf("frame[%s]/ret%d", k, i+1), "frame", x.pc, "(= "+x.st[k]+" "+init+")", "global not in modifies is unchanged")
					continue
				}
				e.oblige(fmt.Sprintf("frame[%s]/ret%d", k, i+1), "frame", x.pc, e.frameFormula(k, so, init, x.st[k], e.alloc0, e.modSets[k]), "only what modifies names changes")
			}
			if e.C.Opts["noalloc"] {
				e.oblige(fmt.Sprintf("noalloc/ret%d", i+1), "frame", x.pc, "(= "+e.alloc(x.st)+" "+e.alloc0+")", "allocates nothing")
			}
		}
	}
	for n := range e.C.Loops {
		if !e.loopsSeen[n] {
			e.warn[fmt.Sprintf("contract names loop %d, which the code no longer has", n)] = true
		}
	}
	return nil
}

// ---------- query assembly ----------

func (e *Enc) prefix() string {
	var b strings.Builder
	for _, d := range e.decls {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	return b.String()
}

func (e *Enc) litFacts(pre string) string {
	var b strings.Builder
	if len(e.litOrd) > 0 {
		var ns []string
		for _, n := range rawLitNames {
			if strings.Contains(pre, "(declare-const "+n+" Str)") {
				ns = append(ns, n)
			}
		}
		for _, s := range e.litOrd {
			n := e.lits[s]
			ns = append(ns, n)
			fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(s))
		}
		fmt.Fprintf(&b, "(assert (distinct str_empty %s))\n", strings.Join(ns, " "))
	}
	return b.String()
}

func (e *Enc) litBytes(body string) string {
	if !strings.Contains(body, "(sat ") && !strings.Contains(body, "(hasprefix ") {
		return ""
	}
	var b strings.Builder
	for _, n := range rawLitNames {
		s := rawLitText[n]
		if len(s) <= 24 && strings.Contains(body, "(declare-const "+n+" Str)") {
			for i := 0; i < len(s); i++ {
				fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", n, i, s[i])
			}
		}
	}
	for _, s := range e.litOrd {
		if len(s) > 24 {
			continue
		}
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", e.lits[s], i, s[i])
		}
	}
	return b.String()
}

func contains(text, sym string) bool {
	i := 0
	for {
		k := strings.Index(text[i:], sym)
		if k < 0 {
			return false
		}
		k += i
		end := k + len(sym)
		okL := k == 0 || strings.ContainsRune(" ()\n\t", rune(text[k-1]))
		okR := end >= len(text) || strings.ContainsRune(" ()\n\t", rune(text[end]))
		if okL && okR {
			return true
		}
		i = k + 1
	}
}

var withoutRef = regexp.MustCompile("(?m)^; without (.*)$")

// addTokens collects the words of a text.
func addTokens(set map[string]bool, text string) {
	a := 0
	for i := 0; i <= len(text); i++ {
		if i == len(text) || text[i] == ' ' || text[i] == '(' || text[i] == ')' || text[i] == '\n' || text[i] == '\t' {
			if i > a {
				set[text[a:i]] = true
			}
			a = i + 1
		}
	}
}

func (P *Prog) prelude(body string) string { return P.preludeTo(body, len(P.db.Raw)) }

// preludeTo uses only the axiom blocks before number lim.
func (P *Prog) preludeTo(body string, lim int) string {
	inc := map[int]bool{}
	text := body
	have := map[string]bool{}
	addTokens(have, body)
	without := map[string]bool{}
	for _, m := range withoutRef.FindAllStringSubmatch(body, -1) {
		without[m[1]] = true
	}
	for changed := true; changed; {
		changed = false
		for i, r := range P.db.Raw {
			if inc[i] || i >= lim || without[r.Name] {
				continue
			}
			hit := false
			for _, n := range r.Needs {
				if n == "*" || have[n] {
					hit = true
					break
				}
			}
			if hit {
				inc[i] = true
				text += "\n" + r.Text
				addTokens(have, r.Text)
				changed = true
			}
		}
	}
	// struct sorts named by the axioms
	for _, m := range structRef.FindAllStringSubmatch(text, -1) {
		if _, ok := structDecls["|St:"+m[1]+"|"]; !ok {
			if t := P.namedType(m[1]); t != nil {
				sortOf(P, t)
			}
		}
	}
	var b strings.Builder
	b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	b.WriteString("(declare-datatypes ((Slice 0)) (((mkslice (s_arr Int) (s_off Int) (s_len Int) (s_cap Int)))))\n(declare-sort Str 0)\n(declare-sort F64 0)\n(declare-sort BF 0)\n(declare-sort HL 0)\n(declare-fun slen (Str) Int)\n(declare-const str_empty Str)\n(declare-const f64_zero F64)\n(declare-const bf_zero BF)\n(declare-const hl_nil HL)\n(declare-sort DS 0)\n(declare-const ds_empty DS)\n")
	b.WriteString(rawLitDecls(text))
	for _, n := range structOrder {
		if structDecls[n] != "" {
			b.WriteString(structDecls[n] + "\n")
		}
	}
	if strings.Contains(text, "TH") {
		var fs []string
		for _, h := range P.heapComps() {
			fs = append(fs, fmt.Sprintf("(%s %s)", h[0], h[2]))
		}
		fs = append(fs, "(th_alloc Int)")
		fmt.Fprintf(&b, "(declare-datatypes ((TH 0)) (((mkTH %s))))\n", strings.Join(fs, " "))
	}
	for i, r := range P.db.Raw {
		if inc[i] {
			fmt.Fprintf(&b, "; block %s\n%s\n", r.Name, P.subTags(r.Text))
		}
	}
	return b.String()
}

var structRef = regexp.MustCompile(`\|St:([^|]+)\|`)

// entryClosed: what the heap holds at entry was allocated before entry.
func (e *Enc) entryClosed(k, n string) {
	bound := func(v string, t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Map:
			return fmt.Sprintf("(< %s alloc_0)", v)
		case *types.Interface:
			_ = u
			return fmt.Sprintf("(< %s alloc_0)", v)
		case *types.Slice:
			return fmt.Sprintf("(sliceok %s alloc_0)", v)
		}
		return ""
	}
	if strings.HasPrefix(k, "F:") {
		if t := e.P.fieldTypeOf(k); t != nil {
			if b := bound(fmt.Sprintf("(select %s r)", n), t); b != "" {
				e.assume(fmt.Sprintf("(forall ((r Int)) (! %s :pattern ((select %s r))))", b, n))
			}
		}
	} else if strings.HasPrefix(k, "E:") {
		nm := k[2:]
		var t types.Type
		if strings.HasPrefix(nm, "*") {
			if x := e.P.namedType(nm[1:]); x != nil {
				t = types.NewPointer(x)
			}
		} else {
			t = e.P.namedType(nm)
		}
		if t == nil {
			return
		}
		if b := bound(fmt.Sprintf("(select (select %s r) i)", n), t); b != "" {
			e.assume(fmt.Sprintf("(forall ((r Int) (i Int)) (! %s :pattern ((select (select %s r) i))))", b, n))
		}
	}
}

func (P *Prog) fieldTypeOf(k string) types.Type {
	for _, n := range P.named {
		pre := "F:" + typeName(n) + "."
		if strings.HasPrefix(k, pre) {
			if u, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == k[len(pre):] {
						return u.Field(i).Type()
					}
				}
			}
		}
	}
	// a struct of a transparent package
	if d := strings.LastIndex(k, "."); d > 2 {
		if t := P.namedType(k[2:d]); t != nil {
			if u, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == k[d+1:] {
						return u.Field(i).Type()
					}
				}
			}
		}
	}
	return nil
}

// string constants named by @str("...") in axiom blocks
var strRef = regexp.MustCompile(`@str\("([^"]*)"\)`)
var rawLits = map[string]string{}
var rawLitNames []string
var rawLitText = map[string]string{}

func (P *Prog) collectRawLits() {
	add := func(t string) {
		for _, m := range strRef.FindAllStringSubmatch(t, -1) {
			if rawLits[m[1]] == "" {
				n := "glit_" + sanitize(m[1])
				rawLits[m[1]] = n
				rawLitText[n] = m[1]
				rawLitNames = append(rawLitNames, n)
			}
		}
	}
	for _, r := range P.db.Raw {
		add(r.Text)
	}
	for _, l := range P.db.Lemmas {
		for _, p := range l.Parts {
			add(p)
		}
	}
}

func rawLitDecls(text string) string {
	var b strings.Builder
	var ns []string
	for s, n := range rawLits {
		if strings.Contains(text, "@str(\""+s+"\")") || contains(text, n) {
			ns = append(ns, n)
			_ = s
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		for s, m := range rawLits {
			if m == n {
				fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(s))
			}
		}
	}
	if len(ns) > 0 {
		fmt.Fprintf(&b, "(assert (distinct str_empty %s))\n", strings.Join(ns, " "))
	}
	return b.String()
}

var tagRef = regexp.MustCompile(`@tag\((\*?)([^)]+)\)`)

// subTags replaces @tag(*pkg.T) in an axiom block by the number of that dynamic type.
func (P *Prog) subTags(s string) string {
	s = strRef.ReplaceAllStringFunc(s, func(m string) string { return rawLits[strRef.FindStringSubmatch(m)[1]] })
	return tagRef.ReplaceAllStringFunc(s, func(m string) string {
		x := tagRef.FindStringSubmatch(m)
		t := P.namedType(x[2])
		if t == nil {
			panic(encErr{"unknown type " + m})
		}
		if x[1] == "*" {
			t = types.NewPointer(t)
		}
		return fmt.Sprint(P.tag(t))
	})
}

func (P *Prog) namedType(n string) types.Type {
	for path, tp := range P.tpkgs {
		k := strings.LastIndex(n, ".")
		if k < 0 || shortPkg(path) != n[:k] {
			continue
		}
		if o := tp.Scope().Lookup(n[k+1:]); o != nil {
			return o.Type()
		}
	}
	return nil
}

// query assembles the text of one obligation. With blk >= 0 the facts stated
// in blocks from which the obligation cannot be reached are left out (only
// assertions are dropped, so what is still proved is proved from less).
func (e *Enc) query(pos int, goal string, blk int) string {
	var b strings.Builder
	var fwd map[int]bool
	if blk >= 0 {
		fwd = e.forwardTo(blk)
	}
	mi, cur := 0, -1
	for i, l := range e.lines[:pos] {
		for mi < len(e.marks) && e.marks[mi].Pos <= i {
			cur = e.marks[mi].Blk
			mi++
		}
		if fwd != nil && cur >= 0 && !fwd[cur] {
			keep := false
			for _, x := range e.lineAlso[i] {
				if x < 0 || fwd[x] {
					keep = true
				}
			}
			if !keep {
				if strings.HasPrefix(l, "(declare-const ") {
					if j := strings.Index(l, ")(assert "); j > 0 {
						l = l[:j+1]
					}
				} else {
					continue
				}
			}
		}
		b.WriteString(l)
		b.WriteByte('\n')
	}
	if goal != "" {
		b.WriteString("(assert (not " + goal + "))\n")
		if d, g := e.touched(goal); d != "" {
			b.WriteString(";TOUCH " + d + "(assert (not " + g + "))\n")
		}
	}
	body := e.prefix() + b.String()
	for _, p := range e.C.Props {
		body = "; prop" + p + "\n" + body
	}
	for o := range e.C.Opts {
		if strings.HasPrefix(o, "without:") {
			body = "; without " + o[len("without:"):] + "\n" + body
		}
	}
	pre := e.P.prelude(body + e.typeTags())
	return pre + e.litFacts(pre) + e.litBytes(pre+body) + e.typeTags() + body + "(check-sat)\n"
}

func (e *Enc) typeTags() string {
	// named tags usable from raw SMT blocks
	var b strings.Builder
	return b.String()
}

// ---------- solvers ----------

var solverSec sync.Map

func runSolver(bin string, args []string, q string, to int) (string, float64, string) {
	sem <- struct{}{}
	defer func() { <-sem }()
	if !deadline.IsZero() && time.Now().After(deadline) {
		return "timeout", 0, "time budget used up"
	}
	f, err := os.CreateTemp(tmpDir, "q*.smt2")
	if err != nil {
		return "error", 0, err.Error()
	}
	f.WriteString(q)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(to+3)*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, bin, append(args, f.Name())...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	sec := time.Since(t0).Seconds()
	var keep []string
	for _, l := range strings.Split(out.String(), "\n") {
		if l != "" && !strings.HasPrefix(l, "WARNING") {
			keep = append(keep, l)
		}
	}
	s := strings.Join(keep, "\n")
	if len(s) > 400 {
		s = s[:400]
	}
	first, _, _ := strings.Cut(s, "\n")
	if strings.Contains(s, "out of memory") || strings.Contains(s, "interrupted") {
		return "timeout", sec, s
	}
	if strings.Contains(s, "(error") {
		return "error", sec, s
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first, sec, s
	}
	return "timeout", sec, s
}

// candTO: seconds per automatic-invariant candidate; deadline: no solver is
// started after it (the obligation is then reported as not discharged).
var candTO = 4
var deadline time.Time

func z3Args(to int) []string { return []string{fmt.Sprintf("-T:%d", to), "-memory:3500"} }

func solve(q string, to int, full bool) (string, string, float64, string) {
	first := to
	if full && first > 4 {
		first = 4
	}
	res, sec, out := runSolver("z3", z3Args(first), q, first)
	if res == "unsat" || res == "error" {
		return res, "z3-4.8.12", sec, out
	}
	tot := sec
	outs := "z3: " + res
	if !full {
		return res, "z3-4.8.12", tot, outs
	}
	cq := strings.Replace(q, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", "(set-logic ALL)\n", 1)
	mq := strings.Replace(q, "(set-option :smt.mbqi false)\n", "", 1)
	tq := ""
	if i := strings.Index(q, "\n;TOUCH "); i >= 0 {
		j := strings.LastIndex(q[:i], "\n")
		tq = q[:j+1] + q[i+len("\n;TOUCH "):]
	}
	type alt = struct {
		name, bin string
		args      []string
		q         string
		to        int
	}
	alts := []struct {
		name, bin string
		args      []string
		q         string
		to        int
	}{
		{"z3-arith2", "z3", append(z3Args(to), "smt.arith.solver=2"), q, to},
		{"z3-new", "z3-new", z3Args(to), q, to},
		{"z3-new-seed1", "z3-new", append(z3Args(to), "smt.random_seed=1"), q, to},
		{"z3-weakarr", "z3", append(z3Args(to), "smt.array.extensional=false", "smt.random_seed=7"), q, to},
		{"cvc5", "cvc5", []string{"--quiet", fmt.Sprintf("--tlimit=%d", to*1000)}, cq, to},
		{"z3-mbqi", "z3", z3Args(first), mq, first},
	}
	if tq != "" {
		alts = append([]alt{{"z3-touch", "z3", z3Args(first), tq, first}}, alts...)
	}
	for _, a := range alts {
		r, s, o := runSolver(a.bin, a.args, a.q, a.to)
		tot += s
		outs += "; " + a.name + ": " + r
		if r == "unsat" {
			return r, a.name, tot, o
		}
		if r == "error" {
			outs += " " + o
		}
	}
	return res, "all", tot, outs
}

func verifyTask(P *Prog, t Task) *FnRes {
	t0 := time.Now()
	R := &FnRes{Name: t.Name}
	defer func() { R.Sec = time.Since(t0).Seconds() }()
	dropped := map[string]bool{}
	comps := map[string]string{}
	var e *Enc
	for round := 0; round < 12; round++ {
		encMu.Lock()
		e = newEnc(P, t, dropped, comps)
		err := e.encodeFn()
		if err == nil && round == 0 {
			// second pass knows every component from the start
			for k, v := range e.comps {
				comps[k] = v
			}
			e = newEnc(P, t, dropped, comps)
			err = e.encodeFn()
		}
		if err != nil {
			encMu.Unlock()
			R.Err = err.Error()
			return R
		}
		type job struct {
			o Obl
			q string
		}
		var jobs []job
		seen := map[string]bool{}
		for _, o := range e.obls {
			if o.Cand != "" {
				seen[o.Cand] = true
				jobs = append(jobs, job{o, e.query(o.Pos, o.Goal, o.Blk)})
			}
		}
		R.AutoInv = len(seen)
		encMu.Unlock()
		if len(jobs) == 0 {
			break
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		nd := 0
		for _, j := range jobs {
			wg.Add(1)
			go func(j job) {
				defer wg.Done()
				mu.Lock()
				d := dropped[j.o.Cand]
				mu.Unlock()
				if d {
					return
				}
				res, _, _, out := solve(j.q, candTO, false)
				if res == "error" {
					mu.Lock()
					R.Err = "solver error: " + out
					mu.Unlock()
				}
				if dumpDir != "" {
					os.WriteFile(filepath.Join(dumpDir, sanitizeFile(j.o.Name)+".smt2"), []byte(j.q), 0o644)
				}
				if res != "unsat" {
					mu.Lock()
					if !dropped[j.o.Cand] {
						dropped[j.o.Cand] = true
						nd++
					}
					mu.Unlock()
				}
			}(j)
		}
		wg.Wait()
		if R.Err != "" {
			return R
		}
		if nd == 0 {
			break
		}
		if round == 11 {
			for id := range seen {
				dropped[id] = true
			}
		}
	}
	// real obligations
	encMu.Lock()
	var qs, wholes []string
	var os_ []Obl
	for _, o := range e.obls {
		if o.Cand == "" {
			os_ = append(os_, o)
			qs = append(qs, e.query(o.Pos, o.Goal, o.Blk))
			w := ""
			if o.Blk >= 0 {
				w = e.query(o.Pos, o.Goal, -1)
			}
			if w == qs[len(qs)-1] {
				w = ""
			}
			wholes = append(wholes, w)
		}
	}
	reachQ := ""
	if len(e.retPcs) > 0 {
		var rp []string
		rp = append(rp, e.retPcs...)
		reachQ = e.query(len(e.lines), not(or(rp...)), -1)
	}
	// diagnosis: every return, and every way round a loop, on its own
	var reachEach []string
	if os.Getenv("GOVC_REACH") != "" {
		for _, p := range append(append([]string{}, e.retPcs...), e.stepPcs...) {
			reachEach = append(reachEach, e.query(len(e.lines), not(p), -1))
		}
	}
	R.Inlined, R.Calls, R.Assumed, R.Warn = keysOf(e.inlined), keysOf(e.calls), keysOf(e.assumed), keysOf(e.warn)
	R.Loops = len(e.loopsSeen)
	encMu.Unlock()
	R.Obls = make([]OblRes, len(os_))
	var wg sync.WaitGroup
	var mu sync.Mutex
	nfail := 0
	to := quickTO
	if t.C != nil && t.C.Timeout > 0 {
		to = t.C.Timeout
	}
	for i := range os_ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := os_[i]
			mu.Lock()
			full, skip := nfail < 4, t.First && nfail > 0
			mu.Unlock()
			if skip {
				R.Obls[i] = OblRes{Name: o.Name, Kind: o.Kind, Desc: o.Desc, Status: "failed", Output: "not tried"}
				return
			}
			res, sv, sec, out := solve(qs[i], to, full)
			if res != "unsat" && full && wholes[i] != "" {
				if r2, s2, x2, o2 := solve(wholes[i], to, false); r2 == "unsat" {
					res, sv, out = r2, s2, o2
					sec += x2
				}
			}
			if res != "unsat" {
				mu.Lock()
				nfail++
				mu.Unlock()
			}
			r := OblRes{Name: o.Name, Kind: o.Kind, Desc: o.Desc, Sec: sec, Solver: sv}
			if res == "unsat" {
				r.Status = "discharged"
			} else {
				r.Status = "failed"
				r.Output = out
				r.query = qs[i]
			}
			if dumpDir != "" {
				os.WriteFile(filepath.Join(dumpDir, sanitizeFile(o.Name)+".smt2"), []byte(qs[i]), 0o644)
			}
			R.Obls[i] = r
		}(i)
	}
	for i, rq := range reachEach {
		wg.Add(1)
		go func(i int, rq string) {
			defer wg.Done()
			if res, _, _ := runSolver("z3", z3Args(5), rq, 5); res == "unsat" {
				fmt.Printf("UNREACHABLE %s: point %d of %d\n", t.Name, i+1, len(reachEach))
				if dumpDir != "" {
					os.WriteFile(filepath.Join(dumpDir, sanitizeFile(fmt.Sprintf("%s.reach%d", t.Name, i+1))+".smt2"), []byte(rq), 0o644)
				}
			}
		}(i, rq)
	}
	if reachQ != "" {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res, _, _ := runSolver("z3", z3Args(3), reachQ, 3)
			R.Reach = res
			if dumpDir != "" {
				os.WriteFile(filepath.Join(dumpDir, sanitizeFile(t.Name)+".reach.smt2"), []byte(reachQ), 0o644)
			}
		}()
	} else {
		R.Reach = "no-return"
	}
	wg.Wait()
	return R
}

func sanitizeFile(s string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune("/ []()*:#;\\\"`'|<>", r) {
			return '_'
		}
		return r
	}, s)
}

func keysOf(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
