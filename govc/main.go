package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specDir := flag.String("spec", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property id (empty: all)")
	fn := flag.String("func", "", "only functions whose name contains this")
	out := flag.String("json", "", "result file")
	dump := flag.String("dump", "", "dump queries here")
	verbose := flag.Bool("v", false, "print every obligation")
	dumpSSA := flag.String("ssa", "", "print SSA of functions containing this")
	jobs := flag.Int("j", 8, "parallel solvers")
	to := flag.Int("t", 10, "solver timeout (s)")
	budget := flag.Int("budget", 0, "stop starting solvers after this many seconds")
	retry := flag.Bool("retry", false, "try functions with undischarged obligations again with longer limits")
	fnList := flag.Bool("fns", false, "list the functions of the tree (contracts/functions.txt)")
	list := flag.Bool("list", false, "list contracts")
	flag.Parse()
	quickTO = *to
	if *budget > 0 {
		deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	}
	sem = make(chan struct{}, *jobs)
	db := newDB()
	files, _ := filepath.Glob(filepath.Join(*specDir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := db.loadFile(f); err != nil {
			fmt.Fprintln(os.Stderr, "govc:", err)
			os.Exit(3)
		}
	}
	P, err := loadProg(*repo, db, []string{"./expreduce/...", "./pkg/..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: load:", err)
		os.Exit(4)
	}
	if *dumpSSA != "" {
		for k, f := range P.fns {
			if strings.Contains(k, *dumpSSA) {
				fmt.Println("==", k)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *fnList {
		P.listFns()
		return
	}
	for from, to := range P.adoptRenamed(*specDir) {
		fmt.Printf("contract of %s taken for %s\n", from, to)
	}
	tmpDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmpDir)
	dumpDir = *dump
	if dumpDir != "" {
		os.MkdirAll(dumpDir, 0o755)
	}
	P.collectRawLits()
	var tasks []Task
	var missing []string
	for _, c := range db.Order {
		if c.Extern {
			continue
		}
		if *prop != "" && !has(c.Props, *prop) {
			continue
		}
		if c.Opts["impl"] {
			continue
		}
		if c.Iface {
			ts, err := P.ifaceTasks(c)
			if err != nil {
				missing = append(missing, c.Key+": "+err.Error())
			}
			tasks = append(tasks, ts...)
			continue
		}
		f := P.fns[c.Pkg+"\x00"+c.Key]
		if f == nil && c.Opts["helper"] {
			// an internal helper that this tree does not have: its callers are
			// verified without its contract
			continue
		}
		if f == nil || len(f.Blocks) == 0 {
			missing = append(missing, shortPkg(c.Pkg)+"."+c.Key)
			continue
		}
		tasks = append(tasks, Task{C: c, F: f, Name: shortPkg(c.Pkg) + "." + c.Key})
	}
	for _, l := range db.Lemmas {
		if *prop == "" || has(l.Props, *prop) {
			tasks = append(tasks, Task{Lemma: l, Name: "lemma." + l.Name})
		}
	}
	if *list {
		for _, t := range tasks {
			p := []string{}
			if t.C != nil {
				p = t.C.Props
			} else {
				p = t.Lemma.Props
			}
			fmt.Println(t.Name, p)
		}
		return
	}
	var wg sync.WaitGroup
	res := make([]*FnRes, len(tasks))
	for i, t := range tasks {
		if *fn != "" && !strings.Contains(t.Name, *fn) {
			continue
		}
		wg.Add(1)
		go func(i int, t Task) {
			defer wg.Done()
			if t.Lemma != nil {
				res[i] = verifyLemma(P, t.Lemma)
				return
			}
			res[i] = verifyTask(P, t)
		}(i, t)
	}
	wg.Wait()
	if *retry {
		realign(P, tasks, res)
	}
	if *retry {
		var again []int
		for i, r := range res {
			if r != nil && r.Err == "" && nFailed(r) > 0 {
				again = append(again, i)
			}
		}
		if len(again) <= 4 {
			candTO, quickTO = 3*candTO, 2*quickTO
			for _, i := range again {
				if tasks[i].C == nil || nFailed(res[i]) > 8 {
					continue
				}
				c := *tasks[i].C
				c.Timeout *= 2
				t := tasks[i]
				t.C = &c
				if r := verifyTask(P, t); r.Err == "" && nFailed(r) < nFailed(res[i]) {
					r.Retried = true
					res[i] = r
				}
			}
		}
	}
	type Out struct {
		Fns     []*FnRes `json:"functions"`
		Missing []string `json:"missing"`
		Axioms  []string `json:"axiom_blocks"`
	}
	o := Out{Missing: missing}
	proved := map[string]bool{}
	for _, l := range db.Lemmas {
		proved[l.Name] = true
	}
	for _, r := range db.Raw {
		if r.Axiom && !proved[r.Name] {
			o.Axioms = append(o.Axioms, filepath.Base(r.File)+":"+r.Name)
		}
	}
	tot, ok := 0, 0
	for _, r := range res {
		if r == nil {
			continue
		}
		o.Fns = append(o.Fns, r)
		fo := 0
		for _, x := range r.Obls {
			tot++
			if x.Status == "discharged" {
				ok++
				fo++
			}
		}
		fmt.Printf("%-60s %d/%d obligations, %d auto-invariants, reach=%s %.1fs", r.Name, fo, len(r.Obls), r.AutoInv, r.Reach, r.Sec)
		if r.Err != "" {
			fmt.Printf(" ERROR %s", r.Err)
		}
		fmt.Println()
		for _, x := range r.Obls {
			if *verbose || x.Status != "discharged" {
				fmt.Printf("   %-10s %-60s %.2fs %s  {%s} %s\n", x.Status, x.Name, x.Sec, x.Solver, x.Desc, x.Output)
			}
		}
		if *verbose {
			for _, w := range r.Warn {
				fmt.Println("   warn:", w)
			}
			for _, w := range r.Assumed {
				fmt.Println("   assumed:", w)
			}
		}
	}
	for _, m := range missing {
		fmt.Println("MISSING", m)
	}
	fmt.Printf("total %d/%d obligations discharged\n", ok, tot)
	if *out != "" {
		b, _ := json.MarshalIndent(o, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
}

func nFailed(r *FnRes) int {
	n := 0
	for _, o := range r.Obls {
		if o.Status != "discharged" {
			n++
		}
	}
	return n
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// ifaceTasks: every implementer's body is checked against the interface contract.
func (P *Prog) ifaceTasks(c *Contract) ([]Task, error) {
	in, m, _ := strings.Cut(c.Key, ".")
	tp := P.tpkgs[c.Pkg]
	if tp == nil {
		return nil, fmt.Errorf("no package %s", c.Pkg)
	}
	o := tp.Scope().Lookup(in)
	if o == nil {
		return nil, fmt.Errorf("no interface %s", in)
	}
	it := ifaceOf(o.Type())
	if it == nil {
		return nil, fmt.Errorf("%s is not an interface", in)
	}
	var ts []Task
	for _, t := range P.implementers(it) {
		sel := P.prog.MethodSets.MethodSet(t).Lookup(tp, m)
		if sel == nil {
			return nil, fmt.Errorf("no method %s", m)
		}
		f := P.prog.MethodValue(sel)
		if f == nil || len(f.Blocks) == 0 {
			return nil, fmt.Errorf("no body for %s on %v", m, t)
		}
		cc := *c
		cc.Loops = map[int]*LoopSpec{}
		cc.Opts = map[string]bool{}
		for k := range c.Opts {
			cc.Opts[k] = true
		}
		key := f.Pkg.Pkg.Path() + "\x00" + fnKey(f)
		if ic := P.db.Contracts[key]; ic != nil && ic.Opts["impl"] {
			cc.Loops = ic.Loops
			cc.Asserts = append(append([]Clause{}, c.Asserts...), ic.Asserts...)
			cc.Hints = ic.Hints
			for k := range ic.Opts {
				cc.Opts[k] = true
			}
			if ic.Timeout > 0 {
				cc.Timeout = ic.Timeout
			}
		}
		ts = append(ts, Task{C: &cc, F: f, Name: shortPkg(f.Pkg.Pkg.Path()) + "." + fnKey(f)})
	}
	return ts, nil
}

var _ ssa.Member
