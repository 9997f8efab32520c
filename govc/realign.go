package main

import (
	"fmt"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// realign tries again functions whose proof failed, with the contract's loop
// invariants matched to the loops of the code in another way: after an edit
// a loop may be gone, there may be a new one, or a loop may count from one
// place further. Invariants are only hints (each is checked where it is
// used), so any matching under which every obligation is discharged is a proof.
func realign(P *Prog, tasks []Task, res []*FnRes) {
	var again []int
	for i, r := range res {
		if r != nil && tasks[i].C != nil && (r.Err != "" || nFailed(r) > 0) {
			again = append(again, i)
		}
	}
	if len(again) == 0 || len(again) > 3 {
		return
	}
	t0 := time.Now()
	for _, i := range again {
		for _, c := range variants(tasks[i].C, tasks[i].F) {
			if time.Since(t0).Seconds() > 150 {
				return
			}
			t := tasks[i]
			t.C, t.First = c, true
			r := verifyTask(P, t)
			if os.Getenv("GOVC_REALIGN") != "" {
				fmt.Printf("realign %s: %d failed of %d %s\n", t.Name, nFailed(r), len(r.Obls), r.Err)
				for _, o := range r.Obls {
					if o.Status != "discharged" && o.Output != "not tried" {
						fmt.Println("  ", o.Name)
					}
				}
			}
			if r.Err == "" && nFailed(r) == 0 {
				r.Retried = true
				res[i] = r
				break
			}
		}
	}
}

func variants(c *Contract, f *ssa.Function) []*Contract {
	if len(c.Loops) == 0 {
		return nil
	}
	var ks []int
	for k := range c.Loops {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	last := ks[len(ks)-1]
	var vs []*Contract
	add := func(loops map[int]*LoopSpec, shift map[int]int) {
		n := *c
		n.Loops, n.Shift = loops, shift
		vs = append(vs, &n)
	}
	n := nLoops(f)
	// a loop of the contract is gone
	if n <= last {
		for d := 1; d <= last; d++ {
			m := map[int]*LoopSpec{}
			for _, k := range ks {
				if k < d {
					m[k] = c.Loops[k]
				} else if k > d {
					m[k-1] = c.Loops[k]
				}
			}
			add(m, nil)
		}
	}
	// the loop counts from one place further
	for _, k := range ks {
		if len(c.Loops[k].Vars) > 0 && c.Loops[k].Vars[0].Type == "int" {
			add(c.Loops, map[int]int{k: -1})
			add(c.Loops, map[int]int{k: 1})
			add(c.Loops, map[int]int{k: byTurns})
			add(c.Loops, map[int]int{k: byTurns + 1})
		}
	}
	// there is a new loop
	if n > last {
		for d := 1; d <= last; d++ {
			m := map[int]*LoopSpec{}
			for _, k := range ks {
				if k < d {
					m[k] = c.Loops[k]
				} else {
					m[k+1] = c.Loops[k]
				}
			}
			add(m, nil)
		}
	}
	if len(vs) > 12 {
		vs = vs[:12]
	}
	return vs
}

// nLoops counts the loop heads of f.
func nLoops(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				n++
				break
			}
		}
	}
	return n
}

// isSelf says whether c is the contract of the function being verified.
func (e *Enc) isSelf(c *Contract) bool {
	return e.C == c || (e.C.Pkg == c.Pkg && e.C.Key == c.Key && !c.Iface)
}

// byTurns: the loop variable is the number of turns made (plus the rest).
const byTurns = 1 << 20
