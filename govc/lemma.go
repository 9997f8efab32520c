package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"time"
)

func ifaceOf(t types.Type) *types.Interface {
	it, _ := t.Underlying().(*types.Interface)
	return it
}

// verifyLemma discharges the proof parts of an axiom block that is claimed to
// follow from the blocks before it; the block itself is not available.
func verifyLemma(P *Prog, l *Lemma) *FnRes {
	t0 := time.Now()
	R := &FnRes{Name: "lemma." + l.Name, Reach: "n/a"}
	lim := -1
	for i, r := range P.db.Raw {
		if r.Name == l.Name {
			lim = i
		}
	}
	if lim < 0 {
		R.Err = "no axiom block named " + l.Name
		return R
	}
	for i, p := range l.Parts {
		encMu.Lock()
		q := P.preludeTo(p, lim) + P.subTags(p) + "(check-sat)\n"
		encMu.Unlock()
		res, sv, sec, out := solve(q, quickTO, true)
		if dumpDir != "" {
			os.WriteFile(filepath.Join(dumpDir, sanitizeFile(fmt.Sprintf("lemma.%s_part%d", l.Name, i+1))+".smt2"), []byte(q), 0o644)
		}
		o := OblRes{Name: fmt.Sprintf("lemma.%s/part%d", l.Name, i+1), Kind: "lemma", Desc: "follows from the definitions before it", Sec: sec, Solver: sv, Status: "discharged"}
		if res != "unsat" {
			o.Status, o.Output, o.query = "failed", out, q
		}
		R.Obls = append(R.Obls, o)
	}
	R.Sec = time.Since(t0).Seconds()
	return R
}
