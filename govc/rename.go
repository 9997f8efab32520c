package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Function names are not behaviour. When a function under contract is gone
// and the tree has a new function (one that contracts/functions.txt does not
// list) in the same package, with the same receiver and the same number of
// parameters and results, that function is verified against the contract, and
// its callers use the contract for it. Nothing is assumed: if it is another
// function its proof fails.
func (P *Prog) adoptRenamed(specDir string) map[string]string {
	known := map[string]bool{}
	fh, err := os.Open(filepath.Join(specDir, "functions.txt"))
	if err != nil {
		return nil
	}
	defer fh.Close()
	for sc := bufio.NewScanner(fh); sc.Scan(); {
		known[sc.Text()] = true
	}
	var fresh []string
	for k, f := range P.fns {
		if f.Parent() == nil && len(f.Blocks) > 0 && !strings.Contains(k, "\x00builtin:") && !known[listed(k)] && P.db.Contracts[k] == nil {
			fresh = append(fresh, k)
		}
	}
	sort.Strings(fresh)
	used := map[string]bool{}
	out := map[string]string{}
	for _, c := range P.db.Order {
		key := c.Pkg + "\x00" + c.Key
		if c.Iface || P.fns[key] != nil || strings.HasPrefix(c.Key, "builtin:") || strings.Contains(c.Key, "$") {
			continue
		}
		var best []string
		for _, k := range fresh {
			f := P.fns[k]
			if used[k] || !strings.HasPrefix(k, c.Pkg+"\x00") || recvOf(k) != recvOf(key) || len(c.Params) > 0 && len(f.Params) != len(c.Params) || f.Signature.Results().Len() != len(c.Results) && len(c.Results) > 0 {
				continue
			}
			best = append(best, k)
		}
		if len(best) > 1 {
			var same []string
			for _, k := range best {
				if sameNames(P.fns[k], c) {
					same = append(same, k)
				}
			}
			best = same
		}
		if len(best) != 1 {
			continue
		}
		used[best[0]] = true
		P.fns[key] = P.fns[best[0]]
		P.db.Contracts[best[0]] = c
		out[c.Key] = listed(best[0])
	}
	return out
}

func sameNames(f *ssa.Function, c *Contract) bool {
	if len(c.Params) == 0 {
		return false
	}
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if p.Name() != c.Params[i].Name {
			return false
		}
	}
	return true
}

func recvOf(key string) string {
	_, k, _ := strings.Cut(key, "\x00")
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[:i]
	}
	return ""
}

func listed(key string) string { return strings.Replace(key, "\x00", " ", 1) }

func (P *Prog) listFns() {
	var ks []string
	for k, f := range P.fns {
		if f.Parent() == nil && !strings.Contains(k, "\x00builtin:") {
			ks = append(ks, listed(k))
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
}
