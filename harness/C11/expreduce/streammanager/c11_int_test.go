package streammanager

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"
)

// More streams than the two standard ones, registered directly.
func TestVerifC11Registered(t *testing.T) {
	r := vStart(t, "random sets of registered streams with pairwise different numbers and random histories of writes and listings", "at most 8 streams and 15 operations")
	defer r.Done()
	names := []string{"stdout", "stderr", "a", "b", "stdin"}
	k := 1500
	if r.Deep {
		k = 40000
	}
	for i := 0; i < k && !r.Failed(); i++ {
		sm := streamManagerImpl{openStreams: make(streamMap)}
		bufs := map[streamKey]*bytes.Buffer{}
		want := map[streamKey]string{}
		h := []string{}
		for id := int64(0); id < 8; id++ {
			if r.Rnd.Intn(2) == 0 {
				key := streamKey{id: id, name: names[r.Rnd.Intn(len(names))]}
				bufs[key] = &bytes.Buffer{}
				sm.openStreams[key] = bufs[key]
				h = append(h, fmt.Sprintf("open(%q,%d)", key.name, key.id))
			}
		}
		for j := r.Rnd.Intn(15); j > 0; j-- {
			name, id := names[r.Rnd.Intn(len(names))], int64(r.Rnd.Intn(9)-1)
			text := fmt.Sprint("t", r.Rnd.Intn(1000))
			h = append(h, fmt.Sprintf("write(%q,%d,%q)", name, id, text))
			in := strings.Join(h, "; ")
			r.Run("write", in, func() {
				key := streamKey{id: id, name: name}
				if id == -1 && name == "stdout" {
					key.id = 1
				}
				if id == -1 && name == "stderr" {
					key.id = 2
				}
				_, has := bufs[key]
				if has {
					want[key] += text
				}
				ok := sm.WriteString(name, id, text)
				r.Check("write-status", in, true, ok == has, fmt.Sprint(has), fmt.Sprint(ok))
				for k, b := range bufs {
					r.Check("content", in, true, b.String() == want[k], fmt.Sprintf("%v holds %q", k, want[k]), fmt.Sprintf("%q", b.String()))
				}
			})
		}
		var ks []streamKey
		for k := range bufs {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].id < ks[b].id })
		var ns []string
		var ids []int64
		for _, k := range ks {
			ns, ids = append(ns, k.name), append(ids, k.id)
		}
		in := strings.Join(h, "; ") + "; list"
		r.Run("listing", in, func() { c11List(r, in, sm.AsExpr(), ns, ids) })
	}
}
