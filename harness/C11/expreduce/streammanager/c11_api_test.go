package streammanager

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

type c11Out struct {
	f    *os.File
	want string
}

func (o *c11Out) got() string {
	b, _ := os.ReadFile(o.f.Name())
	return string(b)
}

// Only the exported interface is used here: standard output and error are
// files of this test while the manager is created.
func TestVerifC11API(t *testing.T) {
	r := vStart(t, "histories of writes to name/number pairs, registered or not, checked after every write against the two standard streams; non-trivial when the text is not empty", "histories of at most 12 writes")
	defer r.Done()
	dir := t.TempDir()
	names := []string{"stdout", "stderr", "stdin", "", "Stdout", "stdout ", "foo"}
	ids := []int64{-1, 0, 1, 2, 3, -2, 1 << 33, 257}
	texts := []string{"", "a", "hello\n", "\x00\xff", "ünïcode \u2028", "%d%s", strings.Repeat("xy", 3000)}
	so, se := os.Stdout, os.Stderr
	defer func() { os.Stdout, os.Stderr = so, se }()
	n := 0
	fresh := func() (expreduceapi.StreamManager, *c11Out, *c11Out) {
		n++
		a, _ := os.Create(filepath.Join(dir, fmt.Sprint("o", n)))
		b, _ := os.Create(filepath.Join(dir, fmt.Sprint("e", n)))
		os.Stdout, os.Stderr = a, b
		m := NewStreamManager()
		os.Stdout, os.Stderr = so, se
		return m, &c11Out{f: a}, &c11Out{f: b}
	}
	step := func(m expreduceapi.StreamManager, o, e *c11Out, hist *[]string, name string, id int64, text string) {
		*hist = append(*hist, fmt.Sprintf("write(%q,%d,%.40q)", name, id, text))
		in := strings.Join(*hist, "; ")
		r.Run("write", in, func() {
			ok := m.WriteString(name, id, text)
			want := false
			if (name == "stdout" && (id == 1 || id == -1)) {
				want, o.want = true, o.want+text
			}
			if (name == "stderr" && (id == 2 || id == -1)) {
				want, e.want = true, e.want+text
			}
			r.Check("write-status", in, text != "", ok == want, fmt.Sprint(want), fmt.Sprint(ok))
			r.Check("stdout-content", in, text != "", o.got() == o.want, fmt.Sprintf("%.200q", o.want), fmt.Sprintf("%.200q", o.got()))
			r.Check("stderr-content", in, text != "", e.got() == e.want, fmt.Sprintf("%.200q", e.want), fmt.Sprintf("%.200q", e.got()))
		})
	}
	for _, name := range names {
		for _, id := range ids {
			m, o, e := fresh()
			h := []string{}
			step(m, o, e, &h, name, id, "one")
			step(m, o, e, &h, name, id, "two")
			o.f.Close()
			e.f.Close()
		}
	}
	k := 150
	if r.Deep {
		k = 3000
	}
	for i := 0; i < k && !r.Failed(); i++ {
		m, o, e := fresh()
		h := []string{}
		for j := r.Rnd.Intn(12) + 1; j > 0; j-- {
			nm, id := names[r.Rnd.Intn(3)], ids[r.Rnd.Intn(4)]
			if r.Rnd.Intn(5) == 0 {
				nm, id = names[r.Rnd.Intn(len(names))], ids[r.Rnd.Intn(len(ids))]
			}
			step(m, o, e, &h, nm, id, texts[r.Rnd.Intn(len(texts))])
		}
		for rep := 0; rep < 3; rep++ {
			l := m.AsExpr()
			c11List(r, strings.Join(h, "; ")+"; list", l, []string{"stdout", "stderr"}, []int64{1, 2})
		}
		o.f.Close()
		e.f.Close()
	}
}
