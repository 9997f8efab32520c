package streammanager

import (
	"fmt"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

func c11List(r *vRec, in string, l expreduceapi.Ex, names []string, ids []int64) {
	want := "List["
	ok := false
	if ex, isEx := l.(*atoms.Expression); isEx && len(ex.GetParts()) == len(names)+1 {
		h, isS := ex.GetParts()[0].(*atoms.Symbol)
		ok = isS && h.Name == "System`List"
		for i := range names {
			p, isP := ex.GetParts()[i+1].(*atoms.Expression)
			ok = ok && isP && len(p.GetParts()) == 3
			if !ok {
				break
			}
			ph, a := p.GetParts()[0].(*atoms.Symbol)
			s, b := p.GetParts()[1].(*atoms.String)
			n, c := p.GetParts()[2].(*atoms.Integer)
			ok = a && b && c && ph.Name == "System`OutputStream" && s.Val == names[i] && n.Val.IsInt64() && n.Val.Int64() == ids[i]
		}
	}
	for i := range names {
		want += fmt.Sprintf("OutputStream[%q, %d] ", names[i], ids[i])
	}
	got := "nil"
	if s, isS := l.(fmt.Stringer); isS {
		got = s.String()
	}
	r.Check("listing", in, true, ok, want+"]", got)
}
