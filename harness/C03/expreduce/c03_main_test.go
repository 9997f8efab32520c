package expreduce

import "testing"

func TestC03Evaluator(t *testing.T) {
	r := vStart(t, "rewriting parts of a copied value never shows in the value it was copied from", "fixed sessions")
	defer r.Done()
	for _, c := range [][3]string{
		{"a = {3, 1, 2}; b = Sort[a]", "{a, b}", "{{3, 1, 2}, {1, 2, 3}}"},
		{"a = {3, {2, 1}}; b = Map[Sort, {a[[2]]}]", "{a, b}", "{{3, {2, 1}}, {{1, 2}}}"},
		{"a = {1, 2}; b = Append[a, 3]; c = Append[a, 4]", "{a, b, c}", "{{1, 2}, {1, 2, 3}, {1, 2, 4}}"},
		{"a = {1, 2}; b = Prepend[a, 3]", "{a, b}", "{{1, 2}, {3, 1, 2}}"},
		{"a = f[x, g[x]]; b = a /. x -> 5", "{a, b}", "{f[x, g[x]], f[5, g[5]]}"},
		{"a = 3; b = Table[a + i, {i, 3}]; c = a*5", "{a, b, c}", "{3, {4, 5, 6}, 15}"},
		{"a = 1/3; b = a + 1/6; c = a*2", "{a, b, c}", "{1/3, 1/2, 2/3}"},
		{"a = 2.5; b = a + 1; c = a*2.", "{a, b, c}", "{2.5, 3.5, 5.}"},
		{"e = Hold[x]; g1 = e /. x -> e", "{e, g1}", "{Hold[x], Hold[Hold[x]]}"},
	} {
		in := c[0] + "; then " + c[1]
		r.Run("evaluator-copies", in, func() {
			es := NewEvalState()
			EvalInterp(c[0], es)
			got, want := vEv(es, c[1]), vEv(NewEvalState(), c[2])
			r.Check("evaluator-copies", in, true, got == want, want, got)
		})
	}
}
