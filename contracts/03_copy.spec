# C03: copies.
package github.com/corywalker/expreduce/pkg/expreduceapi
iface Ex.DeepCopy :: this -> r
  props C03 C02
  requires wf(this)
  ensures [same] tv(r) == old(tv(this))
  ensures [own-storage] lo(r, alloc_entry)
  ensures [well-formed] wf(r) && fresh(r) && typeid(r) == typeid(this)
  ensures [remembered-hashes] old(hc(this)) ==> hc(r)
  ensures [distinct] is(r, *atoms.Rational) ==> r.(*atoms.Rational).Num != r.(*atoms.Rational).Den

package github.com/corywalker/expreduce/expreduce/atoms
func (*Expression).DeepCopy :: this -> r
  opt impl
  loop 1 copy:*Expression
    invariant fresh(copy) && len(copy.Parts) == $k && len(copy.Parts) <= cap(copy.Parts) && 0 <= off(copy.Parts) && (cap(copy.Parts) == 0 || fresh(arr(copy.Parts)))
    invariant [same] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> tv(at(copy.Parts, j)) == tat(old(tseq(this)), j - off(copy.Parts))
    invariant [wf] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> wf(at(copy.Parts, j))
    invariant [lo] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> lo(at(copy.Parts, j), alloc_entry)
    invariant [apart] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> nr(at(copy.Parts, j), copy)
    invariant [apart2] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> nr(at(copy.Parts, j), arr(copy.Parts))
    invariant [hashes] old(hc(this)) ==> (forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> hc(at(copy.Parts, j)))
    invariant [src] wf(this) && tv(this) == old(tv(this)) && this.Parts == old(this.Parts)
    invariant [elems] forall j:int :: {at(this.Parts, j)} off(this.Parts) <= j && j < off(this.Parts) + len(this.Parts) ==> at(this.Parts, j) == old(at(this.Parts, j))

# A shallow copy: the same parts, in a part list of its own.
func ShallowCopy :: x -> r
  props C03 C02
  requires is(x, *Expression) && wf(x)
  ensures [new] fresh(r) && fresh(arr(r.Parts)) && off(r.Parts) == 0
  ensures [same-parts] len(r.Parts) == len(x.(*Expression).Parts) && (forall j:int :: {r.Parts[j]} 0 <= j && j < len(r.Parts) ==> r.Parts[j] == x.(*Expression).Parts[j])
  ensures [same] tv(r) == old(tv(x)) && wf(r)
  ensures [remembered-hashes] old(hc(x)) ==> hc(r)

package github.com/corywalker/expreduce/pkg/expreduceapi
iface Ex.Copy :: this -> r
  props C03 C02 C07
  requires wf(this)
  ensures [same] tv(r) == old(tv(this)) && typeid(r) == typeid(this)
  ensures [well-formed] wf(r)
  ensures [reach] forall q:int :: {nr(r, q)} q < alloc_entry && old(nr(this, q)) ==> nr(r, q)
  ensures [remembered-hashes] old(hc(this)) ==> hc(r)
  ensures [own-nodes] sep(r, alloc_entry)
  ensures [own-list] is(r, *atoms.Expression) ==> fresh(r) && fresh(arr(r.(*atoms.Expression).Parts))

package github.com/corywalker/expreduce/expreduce/atoms
func (*Expression).Copy :: this -> r
  opt impl
  loop 1 copy:*Expression
    invariant fresh(copy) && len(copy.Parts) == len(this.Parts) && fresh(arr(copy.Parts)) && 0 <= off(copy.Parts)
    invariant [same] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> tv(at(copy.Parts, j)) == tat(old(tseq(this)), j - off(copy.Parts))
    invariant [wf] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> wf(at(copy.Parts, j))
    invariant [apart] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> nr(at(copy.Parts, j), copy)
    invariant [apart2] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> nr(at(copy.Parts, j), arr(copy.Parts))
    invariant [hashes] old(hc(this)) ==> (forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> hc(at(copy.Parts, j)))
    invariant [own] forall j:int :: {at(copy.Parts, j)} off(copy.Parts) <= j && j < off(copy.Parts) + $k ==> sep(at(copy.Parts, j), alloc_entry)
    invariant [unshared] forall j:int, l:int, q:int :: {nr(at(copy.Parts, j), q), nr(at(copy.Parts, l), q)} off(copy.Parts) <= j && j < l && l < off(copy.Parts) + $k && alloc_entry <= q ==> nr(at(copy.Parts, j), q) || nr(at(copy.Parts, l), q)
    invariant [src] wf(this) && tv(this) == old(tv(this)) && this.Parts == old(this.Parts)
    invariant [elems] forall j:int :: {at(this.Parts, j)} off(this.Parts) <= j && j < off(this.Parts) + len(this.Parts) ==> at(this.Parts, j) == old(at(this.Parts, j))
    invariant [reach] forall j:int, q:int :: {nr(at(copy.Parts, j), q)} off(copy.Parts) <= j && j < off(copy.Parts) + $k && q < alloc_entry && old(nr(this, q)) ==> nr(at(copy.Parts, j), q)
