# C06/C07: the set of bindings (PDManager)
package github.com/corywalker/expreduce/expreduce/matcher
define pd_has(p,k) = has(p.patternDefined, k)
define pd_get(p,k) = p.patternDefined[k]

func EmptyPD :: -> r
  props C06 C07
  ensures [empty] r != nil && fresh(r) && r.patternDefined == nil

func copyPD :: orig -> r
  props C06 C07
  requires orig != nil
  ensures [own] r != nil && fresh(r) && (r.patternDefined == nil || fresh(r.patternDefined))
  ensures [names] forall k:string :: {pd_has(r, k)} pd_has(r, k) <==> pd_has(orig, k)
  ensures [values] forall k:string :: {pd_get(r, k)} pd_has(r, k) ==> pd_get(r, k) == pd_get(orig, k)
  loop 1
    invariant [own] dest.patternDefined != nil && fresh(dest.patternDefined)
    invariant [names] forall k:string :: {pd_has(dest, k)} pd_has(dest, k) <==> visited(k)
    invariant [values] forall k:string :: {pd_get(dest, k)} pd_has(dest, k) ==> pd_get(dest, k) == pd_get(orig, k)
    invariant [from] forall k:string :: {visited(k)} visited(k) ==> pd_has(orig, k)

func (*PDManager).lazyMakeMap :: pm
  props C06 C07
  requires pm != nil
  modifies pm.patternDefined
  ensures [map] pm.patternDefined != nil
  ensures [kept] old(pm.patternDefined) != nil ==> pm.patternDefined == old(pm.patternDefined)
  ensures [empty] old(pm.patternDefined) == nil ==> fresh(pm.patternDefined) && (forall k:string :: !pd_has(pm, k))

func (*PDManager).Define :: pm, name, val
  props C06 C07
  requires pm != nil
  modifies pm.patternDefined, map(pm.patternDefined)
  ensures [defined] pd_has(pm, name) && pd_get(pm, name) == val
  ensures [others] forall k:string :: {pd_has(pm, k)} k != name ==> (pd_has(pm, k) <==> old(pd_has(pm, k)))
  ensures [others-values] forall k:string :: {pd_get(pm, k)} k != name && pd_has(pm, k) ==> pd_get(pm, k) == old(pd_get(pm, k))

func (*PDManager).update :: pm, toAdd
  props C06 C07
  requires pm != nil && toAdd != nil
  requires pm.patternDefined == nil || pm.patternDefined != toAdd.patternDefined
  modifies pm.patternDefined, map(pm.patternDefined)
  ensures [names] forall k:string :: {pd_has(pm, k)} pd_has(pm, k) <==> old(pd_has(pm, k)) || pd_has(toAdd, k)
  ensures [added] forall k:string :: {pd_get(pm, k)} pd_has(toAdd, k) ==> pd_get(pm, k) == pd_get(toAdd, k)
  ensures [kept] forall k:string :: {pd_get(pm, k)} pd_has(pm, k) && !pd_has(toAdd, k) ==> pd_get(pm, k) == old(pd_get(pm, k))
  loop 1
    invariant [map] (old(pm.patternDefined) != nil ==> pm.patternDefined == old(pm.patternDefined)) && (old(pm.patternDefined) == nil ==> pm.patternDefined == nil || fresh(pm.patternDefined))
    invariant [names] forall k:string :: {pd_has(pm, k)} pd_has(pm, k) <==> old(pd_has(pm, k)) || visited(k)
    invariant [added] forall k:string :: {pd_get(pm, k)} visited(k) ==> pd_get(pm, k) == pd_get(toAdd, k)
    invariant [kept] forall k:string :: {pd_get(pm, k)} pd_has(pm, k) && !visited(k) ==> pd_get(pm, k) == old(pd_get(pm, k))
    invariant [from] forall k:string :: {visited(k)} visited(k) ==> pd_has(toAdd, k)

func (*PDManager).len :: pm -> n
  props C06 C07
  requires pm != nil
  pure
  ensures [zero] n == 0 ==> (forall k:string :: !pd_has(pm, k))
  ensures n >= 0
