# C02: hashes and structural identity.
# A running hash's ghost $h is everything written to it; c02_fnv is FNV-1a of that.
# c02_h is the hash a tree must have: of a tag for its kind and its contents.
package github.com/corywalker/expreduce/expreduce/atoms
logic c02_fnv(Str) Int
logic c02_gi(Int) Str
logic c02_gf(BF) Str
logic c02_le(Int) Str
logic c02_b8(Int,Int,Int,Int,Int,Int,Int,Int) Str
logic c02_hs(TSeq,Int) Str
logic c02_enc(Tree) Str
logic c02_h(Tree) Int
logic bf_sign(BF) Int
logic bf_abs(BF) BF
logic bf_f64(BF) F64
logic heap hcx((Array Int Int),(Array Int Int),(Array Int Int),Int) Bool
logic heap c02_okx((Array Int Int),(Array Int Int),Int) Bool
logic slen(Str) Int
logic c02_sel((Array Int Int),Int) Int

# every remembered hash within x fits what it belongs to
define hc(x) = hcx(comp("F:atoms.Integer.cachedHash"), comp("F:atoms.Symbol.cachedHash"), comp("F:atoms.Expression.CachedHash"), x)

smt c02_float bf_sign bf_abs bf_f64 {
(declare-fun bf_sign (BF) Int)
(declare-fun bf_abs (BF) BF)
(declare-fun bf_f64 (BF) F64)
(assert (forall ((b BF)) (! (f64_eq (bf_f64 b) (bf_f64 b)) :pattern ((bf_f64 b)))))
}
smt c02_enc c02_h c02_enc c02_hs c02_fnv c02_b8 c02_le c02_gi c02_gf {
(declare-fun c02_fnv (Str) Int)
(declare-fun c02_gi (Int) Str)
(declare-fun c02_gf (BF) Str)
(declare-fun c02_le (Int) Str)
(declare-fun c02_b8 (Int Int Int Int Int Int Int Int) Str)
(declare-fun c02_hs (TSeq Int) Str)
(declare-fun c02_enc (Tree) Str)
(declare-fun c02_h (Tree) Int)
}
smt c02_encdef c02_h c02_enc c02_hs c02_fnv c02_b8 c02_le c02_gi c02_gf {
(assert (forall ((a (Array Int Int)) (o Int)) (! (= (bytes_str a o 8) (c02_b8 (select a o) (select a (+ o 1)) (select a (+ o 2)) (select a (+ o 3)) (select a (+ o 4)) (select a (+ o 5)) (select a (+ o 6)) (select a (+ o 7)))) :pattern ((bytes_str a o 8)))))
(assert (forall ((t Tree)) (! (= (c02_h t) (c02_fnv (c02_enc t))) :pattern ((c02_h t)))))
(define-fun c02_fv ((b BF)) BF (ite (= (bf_sign b) 0) (bf_abs b) b))
(assert (forall ((n Int)) (! (= (c02_enc (TI n)) (scat (c02_b8 242 99 84 113 102 46 118 94) (c02_gi n))) :pattern ((c02_enc (TI n))))))
(assert (forall ((n Int) (d Int)) (! (= (c02_enc (TQ n d)) (scat (scat (scat (c02_b8 90 82 214 51 52 7 7 33) (c02_le (slen (c02_gi n)))) (c02_gi n)) (c02_gi d))) :pattern ((c02_enc (TQ n d))))))
(assert (forall ((b BF)) (! (= (c02_enc (TF b)) (scat (c02_b8 195 244 76 249 227 115 88 251) (c02_gf (c02_fv b)))) :pattern ((c02_enc (TF b))))))
(assert (forall ((a Tree) (b Tree)) (! (= (c02_enc (TC a b)) (scat (scat (c02_b8 82 226 223 39 113 26 149 249) (c02_le (c02_h a))) (c02_le (c02_h b)))) :pattern ((c02_enc (TC a b))))))
(assert (forall ((s Str)) (! (= (c02_enc (TY s)) (scat (c02_b8 107 10 247 23 33 221 163 156) s)) :pattern ((c02_enc (TY s))))))
(assert (forall ((s Str)) (! (= (c02_enc (TS s)) (scat (c02_b8 102 206 57 172 207 100 198 133) s)) :pattern ((c02_enc (TS s))))))
(assert (forall ((q TSeq)) (! (= (c02_enc (TE q)) (scat (c02_b8 72 5 244 86 5 210 69 30) (c02_hs q (tlen q)))) :pattern ((c02_enc (TE q))))))
(assert (forall ((q TSeq)) (! (= (c02_hs q 0) str_empty) :pattern ((c02_hs q 0)))))
(assert (forall ((q TSeq) (i Int) (j Int)) (! (=> (and (<= 0 i) (= j (+ i 1))) (= (c02_hs q j) (scat (c02_hs q i) (c02_le (c02_h (tat q i)))))) :pattern ((c02_hs q i) (c02_hs q j)))))
}
smt c02_hc hcx c02_okx c02_sel {
(define-fun c02_sel ((a (Array Int Int)) (x Int)) Int (select a x))
(declare-fun hcx (TH (Array Int Int) (Array Int Int) (Array Int Int) Int) Bool)
(declare-fun hcw (TH (Array Int Int) (Array Int Int) (Array Int Int) Int) Int)
(define-fun hcok ((S TH) (v Int) (x Int)) Bool (or (= v 0) (= v (c02_h (tv S x)))))
(define-fun hcl ((S TH) (i (Array Int Int)) (s (Array Int Int)) (e (Array Int Int)) (x Int)) Bool (and
  (=> (= (typeof x) @tag(*atoms.Integer)) (hcok S (select i x) x))
  (=> (= (typeof x) @tag(*atoms.Symbol)) (hcok S (select s x) x))
  (=> (= (typeof x) @tag(*atoms.Expression)) (hcok S (select e x) x))
  (=> (= (typeof x) @tag(*atoms.Complex)) (and (hcx S i s e (select (th_cre S) x)) (hcx S i s e (select (th_cim S) x))))))
(assert (forall ((S TH) (i (Array Int Int)) (s (Array Int Int)) (e (Array Int Int)) (x Int)) (! (=> (hcx S i s e x) (hcl S i s e x)) :pattern ((hcx S i s e x)))))
(assert (forall ((S TH) (i (Array Int Int)) (s (Array Int Int)) (e (Array Int Int)) (x Int) (j Int)) (! (let ((p (select (th_parts S) x))) (=> (and (hcx S i s e x) (= (typeof x) @tag(*atoms.Expression)) (<= (s_off p) j) (< j (+ (s_off p) (s_len p)))) (hcx S i s e (select (select (th_ex S) (s_arr p)) j)))) :pattern ((hcx S i s e x) (select (select (th_ex S) (s_arr (select (th_parts S) x))) j)))))
(assert (forall ((S TH) (i (Array Int Int)) (s (Array Int Int)) (e (Array Int Int)) (x Int)) (! (let ((w (hcw S i s e x))) (=> (and (wf S x) (hcl S i s e x) (=> (and (= (typeof x) @tag(*atoms.Expression)) (<= 0 w) (< w (s_len (select (th_parts S) x)))) (hcx S i s e (ep S x w)))) (hcx S i s e x))) :pattern ((hcx S i s e x)))))
(define-fun c02_okx ((S TH) (old (Array Int Int)) (new (Array Int Int)) (w Int)) Bool (or (= (select old w) (select new w)) (hcok S (select new w) w)))
; heaps that agree on what x reaches, apart from hashes remembered rightly since
(declare-fun hfw (TH (Array Int Int) (Array Int Int) (Array Int Int) TH (Array Int Int) (Array Int Int) (Array Int Int) Int) Int)
(assert (forall ((S TH) (i (Array Int Int)) (s (Array Int Int)) (e (Array Int Int)) (T TH) (i2 (Array Int Int)) (s2 (Array Int Int)) (e2 (Array Int Int)) (x Int)) (!
  (let ((w (hfw S i s e T i2 s2 e2 x))) (=> (and (cl S) (cl T) (wf S x) (hcx S i s e x)) (or
    (apart S T x)
    (and (< w (th_alloc S)) (wf S w) (not (nr S x w)) (or
       (and (= (typeof w) @tag(*atoms.Integer)) (not (c02_okx T i i2 w)))
       (and (= (typeof w) @tag(*atoms.Symbol)) (not (c02_okx T s s2 w)))
       (and (= (typeof w) @tag(*atoms.Expression)) (not (c02_okx T e e2 w)))))
    (hcx T i2 s2 e2 x)))) :pattern ((hcx S i s e x) (hcx T i2 s2 e2 x)))))
}

package hash/fnv
extern New64a :: -> r
  ensures r != nil && fresh(r) && r.$h == ""
package hash
extern Hash64.Write :: this, p -> n, err
  modifies this.$h
  opt noalloc
  ensures this.$h == scat(old(this.$h), bytes_str(data(p), off(p), len(p)))
extern Hash64.Sum64 :: this -> r
  pure
  ensures r == c02_fnv(this.$h)
package encoding/binary
extern littleEndian.PutUint64 :: le, b, v
  requires len(b) >= 8
  modifies elems(b)
  opt noalloc
  ensures bytes_str(data(b), off(b), 8) == c02_le(v)
package math/big
extern (*Int).GobEncode :: x -> b, err
  ensures fresh(arr(b)) && bytes_str(data(b), off(b), len(b)) == c02_gi(x.$val) && len(b) == slen(c02_gi(x.$val))
extern (*Float).GobEncode :: x -> b, err
  ensures fresh(arr(b)) && bytes_str(data(b), off(b), len(b)) == c02_gf(x.$val)
extern (*Float).Sign :: x -> r
  pure
  ensures r == bf_sign(x.$val)
extern (*Float).Abs :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == bf_abs(old(x.$val))
extern (*Float).Float64 :: x -> r, acc
  pure
  ensures r == bf_f64(x.$val)

package github.com/corywalker/expreduce/pkg/expreduceapi
iface Ex.Hash :: this -> r
  props C02
  requires wf(this) && hc(this)
  modifies any("F:atoms.Integer.cachedHash"), any("F:atoms.Symbol.cachedHash"), any("F:atoms.Expression.CachedHash")
  ensures [value] r == c02_h(old(tv(this)))
  ensures [int-remembered] forall w:int :: {c02_sel(comp("F:atoms.Integer.cachedHash"), w)} old(wf(w)) && is(w, *atoms.Integer) ==> c02_okx(old(comp("F:atoms.Integer.cachedHash")), comp("F:atoms.Integer.cachedHash"), w)
  ensures [sym-remembered] forall w:int :: {c02_sel(comp("F:atoms.Symbol.cachedHash"), w)} old(wf(w)) && is(w, *atoms.Symbol) ==> c02_okx(old(comp("F:atoms.Symbol.cachedHash")), comp("F:atoms.Symbol.cachedHash"), w)
  ensures [expr-remembered] forall w:int :: {c02_sel(comp("F:atoms.Expression.CachedHash"), w)} old(wf(w)) && is(w, *atoms.Expression) ==> c02_okx(old(comp("F:atoms.Expression.CachedHash")), comp("F:atoms.Expression.CachedHash"), w)

package github.com/corywalker/expreduce/expreduce/atoms
func (*Expression).Hash :: this -> r
  opt impl
  loop 1 h:hash.Hash64, b:[]byte
    invariant h.$h == scat(c02_b8(72, 5, 244, 86, 5, 210, 69, 30), c02_hs(old(tseq(this)), $k))
    invariant [src] wf(this) && tv(this) == old(tv(this)) && hc(this) && this.Parts == old(this.Parts)
    invariant [buffer] len(b) == 8 && fresh(arr(b)) && h != nil && fresh(h)
    invariant [int-remembered] forall w:int :: {c02_sel(comp("F:atoms.Integer.cachedHash"), w)} old(wf(w)) && is(w, *atoms.Integer) ==> c02_okx(old(comp("F:atoms.Integer.cachedHash")), comp("F:atoms.Integer.cachedHash"), w)
    invariant [sym-remembered] forall w:int :: {c02_sel(comp("F:atoms.Symbol.cachedHash"), w)} old(wf(w)) && is(w, *atoms.Symbol) ==> c02_okx(old(comp("F:atoms.Symbol.cachedHash")), comp("F:atoms.Symbol.cachedHash"), w)
    invariant [expr-remembered] forall w:int :: {c02_sel(comp("F:atoms.Expression.CachedHash"), w)} old(wf(w)) && is(w, *atoms.Expression) ==> c02_okx(old(comp("F:atoms.Expression.CachedHash")), comp("F:atoms.Expression.CachedHash"), w)

func IsSameQ :: a, b -> r
  props C02
  requires wf(a) && wf(b) && hc(a) && hc(b)
  modifies any("F:atoms.Integer.cachedHash"), any("F:atoms.Symbol.cachedHash"), any("F:atoms.Expression.CachedHash")
  ensures [by-hash] !(is(a, *Flt) && is(b, *Flt)) ==> (r <==> c02_h(old(tv(a))) == c02_h(old(tv(b))))
  ensures [same-real] is(a, *Flt) && is(b, *Flt) && old(tv(a)) == old(tv(b)) ==> r
  ensures [int-remembered] forall w:int :: {c02_sel(comp("F:atoms.Integer.cachedHash"), w)} old(wf(w)) && is(w, *atoms.Integer) ==> c02_okx(old(comp("F:atoms.Integer.cachedHash")), comp("F:atoms.Integer.cachedHash"), w)
  ensures [sym-remembered] forall w:int :: {c02_sel(comp("F:atoms.Symbol.cachedHash"), w)} old(wf(w)) && is(w, *atoms.Symbol) ==> c02_okx(old(comp("F:atoms.Symbol.cachedHash")), comp("F:atoms.Symbol.cachedHash"), w)
  ensures [expr-remembered] forall w:int :: {c02_sel(comp("F:atoms.Expression.CachedHash"), w)} old(wf(w)) && is(w, *atoms.Expression) ==> c02_okx(old(comp("F:atoms.Expression.CachedHash")), comp("F:atoms.Expression.CachedHash"), w)

func (*Expression).ClearHashes :: this
  props C02
  modifies this.EvaledHash, this.CachedHash
  ensures [forgotten] this.CachedHash == 0 && this.EvaledHash == 0

# Lemma: two trees with the same encoding are the same tree, unless two different
# subtrees at the same place have the same hash (a collision of FNV-1a).  So identity,
# decided by IsSameQ comparing hashes, is equality of structure up to such collisions.
# The codecs: gob and little-endian words are injective (math/big, encoding/binary).
smt c02_codec c02_codec_fact {
(declare-const c02_codec_fact Bool)
(assert (forall ((a Str) (b Str) (c Str) (d Str)) (! (=> (and (= (scat a b) (scat c d)) (= (slen a) (slen c))) (and (= a c) (= b d))) :pattern ((scat a b) (scat c d)))))
(assert (forall ((a Int) (b Int) (c Int) (d Int) (e Int) (f Int) (g Int) (h Int)) (! (= (slen (c02_b8 a b c d e f g h)) 8) :pattern ((c02_b8 a b c d e f g h)))))
(declare-fun c02_b8x (Str) Int)
(assert (forall ((a Int) (b Int) (c Int) (d Int) (e Int) (f Int) (g Int) (h Int)) (! (= (c02_b8x (c02_b8 a b c d e f g h)) a) :pattern ((c02_b8 a b c d e f g h)))))
(assert (forall ((a Int)) (! (= (slen (c02_le a)) 8) :pattern ((c02_le a)))))
(declare-fun c02_lex (Str) Int)
(assert (forall ((a Int)) (! (=> (and (<= 0 a) (< a 18446744073709551616)) (= (c02_lex (c02_le a)) a)) :pattern ((c02_le a)))))
(assert (forall ((s Str)) (! (and (<= 0 (c02_fnv s)) (< (c02_fnv s) 18446744073709551616)) :pattern ((c02_fnv s)))))
(declare-fun c02_gix (Str) Int)
(assert (forall ((a Int)) (! (= (c02_gix (c02_gi a)) a) :pattern ((c02_gi a)))))
(declare-fun c02_gfx (Str) BF)
(assert (forall ((a BF)) (! (= (c02_gfx (c02_gf a)) a) :pattern ((c02_gf a)))))
}
lemma c02_hsfacts props C02 {
(assert (= c02_codec_fact c02_codec_fact))
(declare-const q TSeq) (declare-const k Int)
(assert (<= 0 k)) (assert (= (slen (c02_hs q k)) (* 8 k)))
(assert (not (= (slen (c02_hs q (+ k 1))) (* 8 (+ k 1)))))
---
(assert (= c02_codec_fact c02_codec_fact))
(declare-const q TSeq) (assert (not (= (slen (c02_hs q 0)) 0)))
---
(assert (= c02_codec_fact c02_codec_fact))
(declare-const q TSeq) (declare-const p TSeq) (declare-const k Int)
(assert (<= 0 k)) (assert (= (slen (c02_hs q k)) (* 8 k))) (assert (= (slen (c02_hs p k)) (* 8 k)))
(assert (= (c02_hs q (+ k 1)) (c02_hs p (+ k 1))))
(assert (not (and (= (c02_hs q k) (c02_hs p k)) (= (c02_h (tat q k)) (c02_h (tat p k))))))
}
smt c02_hsfacts c02_hsfacts_fact {
(declare-const c02_hsfacts_fact Bool)
(assert (forall ((q TSeq) (k Int)) (! (=> (<= 0 k) (= (slen (c02_hs q k)) (* 8 k))) :pattern ((c02_hs q k)))))
(assert (forall ((q TSeq) (p TSeq) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k) (= (c02_hs q k) (c02_hs p k))) (= (c02_h (tat q i)) (c02_h (tat p i)))) :pattern ((c02_hs q k) (c02_hs p k) (tat q i)))))
}
lemma c02_identity props C02 {
(assert (= c02_codec_fact c02_hsfacts_fact))
(declare-const q TSeq) (declare-const p TSeq)
(assert (<= 0 (tlen q))) (assert (<= 0 (tlen p)))
(assert (= (c02_enc (TE q)) (c02_enc (TE p))))
(assert (forall ((i Int)) (! (=> (= (c02_h (tat q i)) (c02_h (tat p i))) (= (tat q i) (tat p i))) :pattern ((tat q i)))))
(assert (not (= q p)))
---
(assert (= c02_codec_fact c02_hsfacts_fact))
(declare-const a Tree) (declare-const b Tree) (declare-const c Tree) (declare-const d Tree)
(assert (= (c02_enc (TC a b)) (c02_enc (TC c d))))
(assert (=> (= (c02_h a) (c02_h c)) (= a c))) (assert (=> (= (c02_h b) (c02_h d)) (= b d)))
(assert (not (and (= a c) (= b d))))
---
(assert (= c02_codec_fact c02_hsfacts_fact))
(declare-const a Int) (declare-const b Int) (declare-const c Int) (declare-const d Int)
(assert (< (slen (c02_gi a)) 18446744073709551616)) (assert (< (slen (c02_gi c)) 18446744073709551616))
(assert (= (c02_enc (TQ a b)) (c02_enc (TQ c d))))
(assert (not (and (= a c) (= b d))))
---
(assert (= c02_codec_fact c02_hsfacts_fact))
(declare-const a Int) (declare-const b Int)
(assert (= (c02_enc (TI a)) (c02_enc (TI b)))) (assert (not (= a b)))
---
(assert (= c02_codec_fact c02_hsfacts_fact))
(declare-const a Str) (declare-const b Str)
(assert (or (= (c02_enc (TY a)) (c02_enc (TY b))) (= (c02_enc (TS a)) (c02_enc (TS b))))) (assert (not (= a b)))
---
(assert (= c02_codec_fact c02_hsfacts_fact))
(declare-const a BF) (declare-const b BF)
(assert (= (c02_enc (TF a)) (c02_enc (TF b)))) (assert (not (= (c02_fv a) (c02_fv b))))
---
(assert (= c02_codec_fact c02_hsfacts_fact))
(declare-const i Int) (declare-const n Int) (declare-const d Int) (declare-const f BF) (declare-const c1 Tree) (declare-const c2 Tree) (declare-const y Str) (declare-const z Str) (declare-const q TSeq)
; seven kinds, any two different kinds have different encodings
(declare-fun kt (Int) Tree)
(assert (= (kt 1) (TI i))) (assert (= (kt 2) (TQ n d))) (assert (= (kt 3) (TF f))) (assert (= (kt 4) (TC c1 c2))) (assert (= (kt 5) (TY y))) (assert (= (kt 6) (TS z))) (assert (= (kt 7) (TE q)))
(assert (not (distinct (c02_enc (kt 1)) (c02_enc (kt 2)) (c02_enc (kt 3)) (c02_enc (kt 4)) (c02_enc (kt 5)) (c02_enc (kt 6)) (c02_enc (kt 7)))))
}
smt c02_identity c02_identity_fact {
(declare-const c02_identity_fact Bool)
}
