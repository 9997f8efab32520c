From eca4047694b9ec61035dd77e1ac6c45c1d8de3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 01/29] fix: do not modify shared integers when reducing a
 Rational

---
 expreduce/eval.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index c7276d3..eadc19f 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -297,14 +297,16 @@ func (es *EvalState) evalRational(this *atoms.Rational) expreduceapi.Ex {
 		return atoms.NewInteger(absNum.Neg(absNum))
 	}
 
+	// The original numerator and denominator might be shared with other
+	// expressions, so do not modify them in place.
 	if !negateRes {
-		this.Num.Set(absNum)
-		this.Den.Set(absDen)
+		this.Num = absNum
+		this.Den = absDen
 		this.SetNeedsEval(false)
 		return this
 	}
-	this.Num.Set(absNum.Neg(absNum))
-	this.Den.Set(absDen)
+	this.Num = absNum.Neg(absNum)
+	this.Den = absDen
 	this.SetNeedsEval(false)
 	return this
 }
-- 
2.43.0


From 1f58c8ddb2af26061706b9baf50e22651638de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 02/29] fix: do not modify the argument of Factorial

---
 expreduce/builtin_combinatorics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_combinatorics.go b/expreduce/builtin_combinatorics.go
index 3e3747e..d37bb0d 100644
--- a/expreduce/builtin_combinatorics.go
+++ b/expreduce/builtin_combinatorics.go
@@ -97,7 +97,7 @@ func factorial(n *big.Int) (result *big.Int) {
 		result.Set(n)
 		var one big.Int
 		one.SetInt64(1)
-		result.Mul(result, factorial(n.Sub(n, &one)))
+		result.Mul(result, factorial(one.Sub(n, &one)))
 	}
 	return
 }
-- 
2.43.0


From 282f54bc0f2998343441100c45321ad92a75649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 03/29] fix: resolve the stderr stream by name

---
 expreduce/streammanager/streammanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/streammanager/streammanager.go b/expreduce/streammanager/streammanager.go
index 57ff85d..d2ae21b 100644
--- a/expreduce/streammanager/streammanager.go
+++ b/expreduce/streammanager/streammanager.go
@@ -33,7 +33,7 @@ func (sm streamManagerImpl) fillMissingIndex(key *streamKey) {
 	if key.id == -1 {
 		if key.name == "stdout" {
 			key.id = 1
-		} else if key.name == "stdin" {
+		} else if key.name == "stderr" {
 			key.id = 2
 		}
 	}
-- 
2.43.0


From 79ae856cc543f5165dfae3009745c09bf9117e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 04/29] fix: keep the counts when merging time counters

---
 expreduce/timecounter/timecounter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expreduce/timecounter/timecounter.go b/expreduce/timecounter/timecounter.go
index 78cc356..98eb67c 100644
--- a/expreduce/timecounter/timecounter.go
+++ b/expreduce/timecounter/timecounter.go
@@ -28,7 +28,8 @@ func (tc *timeCounter) addTime(key string, elapsed float64) {
 
 func (tc *timeCounter) update(other *timeCounter) {
 	for k, v := range other.times {
-		tc.addTime(k, v)
+		tc.times[k] += v
+		tc.counts[k] += other.counts[k]
 	}
 }
 
-- 
2.43.0


From be4fa06377de91170d916a02f9c47cc0d8ada617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 05/29] fix: support negative steps in iterators

---
 expreduce/iterspec/iterspec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expreduce/iterspec/iterspec.go b/expreduce/iterspec/iterspec.go
index 65931eb..483ef2a 100644
--- a/expreduce/iterspec/iterspec.go
+++ b/expreduce/iterspec/iterspec.go
@@ -130,6 +130,10 @@ func (isr *iterSpecRange) Next() {
 }
 
 func (isr *iterSpecRange) Cont() bool {
+	if atoms.ExOrder(isr.step, atoms.NewInt(0)) > 0 {
+		// The step is negative, so we count down to iMax.
+		return atoms.ExOrder(isr.iMax, isr.curr) >= 0
+	}
 	return atoms.ExOrder(isr.curr, isr.iMax) >= 0
 }
 
-- 
2.43.0


From ce57509645782dd5a5596003f68e466aff33ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 06/29] fix: restore the variables of Do when leaving early

---
 expreduce/builtin_flowcontrol.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index 43c759d..2199114 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -189,9 +189,11 @@ func getFlowControlDefinitions() (defs []Definition) {
 						mis.DefineCurrent(es)
 						res := es.Eval(this.GetParts()[1].DeepCopy())
 						if es.HasThrown() {
+							mis.RestoreVarSnapshot(es)
 							return es.Thrown()
 						}
 						if asReturn, isReturn := atoms.HeadAssertion(res, "System`Return"); isReturn {
+							mis.RestoreVarSnapshot(es)
 							if len(asReturn.GetParts()) < 2 {
 								return atoms.NewSymbol("System`Null")
 							}
-- 
2.43.0


From 3d9e3a1f328516e21521b1b13988fe58312d13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 07/29] fix: separate numerator and denominator when hashing a
 Rational

---
 expreduce/atoms/ex_rational.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expreduce/atoms/ex_rational.go b/expreduce/atoms/ex_rational.go
index 28d67ae..180e1d8 100644
--- a/expreduce/atoms/ex_rational.go
+++ b/expreduce/atoms/ex_rational.go
@@ -1,6 +1,7 @@
 package atoms
 
 import (
+	"encoding/binary"
 	"fmt"
 	"hash/fnv"
 	"math/big"
@@ -80,6 +81,10 @@ func (thisRational *Rational) Hash() uint64 {
 	h := fnv.New64a()
 	h.Write([]byte{90, 82, 214, 51, 52, 7, 7, 33})
 	nBytes, _ := thisRational.Num.GobEncode()
+	// Write the length to separate the numerator from the denominator.
+	var nLen [8]byte
+	binary.LittleEndian.PutUint64(nLen[:], uint64(len(nBytes)))
+	h.Write(nLen[:])
 	h.Write(nBytes)
 	dBytes, _ := thisRational.Den.GobEncode()
 	h.Write(dBytes)
-- 
2.43.0


From 717acc1f9f7c2e705a056a2c19f82fa315137056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 08/29] fix: do not keep pattern bindings of failed
 alternatives

---
 expreduce/matcher/matchq.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/expreduce/matcher/matchq.go b/expreduce/matcher/matchq.go
index be537ce..80d23ae 100644
--- a/expreduce/matcher/matchq.go
+++ b/expreduce/matcher/matchq.go
@@ -55,13 +55,13 @@ func NewMatchIter(
 	if patternHead == "System`Except" {
 		except := patExpr
 		if len(except.GetParts()) == 2 {
-			matchq, _ := IsMatchQ(a, except.GetParts()[1], pm, es)
+			matchq, _ := IsMatchQ(a, except.GetParts()[1], copyPD(pm), es)
 			if !matchq {
 				return &dummyMatchIter{pm}, true
 			}
 			return nil, false
 		} else if len(except.GetParts()) == 3 {
-			matchq, _ := IsMatchQ(a, except.GetParts()[1], pm, es)
+			matchq, _ := IsMatchQ(a, except.GetParts()[1], copyPD(pm), es)
 			if !matchq {
 				matchqb, newPm := IsMatchQ(a, except.GetParts()[2], pm, es)
 				if matchqb {
@@ -77,7 +77,9 @@ func NewMatchIter(
 			// because MatchQ[{a, b}, {a_, k | a_}] was returning True, causing
 			// problems in some of the boolean patterns. Might need to make
 			// similar changes to the other pattern clauses.
-			matchq, newPD := IsMatchQ(a, alt, pm, es)
+			// Work on a copy such that a failed alternative does not leave its
+			// bindings behind.
+			matchq, newPD := IsMatchQ(a, alt, copyPD(pm), es)
 			if matchq {
 				return &dummyMatchIter{newPD}, true
 			}
-- 
2.43.0


From d3341daab3f2394ad86a34cecaaccfa42af9eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 09/29] fix: an empty pattern sequence does not match a
 non-empty one

With no slots to fill, the allocation iterator reported the empty allocation
even when components remained, so MatchQ[f[a], f[]] gave True (and the
orderless iterator indexed past the end of the form list).
---
 expreduce/matcher/allocations.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expreduce/matcher/allocations.go b/expreduce/matcher/allocations.go
index 113bc6c..7ba789f 100644
--- a/expreduce/matcher/allocations.go
+++ b/expreduce/matcher/allocations.go
@@ -29,6 +29,10 @@ func (ai *allocIter) next() bool {
 			ai.alloc[p.currForm-1] = p.currFormI
 		}
 		if p.currForm >= len(ai.forms) {
+			// Without any form there is nowhere to put remaining components.
+			if p.remaining > 0 {
+				continue
+			}
 			return true
 		}
 		// If we are on the last form, we can check directly if the last form
-- 
2.43.0


From 6a0bc10bf1ae602f5f39765eabc67c11435579a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:27 +0000
Subject: [PATCH 10/29] fix: order numbers that round to the same real by their
 exact value

---
 expreduce/atoms/order.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/expreduce/atoms/order.go b/expreduce/atoms/order.go
index ba6e804..aff7658 100644
--- a/expreduce/atoms/order.go
+++ b/expreduce/atoms/order.go
@@ -1,6 +1,8 @@
 package atoms
 
 import (
+	"math/big"
+
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
@@ -42,6 +44,23 @@ func exprToN(e expreduceapi.Ex) expreduceapi.Ex {
 	return e
 }
 
+// exactRealPart gives the value of a finite number, or of its real part.
+func exactRealPart(e expreduceapi.Ex) *big.Rat {
+	if asComplex, isComplex := e.(*Complex); isComplex {
+		e = asComplex.Re
+	}
+	res := big.NewRat(0, 1)
+	switch n := e.(type) {
+	case *Integer:
+		res.SetInt(n.Val)
+	case *Rational:
+		res.SetFrac(n.Num, n.Den)
+	case *Flt:
+		n.Val.Rat(res)
+	}
+	return res
+}
+
 func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 	// Support Flt, Integer, Rational, Expression, Symbol
 
@@ -66,7 +85,6 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 		return int64(bAsInteger.Val.Cmp(aAsInteger.Val))
 	}
 	// Merge Integer and Rational into Flt
-	// TODO: possible precision, round off issue here.
 	if aIsInteger {
 		aAsFlt, aIsFlt = IntegerToFlt(aAsInteger)
 	}
@@ -88,6 +106,10 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 
 	if aIsFlt && bIsFlt {
 		initCmp := int64(bAsFlt.Val.Cmp(aAsFlt.Val))
+		if initCmp == 0 && !aAsFlt.Val.IsInf() {
+			// Different numbers can round to the same Flt.
+			initCmp = int64(exactRealPart(b).Cmp(exactRealPart(a)))
+		}
 		if initCmp == 0 && (aIsInteger && !bIsInteger) {
 			return 1
 		}
-- 
2.43.0


From 58cb552606e0fd62ac453540361bd233e1931129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:02 +0000
Subject: [PATCH 11/29] fix: do not compare the head of a product with a factor

---
 expreduce/atoms/order.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/atoms/order.go b/expreduce/atoms/order.go
index aff7658..3c49c81 100644
--- a/expreduce/atoms/order.go
+++ b/expreduce/atoms/order.go
@@ -171,7 +171,7 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 		}
 		ai := len(aAsExp.GetParts()) - 1
 		bi := len(bAsExp.GetParts()) - 1
-		for ai >= 0 && bi >= 0 {
+		for ai >= 1 && bi >= 1 {
 			aPart, bPart := aAsExp.GetParts()[ai], bAsExp.GetParts()[bi]
 			ai, bi = ai-1, bi-1
 			if NumberQ(aPart) && NumberQ(bPart) {
-- 
2.43.0


From 4de0efc2a1f071bdaa5142a5b3b565a6a469c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 12/29] fix: end a descending iteration when its evaluation was
 left by Throw

---
 expreduce/iterspec/iterspec.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expreduce/iterspec/iterspec.go b/expreduce/iterspec/iterspec.go
index 483ef2a..1e32431 100644
--- a/expreduce/iterspec/iterspec.go
+++ b/expreduce/iterspec/iterspec.go
@@ -131,8 +131,9 @@ func (isr *iterSpecRange) Next() {
 
 func (isr *iterSpecRange) Cont() bool {
 	if atoms.ExOrder(isr.step, atoms.NewInt(0)) > 0 {
-		// The step is negative, so we count down to iMax.
-		return atoms.ExOrder(isr.iMax, isr.curr) >= 0
+		// The step is negative, so we count down to iMax. The current value is
+		// not a number when something was thrown while evaluating.
+		return atoms.NumberQ(isr.curr) && atoms.ExOrder(isr.iMax, isr.curr) >= 0
 	}
 	return atoms.ExOrder(isr.curr, isr.iMax) >= 0
 }
-- 
2.43.0


From 3272c2ac135abdf59ac4ae109784fb282d75e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:34 +0000
Subject: [PATCH 13/29] fix: forget the remembered hash of Min/Max arguments
 after rewriting them

---
 expreduce/builtin_comparison.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expreduce/builtin_comparison.go b/expreduce/builtin_comparison.go
index c08b0c7..28b27eb 100644
--- a/expreduce/builtin_comparison.go
+++ b/expreduce/builtin_comparison.go
@@ -32,6 +32,8 @@ func extremaFunction(
 		sort.Sort(this)
 	}
 	this.GetParts()[0] = origHead
+	// The parts were changed after the comparison above remembered a hash.
+	this.ClearHashes()
 
 	if len(this.GetParts()) == 1 {
 		if fnType == maxFn {
-- 
2.43.0


From ec169a706882388c577793aafcede9994c0cbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 14/29] fix: hash a real by its value, not by how it was
 rounded

---
 expreduce/atoms/ex_real.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expreduce/atoms/ex_real.go b/expreduce/atoms/ex_real.go
index f502e4e..e09cd00 100644
--- a/expreduce/atoms/ex_real.go
+++ b/expreduce/atoms/ex_real.go
@@ -92,7 +92,12 @@ func (flt *Flt) NeedsEval() bool {
 func (flt *Flt) Hash() uint64 {
 	h := fnv.New64a()
 	h.Write([]byte{195, 244, 76, 249, 227, 115, 88, 251})
-	bytes, _ := flt.Val.GobEncode()
+	// Only the value counts, not how it was rounded or the sign of a zero.
+	val := new(big.Float).Set(flt.Val)
+	if val.Sign() == 0 {
+		val.Abs(val)
+	}
+	bytes, _ := val.GobEncode()
 	h.Write(bytes)
 	return h.Sum64()
 }
-- 
2.43.0


From 52f19cb8a645b226b5484a9391dc16166ac67c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 15/29] fix: evaluate shared expressions without changing them
 in place

---
 expreduce/eval.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index eadc19f..8afa018 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -142,12 +142,19 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			}
 			oldHash := curr.GetParts()[i].Hash()
 			//fmt.Println(curr, i)
-			curr.GetParts()[i] = es.Eval(curr.GetParts()[i])
+			evaluatedPart := es.Eval(curr.GetParts()[i])
 			if es.HasThrown() {
 				return es.Thrown()
 			}
-			if oldHash != curr.GetParts()[i].Hash() {
-				curr.CachedHash = 0
+			if evaluatedPart != curr.GetParts()[i] {
+				// Expressions might be shared (a held value, an expression
+				// being matched). Change a copy.
+				curr = atoms.ShallowCopy(curr)
+				curr.GetParts()[i] = evaluatedPart
+				if oldHash != evaluatedPart.Hash() {
+					curr.CachedHash = 0
+				}
+				currEx = curr
 			}
 			if es.GetTrace() != nil && !es.IsFrozen() {
 				if len(es.GetTrace().GetParts()) > 2 {
@@ -199,9 +206,11 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			if attrs.Flat {
 				curr = mergeSequences(curr, es, headSym.Name, false)
 			}
-			if attrs.Orderless {
+			if attrs.Orderless && !sort.IsSorted(curr) {
+				curr = atoms.ShallowCopy(curr)
 				sort.Sort(curr)
 				curr.CachedHash = 0
+				currEx = curr
 			}
 			if attrs.Listable {
 				var changed bool
-- 
2.43.0


From 21e2842a43619ff6e5cd42154af1fb6cf9a29cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 16/29] fix: a blank with a compound or string head takes one
 argument of a flat expression

---
 expreduce/matcher/parse_form.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/expreduce/matcher/parse_form.go b/expreduce/matcher/parse_form.go
index baf14e6..1c62b8e 100644
--- a/expreduce/matcher/parse_form.go
+++ b/expreduce/matcher/parse_form.go
@@ -117,14 +117,12 @@ func parseForm(
 		endI = maxInt
 		if len(blank.GetParts()) >= 2 {
 			sym, isSym := blank.GetParts()[1].(*atoms.Symbol)
-			if isSym {
-				// If we have a pattern like k__Plus
-				if sym.Name == sequenceHead {
-					form = atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`Blank")})
-					startI = 2
-				} else {
-					endI = 1
-				}
+			// If we have a pattern like k__Plus
+			if isSym && sym.Name == sequenceHead {
+				form = atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`Blank")})
+				startI = 2
+			} else {
+				endI = 1
 			}
 		}
 	} else if isBlank {
-- 
2.43.0


From 48213ad4771db965cbecc44465c6427e3c5579dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:35 +0000
Subject: [PATCH 17/29] fix: a number does not match when the condition on the
 pattern fails

---
 expreduce/matcher/matchq.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/matcher/matchq.go b/expreduce/matcher/matchq.go
index 80d23ae..db25788 100644
--- a/expreduce/matcher/matchq.go
+++ b/expreduce/matcher/matchq.go
@@ -145,6 +145,7 @@ func NewMatchIter(
 					}
 				}
 			}
+			return nil, false
 		}
 	} else if patternHead == "System`Optional" {
 		optional := patExpr
-- 
2.43.0


From 6a77c9b9380b578e5b856e91c7b0ec0635220873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:51 +0000
Subject: [PATCH 18/29] fix: keep the head when splicing sequences into an
 expression

An expression whose head is a Sequence had the head spliced like an argument,
and Sequence[][] crashed.
---
 expreduce/eval.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 8afa018..2fc2da0 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -373,7 +373,7 @@ func mergeSequences(
 	shouldEval bool,
 ) *atoms.Expression {
 	encounteredSeq := false
-	for _, e := range this.GetParts() {
+	for _, e := range this.GetParts()[1:] {
 		if _, isseq := atoms.HeadAssertion(e, headStr); isseq {
 			encounteredSeq = true
 			break
@@ -385,12 +385,12 @@ func mergeSequences(
 		return this
 	}
 
-	// TODO: I should not be attempting to merge the head if it happens to be
-	// a Sequence type. This is very similar to the flatten function. Perhaps
-	// it should be combined. This version is not recursive, and it does not
-	// accept level depths. It is a specific case of Flatten.
-	res := atoms.NewEmptyExpression()
-	for _, e := range this.GetParts() {
+	// The head is kept as it is, even if it happens to be a Sequence type. This
+	// is very similar to the flatten function. Perhaps it should be combined.
+	// This version is not recursive, and it does not accept level depths. It is
+	// a specific case of Flatten.
+	res := atoms.NewExpression([]expreduceapi.Ex{this.GetParts()[0]})
+	for _, e := range this.GetParts()[1:] {
 		seq, isseq := atoms.HeadAssertion(e, headStr)
 		if isseq {
 			for _, seqPart := range seq.GetParts()[1:] {
-- 
2.43.0


From a042b91a48f5539d92d6dbc90e051ea2a49c6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:51 +0000
Subject: [PATCH 19/29] fix: flatten functions with the attribute Flat

The merged expression was dropped unless a definition applied to it: with
Attributes[fl]={Flat}, fl[a, fl[b, c]] stayed as it was.
---
 expreduce/eval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 2fc2da0..a38c00d 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -205,6 +205,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		if headIsSym {
 			if attrs.Flat {
 				curr = mergeSequences(curr, es, headSym.Name, false)
+				currEx = curr
 			}
 			if attrs.Orderless && !sort.IsSorted(curr) {
 				curr = atoms.ShallowCopy(curr)
-- 
2.43.0


From 6315a4c445773a3136ec10e4cef5ba86c17b9362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:51 +0000
Subject: [PATCH 20/29] fix: flatten all levels when the level does not fit a
 machine word

---
 expreduce/builtin_expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expreduce/builtin_expression.go b/expreduce/builtin_expression.go
index 7642fbe..54af601 100644
--- a/expreduce/builtin_expression.go
+++ b/expreduce/builtin_expression.go
@@ -178,7 +178,12 @@ func getExpressionDefinitions() (defs []Definition) {
 				if !isInt {
 					return this
 				}
-				level = int64(asInt.Val.Int64())
+				// A level beyond any depth stands for all levels.
+				if asInt.Val.IsInt64() {
+					level = asInt.Val.Int64()
+				} else if asInt.Val.Sign() < 0 {
+					level = 0
+				}
 			}
 			expr, isExpr := this.GetParts()[1].(expreduceapi.ExpressionInterface)
 			if !isExpr {
-- 
2.43.0


From 945e5acd8f731660e87aa4f69dae9ce07ad55a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 21/29] fix: do not hold the lock of a symbol while printing
 its rules

---
 expreduce/evalstate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 4d7c7f8..a51e738 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -560,14 +560,14 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 	newSpecificity := ruleSpecificity(heldLHS, rhs, name, es)
 	for i, dv := range es.defined.GetDef(name).Downvalues {
 		if dv.Specificity == 0 {
-			es.defined.LockKey(name)
+			// dv is a copy. Printing the rule may read the definitions, so
+			// the key must not be locked here.
 			dv.Specificity = ruleSpecificity(
 				dv.Rule.GetParts()[1],
 				dv.Rule.GetParts()[2],
 				name,
 				es,
 			)
-			es.defined.UnlockKey(name)
 		}
 		if dv.Specificity < newSpecificity {
 			newRule := atoms.NewExpression(
-- 
2.43.0


From 8dcbba9980689c9831f3bc8559d7b8b0e18d500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 22/29] fix: look up definitions that change while a rule is
 tried

---
 expreduce/evalstate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index a51e738..9d25b36 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -325,8 +325,9 @@ func (es *EvalState) GetDef(
 		return nil, false, nil
 	}
 	es.Debugf("Inside GetDef(\"%s\",%s)", name, lhs)
-	for i := range es.defined.GetDef(name).Downvalues {
-		def := es.defined.GetDef(name).Downvalues[i].Rule
+	// Trying a rule may change the definitions, for example in a condition.
+	for _, dv := range es.defined.GetDef(name).Downvalues {
+		def := dv.Rule
 
 		defStr, lhsDefStr := "", ""
 		started := int64(0)
-- 
2.43.0


From c9f4fac24c285b8c969366a0a24b226747fdbbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:41 +0000
Subject: [PATCH 23/29] fix: replace redefined rules instead of changing them
 in place

---
 expreduce/evalstate.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 9d25b36..40d9699 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -538,20 +538,24 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 		return
 	}
 
-	// Overwrite identical rules.
-	for _, dv := range es.defined.GetDef(name).Downvalues {
+	// Overwrite identical rules. The rules and the slice that holds them may be
+	// in use elsewhere, so they are replaced and not changed in place.
+	for i, dv := range es.defined.GetDef(name).Downvalues {
 		existingRule := dv.Rule
 		existingLHS := existingRule.GetParts()[1]
 		if atoms.IsSameQ(existingLHS, heldLHS) {
-			es.defined.LockKey(name)
 			existingRHSCond := maskNonConditional(existingRule.GetParts()[2])
 			newRHSCond := maskNonConditional(rhs)
 			if atoms.IsSameQ(existingRHSCond, newRHSCond) {
-				dv.Rule.GetParts()[2] = rhs
-				es.defined.UnlockKey(name)
+				tmp := es.defined.GetDef(name)
+				dv.Rule = atoms.NewExpression([]expreduceapi.Ex{
+					existingRule.GetParts()[0], existingLHS, rhs,
+				})
+				tmp.Downvalues = append([]expreduceapi.DownValue{}, tmp.Downvalues...)
+				tmp.Downvalues[i] = dv
+				es.defined.Set(name, tmp)
 				return
 			}
-			es.defined.UnlockKey(name)
 		}
 	}
 
@@ -575,7 +579,7 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 				[]expreduceapi.Ex{atoms.NewSymbol("System`Rule"), heldLHS, rhs},
 			)
 			tmp.Downvalues = append(
-				tmp.Downvalues[:i],
+				append([]expreduceapi.DownValue{}, tmp.Downvalues[:i]...),
 				append(
 					[]expreduceapi.DownValue{expreduceapi.DownValue{
 						Rule:        newRule,
-- 
2.43.0


From 3bb8d9efc644f179ca542548f8cc6a98ac01d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:44 +0000
Subject: [PATCH 24/29] fix: keep function calls as single operands of operator
 chains

---
 expreduce/parser/interp.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 7e0b241..a8a9131 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -309,6 +309,21 @@ var fullyAssocOps = map[wl.ExpressionCase]string{
 	42:                "Span",
 }
 
+// parserChainConv converts the left operand of an associative operator. A
+// function call such as Equal[a, b] is a single operand, as (a == b) is, and
+// not the beginning of the chain.
+func parserChainConv(expr *wl.Expression) expreduceapi.Ex {
+	lhs := parserExprConv(expr)
+	switch expr.Case {
+	case 32, 131, 132, 133: // a // f, f @ a, f[], f[a]
+		return atoms.NewExpression([]expreduceapi.Ex{
+			atoms.NewSymbol("Internal`Parens"),
+			lhs,
+		})
+	}
+	return lhs
+}
+
 func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 	if _, ok := terminals[expr.Case]; ok {
 		return parserTokenConv(expr.Token)
@@ -324,7 +339,7 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 	if head, ok := fullyAssocOps[expr.Case]; ok {
 		return fullyAssoc(
 			"System`"+head,
-			parserExprConv(expr.Expression),
+			parserChainConv(expr.Expression),
 			parserExprConv(expr.Expression2),
 		)
 	}
@@ -341,7 +356,7 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 	case 124:
 		return fullyAssoc(
 			"System`CompoundExpression",
-			parserExprConv(expr.Expression),
+			parserChainConv(expr.Expression),
 			atoms.NewSymbol("System`Null"),
 		)
 	case 123:
@@ -432,7 +447,7 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 	case 120:
 		return fullyAssoc(
 			"System`Plus",
-			parserExprConv(expr.Expression),
+			parserChainConv(expr.Expression),
 			atoms.NewExpression([]expreduceapi.Ex{
 				atoms.NewSymbol("System`Times"),
 				parserExprConv(expr.Expression2),
-- 
2.43.0


From 916d84f8bc1c9087f86c8e97c4d748b90b5c9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:21 +0000
Subject: [PATCH 25/29] fix: keep the opacity in effect when a colour directive
 follows it

---
 expreduce/graphics/graphics.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/expreduce/graphics/graphics.go b/expreduce/graphics/graphics.go
index cc71e02..886e0df 100644
--- a/expreduce/graphics/graphics.go
+++ b/expreduce/graphics/graphics.go
@@ -81,7 +81,6 @@ func setColor(colorExpr *atoms.Expression, color *drawing.Color) error {
 			color.B = intVal
 		}
 	}
-	color.A = 255
 	return nil
 }
 
-- 
2.43.0


From 8d79dd5e7a1cf889291d7621ba8b763d1301ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:14 +0000
Subject: [PATCH 26/29] fix: a rule whose right side is a Condition with fewer
 than two arguments no longer crashes

---
 expreduce/evalstate.go | 2 +-
 expreduce/replace.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 40d9699..7c909df 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -736,7 +736,7 @@ func (es *EvalState) ProcessTopLevelResult(
 
 func maskNonConditional(e expreduceapi.Ex) expreduceapi.Ex {
 	var res expreduceapi.Ex = atoms.NewSymbol("System`ExpreduceNonConditional")
-	if asHead, isHead := atoms.HeadAssertion(e, "System`Condition"); isHead {
+	if asHead, isHead := atoms.HeadAssertion(e, "System`Condition"); isHead && len(asHead.GetParts()) > 2 {
 		res = atoms.NewExpression([]expreduceapi.Ex{
 			atoms.NewSymbol("System`Condition"),
 			maskNonConditional(asHead.GetParts()[1]),
diff --git a/expreduce/replace.go b/expreduce/replace.go
index 09a709b..62f889a 100644
--- a/expreduce/replace.go
+++ b/expreduce/replace.go
@@ -122,7 +122,7 @@ func tryCondWithMatches(
 			}
 		}
 	}
-	if isCond {
+	if isCond && len(asCond.GetParts()) > 2 {
 		condRes := es.Eval(asCond.GetParts()[2])
 		condResSymbol, condResIsSymbol := condRes.(*atoms.Symbol)
 		if condResIsSymbol {
-- 
2.43.0


From 94985732b84eebb315822098f0458b015ea1f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:14 +0000
Subject: [PATCH 27/29] fix: assigning a list with an element that is not a
 rule to DownValues leaves the definitions alone

---
 expreduce/evalstate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 7c909df..8b1b5d4 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -406,6 +406,7 @@ func (es *EvalState) defineDownValues(sym *atoms.Symbol, rhs expreduceapi.Ex) {
 		}
 		if !isRule || len(rule.GetParts()) != 3 {
 			fmt.Println("Assignment to DownValues must be List of Rules.")
+			return
 		}
 		dvs = append(dvs, expreduceapi.DownValue{Rule: rule})
 	}
-- 
2.43.0


From 86ce4f98ec5b0db126bf04297161d2abec91047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:14 +0000
Subject: [PATCH 28/29] fix: Pattern, Optional and PatternTest with too few
 arguments no longer crash the matcher

---
 expreduce/matcher/blank.go      | 4 ++--
 expreduce/matcher/parse_form.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/expreduce/matcher/blank.go b/expreduce/matcher/blank.go
index e98e3b5..005dbfc 100644
--- a/expreduce/matcher/blank.go
+++ b/expreduce/matcher/blank.go
@@ -7,7 +7,7 @@ import (
 
 func isBlankTypeOnly(e expreduceapi.Ex) bool {
 	asPattern, patternOk := atoms.HeadAssertion(e, "System`Pattern")
-	if patternOk {
+	if patternOk && len(asPattern.GetParts()) > 2 {
 		_, blankOk := atoms.HeadAssertion(
 			asPattern.GetParts()[2],
 			"System`Blank",
@@ -43,7 +43,7 @@ func isBlankTypeCapturing(
 	// Similar to IsBlankType, but will capture target into es.patternDefined
 	// if there is a valid match.
 	asPattern, patternOk := atoms.HeadAssertion(e, "System`Pattern")
-	if patternOk {
+	if patternOk && len(asPattern.GetParts()) > 2 {
 		asBlank, blankOk := atoms.HeadAssertion(
 			asPattern.GetParts()[2],
 			"System`Blank",
diff --git a/expreduce/matcher/parse_form.go b/expreduce/matcher/parse_form.go
index 1c62b8e..cf80ab8 100644
--- a/expreduce/matcher/parse_form.go
+++ b/expreduce/matcher/parse_form.go
@@ -54,15 +54,18 @@ func parseForm(
 	// Calculate the min and max elements this component can match.
 	toParse := lhsComponent
 	optional, isOptional := atoms.HeadAssertion(toParse, "System`Optional")
+	isOptional = isOptional && len(optional.GetParts()) > 1
 	if isOptional {
 		toParse = optional.GetParts()[1]
 	}
 	patTest, isPatTest := atoms.HeadAssertion(toParse, "System`PatternTest")
+	isPatTest = isPatTest && len(patTest.GetParts()) > 2
 	if isPatTest {
 		toParse = patTest.GetParts()[1]
 	}
 	pat, isPat := atoms.HeadAssertion(toParse, "System`Pattern")
 	var patSym *atoms.Symbol
+	isPat = isPat && len(pat.GetParts()) > 2
 	if isPat {
 		var patIsSym bool
 		patSym, patIsSym = pat.GetParts()[1].(*atoms.Symbol)
-- 
2.43.0


From 4ba0e43ff54562d2e6189bc53597ac03e5939e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:14 +0000
Subject: [PATCH 29/29] fix: assigning to something that cannot have
 definitions leaves the session running

---
 expreduce/evalstate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 8b1b5d4..264173d 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -2,7 +2,6 @@ package expreduce
 
 import (
 	"fmt"
-	"log"
 	"os"
 	"os/signal"
 	"strings"
@@ -512,7 +511,7 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 			lhs,
 			"System`Verbatim",
 		)
-		if isVerbatimOp {
+		if isVerbatimOp && len(opExpr.GetParts()) > 1 {
 			opSym, opIsSym := opExpr.GetParts()[1].(*atoms.Symbol)
 			if opIsSym {
 				name = opSym.Name
@@ -520,7 +519,8 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 		}
 	}
 	if name == "" {
-		log.Fatalf("Trying to define an invalid lhs: %v", lhs)
+		fmt.Printf("Trying to define an invalid lhs: %v\n", lhs)
+		return
 	}
 
 	es.Debugf("Inside es.Define(\"%s\",%s,%s)", name, lhs, rhs)
-- 
2.43.0

