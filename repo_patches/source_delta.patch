From d4200303021298d45ee03621d56a2a007cfc5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 01/33] fix: decompose power-of-two, one and zero norm bounds
 with enough digits

---
 buckler/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/utils.go b/buckler/utils.go
index 54f2fcf..fb1c51e 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -8,8 +8,8 @@ func decomposeBase(x *big.Int) []*big.Int {
 	one := big.NewInt(1)
 
 	dcmpLen := x.BitLen()
-	if new(big.Int).Lsh(one, x.TrailingZeroBits()).Cmp(x) == 0 {
-		dcmpLen -= 1
+	if dcmpLen == 0 {
+		return []*big.Int{}
 	}
 
 	base := make([]*big.Int, dcmpLen)
-- 
2.43.0


From ae77fb8434012283c0c7f6ef43181b5810316273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 02/33] fix: batch arithmetic constraints with distinct powers
 of the challenge

---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4d2a4c1..2117e63 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -371,7 +371,7 @@ func (p *Prover[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint
 			}
 			p.polyEval.AddTo(eval, eval, term)
 		}
-		p.polyEval.ScalarMulTo(eval, eval, batchConst)
+		p.polyEval.ScalarMulTo(pOut, pOut, batchConst)
 		p.polyEval.AddTo(pOut, pOut, eval)
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8f6558d..a28631e 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -232,7 +232,7 @@ func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstrai
 			}
 			eval.Add(eval, term)
 		}
-		eval.Mul(eval, batchConst)
+		out.Mul(out, batchConst)
 		out.Add(out, eval)
 	}
 
-- 
2.43.0


From 25e269c0122649187c1c4cc42d208b52959ccec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 03/33] fix: verify sumcheck constraints against their claimed
 sums

---
 buckler/verifier.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index a28631e..65936cf 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -311,5 +311,15 @@ func (v *Verifier[E]) sumCheck(batchConst, sumCheckMaskEval, evalPoint, vanishEv
 	test.Add(test, rem)
 	test.Add(test, sumCheckMaskSum)
 
+	// The constant term of the remainder is the sum divided by rank.
+	sumBatch, sum := z.New(), z.New()
+	for i := range v.ctx.sumCheckSums {
+		sumBatch.Mul(sumBatch, batchConst)
+		sumBatch.Add(sumBatch, sum.SetBigInt(v.ctx.sumCheckSums[i]))
+	}
+	sumBatch.Mul(sumBatch, batchConst)
+	sumBatch.Mul(sumBatch, sum.Inverse(z.New().SetUint64(uint64(v.ctx.rank))))
+	test.Add(test, sumBatch)
+
 	return eval.Cmp(test) == 0
 }
-- 
2.43.0


From d11e6af4a255147f76963e699529689fff34881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 04/33] fix: reset the squared norm between two-norm
 constraints

---
 buckler/prover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 2117e63..4d19184 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -96,6 +96,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wData.pw[pwMaskID][i].SetInt64(1)
 		}
 
+		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
-- 
2.43.0


From 90ed9e4e01c64815be1925139e8c29e732c49025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 05/33] fix: allow several norm constraints on the same witness

---
 buckler/context.go | 14 +++++++++++---
 buckler/prover.go  |  8 ++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 8a4edef..7242330 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -35,9 +35,13 @@ type Context[E bignum.Uint[E]] struct {
 	linCheckers         []LinearChecker[E]
 	linCheckConstraints map[LinearChecker[E]][][2]uint64
 
+	// infDcmpInput maps the first digit of the decomposition to the decomposed witness.
+	infDcmpInput   map[uint64]uint64
 	infDcmpBound   map[uint64]*big.Int
 	infDcmpWitness map[uint64][]Witness[E]
 
+	// twoDcmpInput maps the decomposition of the squared norm to the constrained witness.
+	twoDcmpInput   map[uint64]uint64
 	twoDcmpBound   map[uint64]*big.Int
 	twoDcmpBase    map[uint64]PublicWitness[E]
 	twoDcmpMask    map[uint64]PublicWitness[E]
@@ -61,9 +65,11 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
 
+		infDcmpInput:   make(map[uint64]uint64),
 		infDcmpBound:   make(map[uint64]*big.Int),
 		infDcmpWitness: make(map[uint64][]Witness[E]),
 
+		twoDcmpInput:   make(map[uint64]uint64),
 		twoDcmpBound:   make(map[uint64]*big.Int),
 		twoDcmpBase:    make(map[uint64]PublicWitness[E]),
 		twoDcmpMask:    make(map[uint64]PublicWitness[E]),
@@ -135,7 +141,8 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 
 	dcmpBase := decomposeBase(bound)
 
-	id := witnessToID(w)
+	id := ctx.wCnt
+	ctx.infDcmpInput[id] = witnessToID(w)
 	wDcmp := make([]Witness[E], 0, len(dcmpBase))
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
@@ -171,7 +178,8 @@ func (ctx *Context[E]) AddSqTwoNormConstraint(w Witness[E], bound uint64) {
 func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	var z E
 
-	id := witnessToID(w)
+	id := ctx.wCnt
+	ctx.twoDcmpInput[id] = witnessToID(w)
 	wDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt += 1
 
@@ -212,7 +220,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.wCnt++
 
 	ctx.AddLinearConstraint(wProj, w, ctx.projChecker)
-	ctx.projWitness[witnessToID(w)] = wProj
+	ctx.projWitness[witnessToID(wProj)] = w
 
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
diff --git a/buckler/prover.go b/buckler/prover.go
index 4d19184..b3fd095 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -77,7 +77,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	for id, wDcmps := range p.ctx.infDcmpWitness {
 		base := decomposeBase(p.ctx.infDcmpBound[id])
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[p.ctx.infDcmpInput[id]][i].BigInt(bigCoeff)
 			dcmp := decomposeBig(bigCoeff, base, mod)
 			for j, wDcmp := range wDcmps {
 				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
@@ -98,7 +98,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[p.ctx.twoDcmpInput[id]][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
 			sqNm.Add(sqNm, mul)
 		}
@@ -176,8 +176,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			}
 		}
 
-		for id, wProj := range p.ctx.projWitness {
-			chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
+		for id, w := range p.ctx.projWitness {
+			chk.TransformTo(wData.w[id], wData.w[witnessToID(w)])
 		}
 
 		for id, wDcmp := range p.ctx.projInfDcmpWitness {
-- 
2.43.0


From 976052a55f427eba09935da0a0823e38b16ce77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 06/33] fix: constrain the digits of the projected witness in
 approximate norm constraints

---
 buckler/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index 7242330..ec04838 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -230,7 +230,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
 	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
-	// ctx.AddInfNormConstraint(wProjDcmp, 1)
+	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
 	ctx.wSecond = append(ctx.wSecond, wProj, wProjDcmp)
 }
-- 
2.43.0


From 906811f9d875705e37dae95c3465c4cd0897b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 07/33] fix: propagate errors when walking nested circuit
 fields

---
 buckler/compile.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6fe2285..01d1364 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -68,15 +68,21 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.firstWalk(v.Elem())
+			if err := w.firstWalk(v.Elem()); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.firstWalk(v.Field(i))
+			if err := w.firstWalk(v.Field(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.firstWalk(v.Index(i))
+			if err := w.firstWalk(v.Index(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -108,15 +114,21 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.prvWalk(prv, v.Elem(), pw, sw)
+			if err := w.prvWalk(prv, v.Elem(), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.prvWalk(prv, v.Field(i), pw, sw)
+			if err := w.prvWalk(prv, v.Field(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.prvWalk(prv, v.Index(i), pw, sw)
+			if err := w.prvWalk(prv, v.Index(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -140,15 +152,21 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.vrfWalk(vrf, v.Elem(), pw)
+			if err := w.vrfWalk(vrf, v.Elem(), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.vrfWalk(vrf, v.Field(i), pw)
+			if err := w.vrfWalk(vrf, v.Field(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.vrfWalk(vrf, v.Index(i), pw)
+			if err := w.vrfWalk(vrf, v.Index(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
-- 
2.43.0


From 6774a2607bf9d6ee169cee3554d6eb7e76843b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 08/33] fix: reject assignments with a different number of
 witnesses

---
 buckler/compile.go  | 10 ++++++++++
 buckler/context.go  |  8 ++++++++
 buckler/prover.go   |  3 +++
 buckler/verifier.go |  3 +++
 4 files changed, 24 insertions(+)

diff --git a/buckler/compile.go b/buckler/compile.go
index 01d1364..3a60da2 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -13,6 +13,7 @@ import (
 var (
 	errReadOnly     = fmt.Errorf("cannot set value")
 	errRankMismatch = fmt.Errorf("witness rank mismatch")
+	errCntMismatch  = fmt.Errorf("witness count mismatch")
 )
 
 func idToWitness[E bignum.Uint[E], W Witness[E] | PublicWitness[E]](id uint64) W {
@@ -95,6 +96,9 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= prv.ctx.pwInputCnt {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -103,6 +107,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		return nil
 
 	case reflect.TypeOf(Witness[E]{}):
+		if w.wCnt >= prv.ctx.wInputCnt {
+			return errCntMismatch
+		}
 		sw[w.wCnt] = v.Interface().(Witness[E])
 		if len(sw[w.wCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -141,6 +148,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= vrf.ctx.pwInputCnt {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != vrf.ctx.rank {
 			return errRankMismatch
diff --git a/buckler/context.go b/buckler/context.go
index ec04838..7e80dda 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -17,6 +17,11 @@ type Context[E bignum.Uint[E]] struct {
 	// wCnt is the number of witnesses.
 	wCnt uint64
 
+	// pwInputCnt is the number of public witnesses in the circuit.
+	pwInputCnt uint64
+	// wInputCnt is the number of witnesses in the circuit.
+	wInputCnt uint64
+
 	// wSecond are the witnesses in the second round.
 	wSecond []Witness[E]
 
@@ -61,6 +66,9 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		pwCnt: walker.pwCnt,
 		wCnt:  walker.wCnt,
 
+		pwInputCnt: walker.pwCnt,
+		wInputCnt:  walker.wCnt,
+
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
diff --git a/buckler/prover.go b/buckler/prover.go
index b3fd095..75e2b0b 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -55,6 +55,9 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	if err := wk.prvWalk(p, reflect.ValueOf(c), wData.pw, wData.w); err != nil {
 		return nil, err
 	}
+	if wk.pwCnt != p.ctx.pwInputCnt || wk.wCnt != p.ctx.wInputCnt {
+		return nil, errCntMismatch
+	}
 
 	for i := wk.pwCnt; i < p.ctx.pwCnt; i++ {
 		wData.pw[i] = make(PublicWitness[E], p.ctx.rank)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 65936cf..5e4dd9b 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -38,6 +38,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if err := wk.vrfWalk(v, reflect.ValueOf(c), pw); err != nil {
 		return false
 	}
+	if wk.pwCnt != v.ctx.pwInputCnt {
+		return false
+	}
 
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
-- 
2.43.0


From 2a6d95b6e9a81a2d960453724166bccd1f72cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 09/33] fix: bind public witnesses to the transcript

---
 buckler/prover.go   | 2 ++
 buckler/verifier.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 75e2b0b..0108d54 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -130,6 +130,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	for i := range wData.pw {
 		wData.pwEcd[i] = p.ecd.Encode(wData.pw[i])
 		wData.pwEcdNTT[i] = p.polyEval.NTT(wData.pwEcd[i])
+
+		oracle.Bind("projConst", wData.pwEcd[i].Marshal())
 	}
 
 	wData.wEcd = make([]*bigpoly.Poly[E], p.ctx.wCnt)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 5e4dd9b..052b644 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -74,6 +74,8 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	pwEcd := make([]*bigpoly.Poly[E], v.ctx.pwCnt)
 	for i := range pw {
 		pwEcd[i] = v.ecd.Encode(pw[i])
+
+		oracle.Bind("projConst", pwEcd[i].Marshal())
 	}
 
 	for i := range v.ctx.wCnt {
-- 
2.43.0


From 0305b7c5221f3a0d3787a6050c77b01d78c4cdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 10/33] fix: bind the claimed evaluations to the transcript

---
 jindo/prover.go   | 16 +++++++++++-----
 jindo/verifier.go |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 1e9642e..253cb73 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -217,12 +217,20 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
+	evals := make([]E, p.params.batch)
+	for i := 0; i < p.params.batch; i++ {
+		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
+	}
+
 	oracle := sha3.NewSHAKE128()
 	p.ck.WriteRawTo(oracle)
 	for i := range p.params.batch {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := range evals {
+		oracle.Write(evals[i].Marshal())
+	}
 
 	var batchOut, batch []ring.Poly
 
@@ -245,6 +253,9 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range evals {
+			oracle.Write(evals[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 
 		openBatch = NewOpening(p.params)
@@ -315,11 +326,6 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
-	evals := make([]E, p.params.batch)
-	for i := 0; i < p.params.batch; i++ {
-		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
-	}
-
 	return evals, pf
 }
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index d54ff81..7e87370 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -59,6 +59,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := range y {
+		oracle.Write(y[i].Marshal())
+	}
 
 	var batch, batchOut []ring.Poly
 	if v.params.batch > 1 {
@@ -79,6 +82,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range y {
+			oracle.Write(y[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 	}
 
-- 
2.43.0


From a71a26c6ea1d57feee10964f0a61f937afddb9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 11/33] fix: sample challenges from the full range
 [-ChallengeBound, ChallengeBound]

---
 jindo/params.go | 3 +++
 jindo/utils.go  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/jindo/params.go b/jindo/params.go
index d5d94f0..ee97196 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -356,6 +356,9 @@ func (p Parameters) Slots() int {
 
 // ChallengeBound is the challenge bound.
 func (p Parameters) ChallengeBound() uint64 {
+	if p.ecd.exp == 1 {
+		return p.ecd.base / 2
+	}
 	return min(p.ecd.base, 1<<(120/p.ecd.exp)) / 2
 }
 
diff --git a/jindo/utils.go b/jindo/utils.go
index c9784a0..2642191 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -26,7 +26,7 @@ func encodeChallengeTo(params Parameters, ringQ *ring.Ring, pOut ring.Poly, chal
 		binary.BigEndian.Uint64(chalBytes[8:]),
 	}
 
-	cInfNm := uint64(params.ChallengeBound())
+	cInfNm := 2 * params.ChallengeBound()
 	for i := 0; i < params.ecd.exp; i++ {
 		r := divMod64(c, cInfNm)
 		if r > cInfNm/2 {
-- 
2.43.0


From 28c54d42ebd6c56e33494bc0f2ae66d41d5f5209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 12/33] fix: copy polynomials of rank below 8 without reading
 out of bounds

---
 math/bigpoly/ntt.go  | 24 ++++++++++++++++++++----
 math/bigpoly/poly.go |  6 +++++-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index d95489c..6441076 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -96,7 +96,8 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -110,13 +111,17 @@ func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
 		cOut[6].Set(c0[6])
 		cOut[7].Set(c0[7])
 	}
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
 
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -130,6 +135,9 @@ func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
 		cOut[6].Set(c0[6])
 		cOut[7].Set(c0[7])
 	}
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
 
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
@@ -204,7 +212,8 @@ func NewCyclotomicTransformer[E bignum.Uint[E]](rank int) *CyclotomicTransformer
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -218,13 +227,17 @@ func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
 		cOut[6].Set(c0[6])
 		cOut[7].Set(c0[7])
 	}
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
 
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -238,6 +251,9 @@ func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
 		cOut[6].Set(c0[6])
 		cOut[7].Set(c0[7])
 	}
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
 
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
diff --git a/math/bigpoly/poly.go b/math/bigpoly/poly.go
index 8674f9e..13dabb0 100644
--- a/math/bigpoly/poly.go
+++ b/math/bigpoly/poly.go
@@ -42,7 +42,8 @@ func (p *Poly[E]) Marshal() []byte {
 
 // CopyFrom copies p0 to p.
 func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
-	for i := 0; i < len(p.Coeffs); i += 8 {
+	M := (len(p.Coeffs) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&p.Coeffs[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&p0.Coeffs[i]))
 
@@ -56,6 +57,9 @@ func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
 		cOut[6].Set(c0[6])
 		cOut[7].Set(c0[7])
 	}
+	for i := M; i < len(p.Coeffs); i++ {
+		p.Coeffs[i].Set(p0.Coeffs[i])
+	}
 
 	p.IsNTT = p0.IsNTT
 }
-- 
2.43.0


From c6d520dfc93e0937aab9044585d1afd251e0f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 13/33] fix: support constraints whose degree is below the
 witness rank

---
 buckler/constraint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index 5f5711c..048b736 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -65,5 +65,5 @@ func (c *ArithmeticConstraint[E]) maxRank(rank int) int {
 			maxDeg = deg
 		}
 	}
-	return maxDeg + 1
+	return max(maxDeg, rank) + 1
 }
-- 
2.43.0


From 186472f7c0a02af88ef79b350edfc2a53c1fa88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 14/33] fix: set the density at zero in the ziggurat table

---
 math/csprng/gaussian_rounded.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/gaussian_rounded.go b/math/csprng/gaussian_rounded.go
index a289c73..7887caa 100644
--- a/math/csprng/gaussian_rounded.go
+++ b/math/csprng/gaussian_rounded.go
@@ -34,6 +34,7 @@ func init() {
 		wn[i] = xn[i] / scale
 		fn[i] = normal(xn[i])
 	}
+	fn[0] = 1
 	kn[0] = uint64((rn * normal(rn) / v) * scale)
 	wn[0] = (v / normal(rn)) / scale
 }
-- 
2.43.0


From f3ac274c511fe0e96e834c880fab3fe0f4f294ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 15/33] fix: sample zero only once in the COSAC sampler

---
 math/csprng/gaussian_cosac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/csprng/gaussian_cosac.go b/math/csprng/gaussian_cosac.go
index ea64185..985611c 100644
--- a/math/csprng/gaussian_cosac.go
+++ b/math/csprng/gaussian_cosac.go
@@ -29,10 +29,10 @@ func (s *COSACSampler) sampleRound(cFrac, stdDev float64) int64 {
 		var cmp bool
 		if b == 0 {
 			yRound = math.Round(y) - 1
-			cmp = yRound <= 0.5
+			cmp = yRound <= -0.5
 		} else {
 			yRound = math.Round(y) + 1
-			cmp = yRound >= -0.5
+			cmp = yRound >= 0.5
 		}
 
 		if cmp {
-- 
2.43.0


From 129d6bd3f70176f0f98d6ca585b446f136b933f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 16/33] fix: overwrite the output buffer in UniformSampler.Read

---
 math/csprng/uniform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/uniform.go b/math/csprng/uniform.go
index bdb915e..f1d06de 100644
--- a/math/csprng/uniform.go
+++ b/math/csprng/uniform.go
@@ -56,6 +56,7 @@ func NewUniformSamplerWithSeed(seed []byte) *UniformSampler {
 // Read implements the [io.Reader] interface.
 // It always succeeds, with n == len(p) and err == nil.
 func (s *UniformSampler) Read(p []byte) (n int, err error) {
+	clear(p)
 	s.prng.XORKeyStream(p, p)
 	return len(p), nil
 }
-- 
2.43.0


From 7eaec908c9e4c0cc5488f0928f94c90a133fe75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 17/33] fix: construct the cyclic transformer of rank one

---
 math/bigpoly/ntt.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index 6441076..498be7a 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -37,6 +37,15 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 	}
 	pBig := new(big.Int).Add(pNegOne, big.NewInt(1))
 
+	if rank == 1 {
+		return &CyclicTransformer[E]{
+			rank:    rank,
+			tw:      []E{z.New().SetUint64(1)},
+			twInv:   []E{z.New().SetUint64(1)},
+			rankInv: z.New().SetUint64(1),
+		}
+	}
+
 	t1 := new(big.Int).Div(pNegOne, big.NewInt(int64(rank)))
 	t2 := big.NewInt(int64(rank >> 1))
 
-- 
2.43.0


From 7312e1293059b15d988c9fa5d5ac20a1c9901878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 18/33] fix: invert the exact cumulative distribution in the
 Twin-CDT sampler

---
 math/csprng/gaussian_twin_cdt.go | 33 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 34f8214..128f82b 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -22,16 +22,27 @@ func computeCDT(center, sigma float64) []uint64 {
 		xf := float64(x)
 		rho := math.Exp(-(xf-center)*(xf-center)/(2*sigma*sigma)) / norm
 		cdf += rho
-		if cdf > 1 {
+		if cdf >= 1 {
 			table[i] = math.MaxUint64
 		} else {
 			table[i] = uint64(math.Round(cdf * math.Exp2(64)))
 		}
 	}
 
+	table[tableSize-1] = math.MaxUint64
+
 	return table
 }
 
+// searchCDT returns the smallest index v such that u < table[v].
+func searchCDT(table []uint64, u uint64) int {
+	v, ok := slices.BinarySearch(table, u)
+	for ok && v < len(table)-1 && table[v] == u {
+		v++
+	}
+	return v
+}
+
 // TwinCDTGaussianSampler samples values from Discrete Gaussian Distribution
 // using the Twin-CDT method.
 // This allows for variable center, fixed standard deviation sampling.
@@ -77,19 +88,19 @@ func (s *TwinCDTGaussianSampler) StdDev() float64 {
 func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
+	if cFrac >= 1 {
+		cFloor, cFrac = cFloor+1, 0
+	}
 
-	c0 := int64(math.Floor(blockSize*cFrac)) % blockSize
-	c1 := int64(math.Ceil(blockSize*cFrac)) % blockSize
+	c0 := int64(math.Floor(blockSize * cFrac))
+	c1 := int64(math.Ceil(blockSize * cFrac))
 
 	u := s.baseSampler.Sample()
 
-	v0, ok := slices.BinarySearch(s.tables[c0], u)
-	if ok {
-		v0 -= 1
-	}
-	v1, ok := slices.BinarySearch(s.tables[c1], u)
-	if ok {
-		v1 -= 1
+	v0 := searchCDT(s.tables[c0], u)
+	v1 := searchCDT(s.tables[c1%blockSize], u)
+	if c1 == blockSize {
+		v1 += 1
 	}
 
 	if v0 == v1 {
@@ -98,7 +109,7 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 
 	cdf := 0.0
 	norm := math.Sqrt(2*math.Pi) * s.stdDev
-	for x := s.tailLo; x <= int64(v0); x++ {
+	for x := s.tailLo; x <= s.tailLo+int64(v0); x++ {
 		xf := float64(x)
 		cdf += math.Exp(-(xf-cFrac)*(xf-cFrac)/(2*s.stdDev*s.stdDev)) / norm
 	}
-- 
2.43.0


From 5714a350e9c06588495f402539a11fa4f73941d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 19/33] fix: commit to the empty coefficient vector

---
 jindo/prover.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 253cb73..3b4bfa3 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -72,7 +72,10 @@ func (p *Prover[E]) genFirstLastRow(v []E) (firstRow, lastRow []E) {
 	lastRow[p.params.cols*p.params.slots-1] = z.New()
 
 	firstRow = make([]E, p.params.cols*p.params.slots)
-	firstRow[0] = z.New().Set(v[0])
+	firstRow[0] = z.New()
+	if len(v) > 0 {
+		firstRow[0].Set(v[0])
+	}
 	for i := 1; i < p.params.cols*p.params.slots; i++ {
 		firstRow[i] = z.New()
 		if i < len(v) {
-- 
2.43.0


From 98f4036dc96030d65b04405d93c3c78552995f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 20/33] fix: stop the parameter search when no modulus is large
 enough

---
 jindo/params.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jindo/params.go b/jindo/params.go
index ee97196..5c6465f 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -144,6 +144,7 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 
 	maxCols := int(math.Ceil(float64(targetN) / l))
 	minSize := math.Inf(1)
+searchCols:
 	for nn := 1; nn <= maxCols; nn <<= 1 {
 		n := float64(nn)
 		m := math.Ceil(float64(targetN) / (n * l))
@@ -207,7 +208,8 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 			q = math.Exp2(float64(qBits * qLimbs))
 
 			if math.Log2(q) > maxLogQ {
-				continue
+				// Increasing the rank only makes the modulus larger.
+				continue searchCols
 			}
 
 			if findMSISRank(d, q, inMSISBeta) == mu {
@@ -316,6 +318,10 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 		}
 	}
 
+	if params.ringQ == nil || params.ringQOut == nil {
+		panic("NewParameters: no parameters found for the modulus")
+	}
+
 	return params
 }
 
-- 
2.43.0


From 235dd74b0bae27893ca16b08a9cdb939c832f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 21/33] fix: keep constraints independent of values the caller
 changes later

---
 buckler/constraint.go | 14 ++++++++++++--
 buckler/context.go    |  6 +++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index 048b736..990eb1e 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -1,6 +1,10 @@
 package buckler
 
-import "github.com/sp301415/ringo-snark/math/bignum"
+import (
+	"slices"
+
+	"github.com/sp301415/ringo-snark/math/bignum"
+)
 
 // ArithmeticConstraint is the arithmetic constraint for the circuit.
 type ArithmeticConstraint[E bignum.Uint[E]] struct {
@@ -31,7 +35,13 @@ func (c *ArithmeticConstraint[E]) SubTerm(coeffPublicWitness PublicWitness[E], w
 // Specifically, it adds coeff * coeffPublicWitness * witness[0] * ... * witness[n] to the constraint.
 // If coeffPublicWitness is nil, it is ignored.
 func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness PublicWitness[E], witness ...Witness[E]) {
-	c.coeffs = append(c.coeffs, coeff)
+	// A copy of c may share the slices, so do not append in place.
+	c.coeffs = slices.Clip(c.coeffs)
+	c.hasCoeffPublicWitness = slices.Clip(c.hasCoeffPublicWitness)
+	c.coeffsPublicWitness = slices.Clip(c.coeffsPublicWitness)
+	c.witness = slices.Clip(c.witness)
+
+	c.coeffs = append(c.coeffs, coeff.New().Set(coeff))
 
 	if coeffPublicWitness != nil {
 		c.hasCoeffPublicWitness = append(c.hasCoeffPublicWitness, true)
diff --git a/buckler/context.go b/buckler/context.go
index 7e80dda..067f1b7 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -103,7 +103,7 @@ func (ctx *Context[E]) AddSumCheckConstraint(c ArithmeticConstraint[E], sum uint
 // AddSumCheckConstraintBig adds a sumcheck constraint to the context.
 func (ctx *Context[E]) AddSumCheckConstraintBig(c ArithmeticConstraint[E], sum *big.Int) {
 	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
-	ctx.sumCheckSums = append(ctx.sumCheckSums, sum)
+	ctx.sumCheckSums = append(ctx.sumCheckSums, new(big.Int).Set(sum))
 	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
 }
 
@@ -156,7 +156,7 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
 	ctx.infDcmpWitness[id] = wDcmp
-	ctx.infDcmpBound[id] = bound
+	ctx.infDcmpBound[id] = new(big.Int).Set(bound)
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -195,7 +195,7 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = bound
+	ctx.twoDcmpBound[id] = new(big.Int).Set(bound)
 	ctx.twoDcmpBase[id] = pwBase
 	ctx.twoDcmpMask[id] = pwMask
 	ctx.twoDcmpWitness[id] = wDcmp
-- 
2.43.0


From 6c083e53bf8b0c7348a2800a609b7e8d573b2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 22/33] fix: decompose squared norms above half the modulus

---
 buckler/prover.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 0108d54..dc487d5 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -107,7 +107,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		}
 		sqNm.Mod(sqNm, mod)
 
-		dcmp := decomposeBig(sqNm, base, mod)
+		// The squared norm is never negative, so decompose it without balancing.
+		dcmp := decomposeBig(sqNm, base, new(big.Int).Lsh(mod, 1))
 		wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id])
 		for i := range dcmp {
 			wData.w[wDcmpID][i].SetInt64(dcmp[i])
-- 
2.43.0


From 80b8c74e328ad73ee61fd0ba22594751211a1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 23/33] fix: reject malformed commitments and proofs instead of
 panicking

---
 jindo/entities.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 jindo/verifier.go |  9 +++++++++
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/jindo/entities.go b/jindo/entities.go
index 4c27ac9..bdaf2d7 100644
--- a/jindo/entities.go
+++ b/jindo/entities.go
@@ -85,7 +85,7 @@ type Commitment struct {
 func NewCommitment(params Parameters) *Commitment {
 	com := make([]ring.Poly, params.outMSISRank)
 	for i := range com {
-		com[i] = params.ringQ.NewPoly()
+		com[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Commitment{
@@ -165,7 +165,7 @@ func NewProof(params Parameters) *Proof {
 
 	inCom := make([]ring.Poly, params.inComDcmpLen)
 	for i := 0; i < params.inComDcmpLen; i++ {
-		inCom[i] = params.ringQ.NewPoly()
+		inCom[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Proof{
@@ -177,3 +177,43 @@ func NewProof(params Parameters) *Proof {
 		InCommit: inCom,
 	}
 }
+
+// isValidPolys checks if p consists of cnt elements of ringQ.
+func isValidPolys(ringQ *ring.Ring, p []ring.Poly, cnt int) bool {
+	if len(p) != cnt {
+		return false
+	}
+
+	for i := range p {
+		if len(p[i].Coeffs) != ringQ.ModuliChainLength() {
+			return false
+		}
+		for j := range p[i].Coeffs {
+			if len(p[i].Coeffs[j]) != ringQ.N() {
+				return false
+			}
+			for k := range p[i].Coeffs[j] {
+				if p[i].Coeffs[j][k] >= ringQ.SubRings[j].Modulus {
+					return false
+				}
+			}
+		}
+	}
+
+	return true
+}
+
+// isValid checks if the commitment is well-formed for params.
+func (com *Commitment) isValid(params Parameters) bool {
+	return com != nil && isValidPolys(params.ringQOut, com.Value, params.outMSISRank)
+}
+
+// isValid checks if the proof is well-formed for params.
+func (pf *Proof) isValid(params Parameters) bool {
+	return pf != nil &&
+		isValidPolys(params.ringQOut, pf.InCommit, params.inComDcmpLen) &&
+		isValidPolys(params.ringQ, pf.Partial, params.cols) &&
+		isValidPolys(params.ringQ, []ring.Poly{pf.PartialMask}, 1) &&
+		isValidPolys(params.ringQ, pf.Encode, params.rows) &&
+		isValidPolys(params.ringQ, pf.MLWE, params.mlweRank+params.inMSISRank)
+}
diff --git a/jindo/verifier.go b/jindo/verifier.go
index 7e87370..09639b4 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -53,6 +53,15 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		panic("len(v) != params.batch")
 	}
 
+	for i := range com {
+		if !com[i].isValid(v.params) {
+			return false
+		}
+	}
+	if !pf.isValid(v.params) {
+		return false
+	}
+
 	oracle := sha3.NewSHAKE128()
 	v.ck.WriteRawTo(oracle)
 	for i := 0; i < v.params.batch; i++ {
-- 
2.43.0


From 6a69f5a3c505643c475300dc293ff63d16582411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 24/33] fix: reject malformed circuit proofs instead of
 panicking

---
 buckler/entities.go | 32 ++++++++++++++++++++++++++++++++
 buckler/verifier.go |  3 +++
 2 files changed, 35 insertions(+)

diff --git a/buckler/entities.go b/buckler/entities.go
index 4296a75..1f75a65 100644
--- a/buckler/entities.go
+++ b/buckler/entities.go
@@ -1,6 +1,8 @@
 package buckler
 
 import (
+	"reflect"
+
 	"github.com/sp301415/ringo-snark/jindo"
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
@@ -15,3 +17,33 @@ type Proof[E bignum.Uint[E]] struct {
 	Evals     []E
 	EvalProof *jindo.Proof
 }
+
+// isValid checks if the proof is well-formed for ctx.
+func (pf *Proof[E]) isValid(ctx *Context[E]) bool {
+	if pf == nil || pf.EvalProof == nil {
+		return false
+	}
+	if len(pf.Witness) != ctx.batch() || len(pf.Evals) != ctx.batch() {
+		return false
+	}
+
+	for i := range pf.Witness {
+		if pf.Witness[i] == nil || isNil(pf.Evals[i]) {
+			return false
+		}
+	}
+	if ctx.HasLinearCheck() && isNil(pf.LinCheckMaskSum) {
+		return false
+	}
+	if ctx.HasSumCheck() && isNil(pf.SumCheckMaskSum) {
+		return false
+	}
+
+	return true
+}
+
+// isNil checks if x is a nil pointer.
+func isNil[E bignum.Uint[E]](x E) bool {
+	v := reflect.ValueOf(x)
+	return v.Kind() == reflect.Pointer && v.IsNil()
+}
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 052b644..9a2f983 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -30,6 +30,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if v.ctx.circType != reflect.TypeOf(c).Elem() {
 		return false
 	}
+	if !pf.isValid(v.ctx) {
+		return false
+	}
 
 	var z E
 
-- 
2.43.0


From 1661f6c568525f03888b2aa55fb1aea94af2fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 25/33] fix: allow scaling a polynomial in place by one of its
 coefficients

---
 math/bigpoly/vec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/math/bigpoly/vec.go b/math/bigpoly/vec.go
index 8c39c46..d041e02 100644
--- a/math/bigpoly/vec.go
+++ b/math/bigpoly/vec.go
@@ -75,6 +75,9 @@ func negVecTo[E bignum.Uint[E]](xOut, x0 []E) {
 }
 
 func scalarMulVecTo[E bignum.Uint[E]](xOut, x0 []E, c E) {
+	// c may be an element of xOut.
+	c = c.New().Set(c)
+
 	M := (len(xOut) >> 3) << 3
 	for i := 0; i < M; i += 8 {
 		wOut := (*[8]E)(unsafe.Pointer(&xOut[i]))
-- 
2.43.0


From a9207bb322cae6c40a30d70e81ac55ff20b0c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 26/33] fix: support approximate norm constraints with bound
 zero

---
 buckler/context.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buckler/context.go b/buckler/context.go
index 067f1b7..ff9b6a5 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -220,6 +220,12 @@ func (ctx *Context[E]) AddApproxInfNormConstraint(w Witness[E], bound uint64) {
 // AddApproxInfNormConstraint adds a approximate inf-norm constraint to the context.
 // The slack is around rank.
 func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.Int) {
+	if bound.Sign() <= 0 {
+		// There is no slack, as it is a multiple of the bound.
+		ctx.AddInfNormConstraintBig(w, bound)
+		return
+	}
+
 	if ctx.projChecker == nil {
 		ctx.projChecker = newProjChecker[E](ctx.rank)
 	}
-- 
2.43.0


From 01a22ad36e1a0047c6fc1888fff7087926f7c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 27/33] fix: keep the degree of committed polynomials below the
 rank

---
 jindo/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jindo/params.go b/jindo/params.go
index 5c6465f..82a0f88 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -147,7 +147,9 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 searchCols:
 	for nn := 1; nn <= maxCols; nn <<= 1 {
 		n := float64(nn)
-		m := math.Ceil(float64(targetN) / (n * l))
+		// The last slot of the blinding row evaluates as X^(n * l),
+		// so a single row would allow polynomials of degree rank.
+		m := max(math.Ceil(float64(targetN)/(n*l)), 2)
 
 		xOne := math.Sqrt(k) * b
 		cOne := math.Sqrt(k) * min(b, math.Exp2(120/k)) / 2
-- 
2.43.0


From 999e96a471bf0891ea14d999301b3e4217ad0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 28/33] fix: do not search modulus bases above the bound

---
 jindo-modulus/main.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index c188ea0..0e02b56 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -42,7 +42,7 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 			continue
 		}
 
-		for b := bStart; b <= min(math.MaxUint64, bEnd); b++ {
+		for b := bStart; b <= min(baseBound, bEnd); b++ {
 			bBig := big.NewInt(int64(b))
 			bExpBig := new(big.Int).Exp(bBig, kBig, nil)
 			p.Add(bExpBig, big.NewInt(1))
@@ -59,10 +59,6 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 				continue
 			}
 
-			if b > baseBound {
-				continue
-			}
-
 			return p, b, k
 		}
 	}
-- 
2.43.0


From e37044727e75531d7a4e94d50ea6e24473cd6c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 29/33] fix: generate packages for moduli without assembly
 support

---
 jindo-modulus/main.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index 0e02b56..fe0fe79 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -66,6 +66,26 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 	return nil, 0, 0
 }
 
+// generateField generates the field package to dir.
+// The generator has no assembly for some sizes of modulus and panics,
+// in which case the package is generated without assembly.
+func generateField(f *config.Field, dir string, asm *config.Assembly) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			if err = os.RemoveAll(asm.BuildDir); err != nil {
+				return
+			}
+			f.GenerateOpsAMD64 = false
+			f.GenerateOpsARM64 = false
+			f.GenerateVectorOpsAMD64 = false
+			f.GenerateVectorOpsARM64 = false
+			err = generator.GenerateFF(f, dir)
+		}
+	}()
+
+	return generator.GenerateFF(f, dir, generator.WithASM(asm))
+}
+
 func main() {
 	flag.Parse()
 
@@ -134,7 +154,7 @@ func main() {
 		BuildDir:   filepath.Join(dir, "asm"),
 	}
 
-	err = generator.GenerateFF(f, dir, generator.WithASM(asm))
+	err = generateField(f, dir, asm)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 22d86f85186232859807c2bee7fb2d0bf15efba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 30/33] fix: keep the challenge bound positive for large
 exponents

---
 jindo/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jindo/params.go b/jindo/params.go
index 82a0f88..4720ce3 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -152,7 +152,7 @@ searchCols:
 		m := max(math.Ceil(float64(targetN)/(n*l)), 2)
 
 		xOne := math.Sqrt(k) * b
-		cOne := math.Sqrt(k) * min(b, math.Exp2(120/k)) / 2
+		cOne := math.Sqrt(k) * min(b, max(math.Exp2(120/k), 2)) / 2
 
 		ecdStdDev := 2 / (b - 1) * (b + 1) * eta
 		ecdBlindStdDev := 2 * xOne / (b - 1) * (b + 1) * eta
@@ -367,7 +367,7 @@ func (p Parameters) ChallengeBound() uint64 {
 	if p.ecd.exp == 1 {
 		return p.ecd.base / 2
 	}
-	return min(p.ecd.base, 1<<(120/p.ecd.exp)) / 2
+	return min(p.ecd.base, max(uint64(1)<<(120/p.ecd.exp), 2)) / 2
 }
 
 // InMSISRank is the rank of the inner MSIS commitment.
-- 
2.43.0


From 2c48afe317303e340b97b4b8747dcdec730ca396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 31/33] fix: round commitments to nearest so that honest proofs
 keep their norm bounds

---
 jindo/prover.go |  4 ++--
 jindo/utils.go  | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 3b4bfa3..a9c2273 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -170,7 +170,7 @@ func (p *Prover[E]) commitColTo(i int, open *Opening, v []E, firstRow, lastRow [
 
 		p.ecd.rns.reconstructTo(inComBig, com[j])
 		for k := range p.params.ringQ.N() {
-			inComBig[k].Rsh(inComBig[k], uint(p.params.logInCutOff))
+			roundShift(inComBig[k], p.params.logInCutOff)
 		}
 		p.rnsOut.setBigCoeffTo(open.InCommit[i*p.params.inMSISRank+j], inComBig)
 
@@ -195,7 +195,7 @@ func (p *Prover[E]) outerCommitTo(com *Commitment, open *Opening) {
 
 		p.rnsOut.reconstructTo(comBig, com.Value[i])
 		for k := range p.params.ringQOut.N() {
-			comBig[k].Rsh(comBig[k], uint(p.params.logOutCutOff))
+			roundShift(comBig[k], p.params.logOutCutOff)
 		}
 		p.rnsOut.setBigCoeffTo(com.Value[i], comBig)
 
diff --git a/jindo/utils.go b/jindo/utils.go
index 2642191..abf46b4 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -2,6 +2,7 @@ package jindo
 
 import (
 	"encoding/binary"
+	"math/big"
 	"math/bits"
 
 	"github.com/sp301415/ringo-snark/math/bignum"
@@ -80,3 +81,15 @@ func rightVec[E bignum.Uint[E]](params Parameters, x E) []E {
 	}
 	return right
 }
+
+// roundShift sets x to x / 2^n, rounded to the nearest integer.
+// Rounding errors are centered, so that they do not accumulate
+// when multiplied by challenges.
+func roundShift(x *big.Int, n uint64) {
+	if n == 0 {
+		return
+	}
+	x.Rsh(x, uint(n-1))
+	x.Add(x, big.NewInt(1))
+	x.Rsh(x, 1)
+}
-- 
2.43.0


From 73de071feb76ea4198539788f449f9c277d667fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 32/33] fix: refuse assignments that are nil or not pointers
 instead of panicking

---
 buckler/compile.go  | 3 +++
 buckler/prover.go   | 3 +++
 buckler/verifier.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/buckler/compile.go b/buckler/compile.go
index 3a60da2..5e523e8 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -190,6 +190,9 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 // For correct compilation, the [PublicWitness] and [Witness] field must be empty.
 // Moreover, all other fields must be set correctly.
 func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prover[E], *Verifier[E], error) {
+	if c == nil {
+		return nil, nil, fmt.Errorf("circuit must not be nil")
+	}
 	if reflect.TypeOf(c).Kind() != reflect.Pointer {
 		return nil, nil, fmt.Errorf("circuit must be defined with a pointer receiver")
 	}
diff --git a/buckler/prover.go b/buckler/prover.go
index dc487d5..5302417 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -40,6 +40,9 @@ type witnessData[E bignum.Uint[E]] struct {
 
 // Prove generates a proof for the given circuit and witnesses.
 func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
+	if t := reflect.TypeOf(c); t == nil || t.Kind() != reflect.Pointer {
+		return nil, fmt.Errorf("circuit must be given as a pointer")
+	}
 	if p.ctx.circType != reflect.TypeOf(c).Elem() {
 		return nil, fmt.Errorf("circuit type mismatch")
 	}
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 9a2f983..0734361 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -27,6 +27,9 @@ type Verifier[E bignum.Uint[E]] struct {
 
 // Verify verifies the proof for the given public assignment.
 func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
+	if t := reflect.TypeOf(c); t == nil || t.Kind() != reflect.Pointer {
+		return false
+	}
 	if v.ctx.circType != reflect.TypeOf(c).Elem() {
 		return false
 	}
-- 
2.43.0


From 333f10971f32ef85554d995deb01b18d07291d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 33/33] fix: accept linear checkers that cannot be map keys

---
 buckler/context.go | 4 ++++
 buckler/linear.go  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/buckler/context.go b/buckler/context.go
index ff9b6a5..3eb2ac2 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -113,6 +113,10 @@ func (ctx *Context[E]) AddLinearConstraint(wOut, wIn Witness[E], chker LinearChe
 		ctx.arithCheckMaxRank = 2*ctx.rank - 1
 	}
 
+	if !reflect.ValueOf(chker).Comparable() {
+		chker = &uncomparableChecker[E]{LinearChecker: chker}
+	}
+
 	if _, ok := ctx.linCheckConstraints[chker]; !ok {
 		ctx.linCheckers = append(ctx.linCheckers, chker)
 	}
diff --git a/buckler/linear.go b/buckler/linear.go
index f42d30c..1996f6c 100644
--- a/buckler/linear.go
+++ b/buckler/linear.go
@@ -16,6 +16,11 @@ type LinearChecker[E bignum.Uint[E]] interface {
 	TransposeTo(vOut, v []E)
 }
 
+// uncomparableChecker wraps a [LinearChecker] that cannot be used as a map key.
+type uncomparableChecker[E bignum.Uint[E]] struct {
+	LinearChecker[E]
+}
+
 // nttChecker computes the negacyclic NTT transform.
 type nttChecker[E bignum.Uint[E]] struct {
 	ntt   *bigpoly.CyclotomicTransformer[E]
-- 
2.43.0

