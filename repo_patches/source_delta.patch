From 95bed4dbe08e73b87146ca96f3b9c2edb592c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:29 +0000
Subject: [PATCH 01/15] fix: conjugate ciphertexts below the top level

KeySwitcher.Conjugate permuted over every modulus of the chain and panicked
with an index out of range for any ciphertext that had dropped a level.
---
 mkrlwe/keyswitch.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..a5e6fad 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -311,9 +311,11 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 		panic("Cannot Conjugate: ctIn and ctOut have different levels")
 	}
 
-	// permute ctIn and put it to ctOut
+	// permute ctIn and put it to ctOut, over the active moduli only
+	ringLvl := *ringQ
+	ringLvl.Modulus = ringQ.Modulus[:level+1]
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		ringLvl.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From df74a5113f2742189523eb75b8d81c6a21896854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 02/15] fix: treat integral constants beyond int64 as integers

getConstAndScale took the integer part through int64, so an integral
constant of 2^63 or more was scaled up as if it had a fractional part. Sums
of ciphertexts whose scales differ by that factor were wrong, because the
caller ignores the extra scale.
---
 mkckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3bd8a1f..60f8bbd 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,8 +47,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -56,8 +55,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -69,8 +67,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0


From d0f2a69e81d6e2c4351cb59d31675a028a02cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 03/15] fix: multiply by complex constants outside the NTT
 domain

MultByConst applied the NTT-domain formula for the imaginary part to
ciphertexts that are kept in the coefficient domain, so every product with a
constant that has an imaginary part decrypted to garbage.
---
 mkckks/evaluator.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 60f8bbd..ae8d59c 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -117,10 +117,8 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
-	// Component wise multiplication of the following vector with the ciphertext:
-	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
-	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Multiplication by the polynomial a + b*X^(N/2): the ciphertext is outside of the NTT domain,
+	// and X^(N/2) evaluates to the imaginary unit in every slot.
 	ringQ := eval.params.RingQ()
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
@@ -139,9 +137,20 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		}
 
 		if cImag != 0 {
-			scaledConstImag = scaleUpExact(cImag, scale, qi)
-			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
+			scaledConstReal = ring.MForm(scaledConstReal, qi, bredParams)
+			scaledConstImag = ring.MForm(scaleUpExact(cImag, scale, qi), qi, bredParams)
+
+			half := ringQ.N >> 1
+			for u := range ct0.Value {
+				x := ct0.Value[u].Coeffs[i]
+				z := ctOut.Value[u].Coeffs[i]
+				for j := 0; j < half; j++ {
+					x0, x1 := x[j], x[j+half]
+					z[j] = ring.CRed(ring.MRed(x0, scaledConstReal, qi, mredParams)+qi-ring.MRed(x1, scaledConstImag, qi, mredParams), qi)
+					z[j+half] = ring.CRed(ring.MRed(x1, scaledConstReal, qi, mredParams)+ring.MRed(x0, scaledConstImag, qi, mredParams), qi)
+				}
+			}
+			continue
 		}
 
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
@@ -166,11 +175,6 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			}
 		}
 
-		if cImag != 0 {
-			scaledConst = ring.CRed(scaledConstReal+(qi-scaledConstImag), qi)
-			scaledConst = ring.MForm(scaledConst, qi, bredParams)
-		}
-
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
-- 
2.43.0


From f8a9794988d51a20923afba45ab2ec14c905e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 04/15] fix: return the ciphertext when there is nothing to
 rescale

Rescale into another ciphertext only replaced its local pointer when no
modulus had to be divided out, so Rescale and RescaleNew left a zero
ciphertext with the metadata of the input.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index ae8d59c..7337c90 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -391,7 +391,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			*ctOut = *ctIn.CopyNew()
 		}
 	}
 
-- 
2.43.0


From 3625ca1048f5aba87b450293a3452e1a27d077a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 05/15] fix: stop rescaling at level 0

The rescaling loop checked the level only after using it as an index and let
it drop below 0, so a large scale over a small target panicked or emptied the
ciphertext.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 7337c90..39bf506 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -378,7 +378,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 3d754c4e3194a4eaacf0c3435adcd40aa5847d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 06/15] fix: decrypt at full level after a lower-level
 ciphertext

Decrypting a low-level ciphertext permanently shrank the pool plaintext of the
decryptor, so later ciphertexts were reduced modulo that smaller modulus and
decrypted wrongly when their scale or message needed more room.
---
 mkckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index d567ba9..9a9699a 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,8 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the pool plaintext takes the level of the ciphertext below: restore its full level first
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:dec.params.MaxLevel()+1]
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 5ba7ea4cccb2ce88bac4044181455a6607050cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 07/15] fix: let GenKeyPairSparse take the identity of the key
 pair

It read the identity from the nil secret key it was about to create and always
panicked.
---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3e13268 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 68761ea379916142e6fa05be4d34a3a9170c35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:33 +0000
Subject: [PATCH 08/15] fix: look up the reference string of the normalised
 rotation amount

GenRotationKey checked the reference string before normalising a negative
amount: amounts whose reference string exists were refused, and -1 to -4 found
the reserved strings and then crashed.
---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3e13268..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 99e53a7831f9d1f0133417e10fccd78eb7bda3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:33 +0000
Subject: [PATCH 09/15] fix: refuse a rotation key for amount zero

It was masked with CRS[0], which also masks the relinearization key of the
same secret key: the difference of the two published keys is P*s plus a small
error and exposes the secret key.
---
 mkrlwe/keygen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index fa0b361..dde03d1 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -203,6 +203,11 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 		rotidx += (params.N() / 2)
 	}
 
+	// rotations by 0 need no key, and CRS[0] already masks the relinearization key
+	if rotidx%(params.N()/2) == 0 {
+		panic("Cannot GenRotationKey: rot idx is a multiple of the number of slots")
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
-- 
2.43.0


From c6fa69fa4784bb31b43f918c7b5d820f8fbeb482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:33 +0000
Subject: [PATCH 10/15] fix: keep an existing reference string in AddCRS

AddCRS on an index that was already covered replaced the reference string and
silently invalidated every key generated from it, including the
relinearization and public keys for index 0.
---
 mkrlwe/params.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index a4431a2..5316161 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -76,6 +76,11 @@ func (params Parameters) Gamma() int {
 
 func (params *Parameters) AddCRS(idx int) {
 
+	// keys may already have been generated from an existing CRS
+	if _, in := params.CRS[idx]; in {
+		return
+	}
+
 	prng, err := utils.NewPRNG()
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 73c861afc429460bc6f2aed45c3ead4c0f980f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:34 +0000
Subject: [PATCH 11/15] fix: decompose with a number of special primes gamma
 does not divide

The decomposer rounded the digit width up where Parameters.Alpha rounds it
down, and its tables covered only gamma*alpha special primes, so every key
switch panicked for, say, 5 special primes and gamma 2.
---
 mkrlwe/basis_extension.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..dc5e3b4 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -379,7 +379,11 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 
 		P := ringP.Modulus[:lvlP+2]
 
-		alpha := int(math.Ceil(float64(len(P)) / float64(gamma)))
+		// same digit width as Parameters.Alpha
+		alpha := len(P) / gamma
+		if alpha == 0 {
+			alpha = 1
+		}
 		beta := int(math.Ceil(float64(len(Q)) / float64(alpha)))
 
 		xalpha := make([]int, beta)
@@ -453,7 +457,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta, gam
 		// Otherwise, we apply a fast exact base conversion for the reconstruction
 	} else {
 
-		params := decomposer.modUpParams[gamma*alpha-2][beta][decompLvl]
+		params := decomposer.modUpParams[levelP-1][beta][decompLvl]
 
 		var v [8]uint64
 		var vi [8]float64
-- 
2.43.0


From 79981a8017596954ef9e336940e6ef8306ace49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:34 +0000
Subject: [PATCH 12/15] fix: divide by the removed modulus in ModDownQPtoP

It took the inverse of the first levelP+1 moduli of Q instead of the levelQ+1
that are removed, and was wrong (or panicked) whenever the two levels differ.
---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index dc5e3b4..b8c6032 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From 78f6e831bf3a7731c2f1d0ca74be05fe059b9739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:34 +0000
Subject: [PATCH 13/15] fix: decrypt into the domain the plaintext declares

Decrypt documents that the output domain matches plaintext.Value.IsNTT but
wrote the domain of the ciphertext.
---
 mkrlwe/decryptor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..633cecb 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -63,4 +63,10 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 	}
 
 	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+
+	if ctTmp.Value["0"].IsNTT && !plaintext.Value.IsNTT {
+		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
+	} else if !ctTmp.Value["0"].IsNTT && plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, plaintext.Value, plaintext.Value)
+	}
 }
-- 
2.43.0


From 9522e8d93923623ee7b0334dad504855e479190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:35 +0000
Subject: [PATCH 14/15] fix: clear the other participants when encrypting into
 a used ciphertext

Encrypt left the shares of other participants of the receiver as they were, so
encrypting into an already used ciphertext decrypted to the message plus stale
content, and their level was not lowered with the rest.
---
 mkrlwe/encryptor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mkrlwe/encryptor.go b/mkrlwe/encryptor.go
index f96b91f..abef084 100644
--- a/mkrlwe/encryptor.go
+++ b/mkrlwe/encryptor.go
@@ -115,6 +115,14 @@ func (encryptor *Encryptor) Encrypt(plaintext *rlwe.Plaintext, pk *PublicKey, ct
 	ctOut.Value["0"].Coeffs = ctOut.Value["0"].Coeffs[:levelQ+1]
 	ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:levelQ+1]
 
+	// the other participants of the receiver have no part in this encryption
+	for other, share := range ctOut.Value {
+		if other != "0" && other != id {
+			share.Zero()
+			share.Coeffs = share.Coeffs[:levelQ+1]
+			share.IsNTT = ctOut.Value["0"].IsNTT
+		}
+	}
 }
 
 // NewEncryptor instatiates a new generic RLWE Encryptor. The key argument can
-- 
2.43.0


From 621d96d8115ab70d48611a48e34d4dac2accd467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 15/15] fix: Rescale into another ciphertext leaves the input
 untouched

The division by the last modulus centres the top residues of its input
in place, so rescaling into a different ciphertext corrupted the operand.
---
 mkckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 39bf506..ee9b933 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -386,7 +386,9 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			// the division overwrites part of its input, so it works on a copy
+			ring.CopyValuesLvl(level, ctIn.Value[i], eval.polyQPool)
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, eval.polyQPool, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
-- 
2.43.0

