From e23d792360e521f118592a2a21c871310ab85369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 01/19] fix: phase1 Verify checks the ratio of every pair of
 consecutive powers

MultiExp was called with slices of different lengths, its error was ignored
and the linear combinations stayed at infinity, so every pairing check on the
powers passed. The pairs across batches were not covered, and the check of
TauG2 (vacuous so far) had the ratio the wrong way around.
---
 phase1/phase1.go |  2 +-
 phase1/utils.go  | 48 ++++++++++++++++++++++++++++++++++++------------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 09fcb70..9ce4835 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -360,7 +360,7 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Read and verify TauG2
 	fmt.Println("Verifying powers of TauG2")
-	if !common.SameRatio(g1, current.G1.Tau, tau2L1, tau2L2) {
+	if !common.SameRatio(current.G1.Tau, g1, tau2L1, tau2L2) {
 		return errors.New("failed pairing check")
 	}
 
diff --git a/phase1/utils.go b/phase1/utils.go
index f575206..cf8c19d 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -162,17 +162,22 @@ func randomize(r []fr.Element) {
 }
 
 func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
-	// Allocate batch with smallest of (N, batchSize)
+	// Allocate batch with smallest of (N, batchSize), preceded by the last point of the previous batch
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
-	buff := make([]bn254.G1Affine, initialSize)
+	buff := make([]bn254.G1Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
 
-	remaining := N
+	// Read the first point
+	if err := dec.Decode(&buff[0]); err != nil {
+		return L1, L2, err
+	}
+
+	remaining := N - 1
 	for remaining > 0 {
 		// Read batch
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
-		for i := 0; i < readCount; i++ {
+		for i := 1; i <= readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
 				return L1, L2, err
 			}
@@ -182,11 +187,18 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount+1], r[:readCount], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// The last point of this batch is also paired with the first one of the next batch
+		buff[0].Set(&buff[readCount])
+
 		// Update remaining
 		remaining -= readCount
 	}
@@ -194,17 +206,22 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 }
 
 func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
-	// Allocate batch with smallest of (N, batchSize)
+	// Allocate batch with smallest of (N, batchSize), preceded by the last point of the previous batch
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
-	buff := make([]bn254.G2Affine, initialSize)
+	buff := make([]bn254.G2Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
 
-	remaining := N
+	// Read the first point
+	if err := dec.Decode(&buff[0]); err != nil {
+		return L1, L2, err
+	}
+
+	remaining := N - 1
 	for remaining > 0 {
 		// Read batch
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
-		for i := 0; i < readCount; i++ {
+		for i := 1; i <= readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
 				return L1, L2, err
 			}
@@ -214,11 +231,18 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount+1], r[:readCount], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// The last point of this batch is also paired with the first one of the next batch
+		buff[0].Set(&buff[readCount])
+
 		// Update remaining
 		remaining -= readCount
 	}
-- 
2.43.0


From 70a2ec75385fcd03b374d593cedb0268d001642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 02/19] fix: phase1 Verify ties the first point of every
 section to the ceremony

The ratio checks fix a section up to its first point only: TauG1 and TauG2
have to start from the generators, AlphaTauG1 and BetaTauG1 from the Alpha and
Beta of the last contribution.
---
 phase1/phase1.go | 19 +++++++++++++++----
 phase1/utils.go  | 32 ++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 9ce4835..304f88b 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -294,25 +294,25 @@ func Verify(inputPath, transformedPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	fmt.Println("Processing TauG1")
-	tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
+	tau1First, tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing AlphaTauG1")
-	alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
+	alphaTau1First, alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing BetaTauG1")
-	betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
+	betaTau1First, betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing TauG2")
-	tau2L1, tau2L2, err := linearCombinationG2(dec, N)
+	tau2First, tau2L1, tau2L2, err := linearCombinationG2(dec, N)
 	if err != nil {
 		return err
 	}
@@ -340,6 +340,17 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Verify consistency of parameters update
 	_, _, g1, g2 := bn254.Generators()
+	// Verify that the powers start from the generators and from the last contribution
+	if !tau1First.Equal(&g1) || !tau2First.Equal(&g2) {
+		return errors.New("powers of Tau don't start from the generators")
+	}
+	if !alphaTau1First.Equal(&current.G1.Alpha) {
+		return errors.New("failed verifying update of Alpha")
+	}
+	if !betaTau1First.Equal(&current.G1.Beta) {
+		return errors.New("failed verifying update of Beta")
+	}
+
 	// Read and verify TauG1
 	fmt.Println("Verifying powers of TauG1")
 	if !common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2) {
diff --git a/phase1/utils.go b/phase1/utils.go
index cf8c19d..9a1bdcc 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -161,25 +161,27 @@ func randomize(r []fr.Element) {
 	})
 }
 
-func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
+func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize), preceded by the last point of the previous batch
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
+	var first, L1, L2, tmpL1, tmpL2 bn254.G1Affine
 
 	// Read the first point
 	if err := dec.Decode(&buff[0]); err != nil {
-		return L1, L2, err
+		return first, L1, L2, err
 	}
 
+	first.Set(&buff[0])
+
 	remaining := N - 1
 	for remaining > 0 {
 		// Read batch
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 1; i <= readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
 
@@ -188,10 +190,10 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:readCount+1], r[:readCount], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -202,28 +204,30 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
-func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
+func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, bn254.G2Affine, error) {
 	// Allocate batch with smallest of (N, batchSize), preceded by the last point of the previous batch
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G2Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
+	var first, L1, L2, tmpL1, tmpL2 bn254.G2Affine
 
 	// Read the first point
 	if err := dec.Decode(&buff[0]); err != nil {
-		return L1, L2, err
+		return first, L1, L2, err
 	}
 
+	first.Set(&buff[0])
+
 	remaining := N - 1
 	for remaining > 0 {
 		// Read batch
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 1; i <= readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
 
@@ -232,10 +236,10 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:readCount+1], r[:readCount], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -246,7 +250,7 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
 func verifyContribution(current, prev Contribution) error {
-- 
2.43.0


From b921f01030696e734895e21aca28e587b8b95180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 03/19] fix: phase1 Verify rejects a file without contributions

With no record to compare against, a file whose powers are points at infinity
was accepted.
---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 304f88b..81af3d3 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -286,6 +286,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
+	if header.Contributions == 0 {
+		return errors.New("there are no contributions to verify")
+	}
 	N := int(math.Pow(2, float64(header.Power)))
 
 	// Use buffered IO to write parameters efficiently
-- 
2.43.0


From 3499c207db56cebda36c5c841ba0ae6de1efdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 04/19] fix: phase1 Verify reports a contribution that can't be
 read

---
 phase1/phase1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 81af3d3..f1870dc 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -333,7 +333,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	for i := 0; i < int(header.Contributions); i++ {
-		current.ReadFrom(reader)
+		if _, err := current.ReadFrom(reader); err != nil {
+			return err
+		}
 		fmt.Printf("Verifying contribution %d with Hash := %s\n", i+1, hex.EncodeToString(current.Hash))
 		if err := verifyContribution(current, prev); err != nil {
 			return err
-- 
2.43.0


From 71ca85fbfe409ae34cf78ac1993aad6884705e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 05/19] fix: phase1 Verify rejects public keys at infinity

Zero Tau, Alpha or Beta was accepted, and with S and SX at infinity the checks
of TauG2 and BetaG2 against the public key were vacuous.
---
 phase1/utils.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phase1/utils.go b/phase1/utils.go
index 9a1bdcc..c15e47c 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -254,6 +254,13 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 }
 
 func verifyContribution(current, prev Contribution) error {
+	// A proof of knowledge with points at infinity proves nothing, and allows zero τ, α, β
+	for _, pk := range []common.PublicKey{current.PublicKeys.Tau, current.PublicKeys.Alpha, current.PublicKeys.Beta} {
+		if pk.S.IsInfinity() || pk.SX.IsInfinity() {
+			return errors.New("public key contains a point at infinity")
+		}
+	}
+
 	// Compute SP for τ, α, β
 	tauSP := common.GenSP(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, prev.Hash[:], 1)
 	alphaSP := common.GenSP(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, prev.Hash[:], 2)
-- 
2.43.0


From 877267125f8d26432df60ea6e4bf4ebe390c1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 06/19] fix: phase2 Verify rejects public keys at infinity

With S and SX at infinity the proof of knowledge of Delta was vacuous.
---
 phase2/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase2/utils.go b/phase2/utils.go
index 3e3a312..8feaa2f 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -450,6 +450,11 @@ func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error
 }
 
 func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []byte) error {
+	// A proof of knowledge with points at infinity proves nothing, and allows zero δ
+	if c.PublicKey.S.IsInfinity() || c.PublicKey.SX.IsInfinity() {
+		return errors.New("public key contains a point at infinity")
+	}
+
 	// Compute SP for δ
 	deltaSP := common.GenSP(c.PublicKey.S, c.PublicKey.SX, prevHash, 1)
 
-- 
2.43.0


From dad024248cbc0d8a1abf0af5e8796dbc1d510749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 07/19] fix: phase2 Verify reports parameters that can't be
 read

An unreadable Z or PKK section was taken as verified.
---
 phase2/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 8feaa2f..3bc6ea8 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -479,7 +479,7 @@ func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []by
 func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn254.Decoder, size int, field string) error {
 	// aggregate points
 	if in, or, err := aggregate(inputDecoder, originDecoder, size); err != nil {
-		return nil
+		return err
 	} else {
 		if !common.SameRatio(*in, *or, *delta, *g) {
 			return fmt.Errorf("inconsistent update to %s", field)
-- 
2.43.0


From b0041e9625ea0595d3282d733158aeac9762c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 08/19] fix: read records and headers in full

reader.Read may return less than asked for (bufio.Reader does at the end of
its buffer), so the hash of a record could be cut: honest chains of
contributions were rejected, and truncated files accepted.
---
 phase1/contribution.go | 2 +-
 phase1/header.go       | 4 ++--
 phase2/contribution.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phase1/contribution.go b/phase1/contribution.go
index bcc7d7c..ffaabe3 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -78,7 +78,7 @@ func (c *Contribution) ReadFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
diff --git a/phase1/header.go b/phase1/header.go
index 88eb1b3..7fe661a 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -13,14 +13,14 @@ type Header struct {
 func (p *Header) ReadFrom(reader io.Reader) error {
 	buffPower := make([]byte, 1)
 	// Read NConstraints
-	if _, err := reader.Read(buffPower); err != nil {
+	if _, err := io.ReadFull(reader, buffPower); err != nil {
 		return err
 	}
 	p.Power = buffPower[0]
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
-	if _, err := reader.Read(buffContributions); err != nil {
+	if _, err := io.ReadFull(reader, buffContributions); err != nil {
 		return err
 	}
 	p.Contributions = binary.BigEndian.Uint16(buffContributions)
diff --git a/phase2/contribution.go b/phase2/contribution.go
index 0ca5d89..c54bbd3 100644
--- a/phase2/contribution.go
+++ b/phase2/contribution.go
@@ -47,7 +47,7 @@ func (c *Contribution) readFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
-- 
2.43.0


From bfe2b8c91e7cd179d90798931efc8e2c8b3c3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 09/19] fix: phase1 Verify rejects uncompressed parameters

The decoder takes a point in either representation, but phase2 and p1vt access
the parameters by their position in the compressed one, so what was verified
wasn't what was used.
---
 phase1/phase1.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index f1870dc..23a548a 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -326,6 +326,11 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 
+	// Parameters are accessed by position, so every point has to be in the compressed representation
+	if dec.BytesRead() != 192*int64(N)+32 {
+		return errors.New("parameters aren't in the compressed representation")
+	}
+
 	// Verify contributions
 	var current Contribution
 	prev, err := defaultContribution(transformedPath)
-- 
2.43.0


From 24fb5cc8f035ccc36b09738e608fa20323e645f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 10/19] fix: phase1 Contribute refuses to wrap the number of
 contributions

---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 23a548a..a799fc9 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -170,6 +170,9 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	N := int(math.Pow(2, float64(header.Power)))
+	if header.Contributions == math.MaxUint16 {
+		return errors.New("can't support more contributions")
+	}
 	header.Contributions++
 	if err := header.writeTo(outputFile); err != nil {
 		return err
-- 
2.43.0


From 101f7374bd12f99138cb636d616f5dd7e258c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 11/19] fix: filterL indexes the private committed wires by
 their own counter

PrivateCommitted() was indexed by wire, which panicked on every circuit with a
commitment.
---
 phase2/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 3bc6ea8..6034042 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -546,7 +546,7 @@ func filterL(L []bn254.G1Affine, header2 *Header, cmtInfo *constraint.Commitment
 	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
 	vI, cI := 0, 0
 	for i := range L {
-		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[i]
+		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
 		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
 		isPublic := i < header2.Public
 		if isCommittedPrivate {
-- 
2.43.0


From 38e551306bf8f33e258f493d23c7d9ca2899db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 12/19] fix: filterL doesn't take the first private wire as
 public

With a commitment header.Public is one more than the number of public wires,
so the first private wire was moved to VKK and the commitment overflowed it.
---
 phase2/utils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 6034042..7a74cb4 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -545,10 +545,15 @@ func filterL(L []bn254.G1Affine, header2 *Header, cmtInfo *constraint.Commitment
 	vkk := make([]bn254.G1Affine, header2.Public)
 	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
 	vI, cI := 0, 0
+	// Public also counts the commitment, which isn't one of the first wires
+	nbPublic := header2.Public
+	if cmtInfo.Is() {
+		nbPublic--
+	}
 	for i := range L {
 		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
 		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
-		isPublic := i < header2.Public
+		isPublic := i < nbPublic
 		if isCommittedPrivate {
 			ckk[cI].Set(&L[i])
 			cI++
-- 
2.43.0


From 840eb32714cd0f5cc19db7887e92fc6cd11aac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 13/19] fix: the verifying key carries the commitment info of
 the circuit

evals ends with it, but it was never read, so the verifying key of a circuit
with a commitment was one of a circuit without.
---
 keys/keys.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 47bdb44..b5c43ee 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -541,6 +541,9 @@ func extractVK(phase2Path string) error {
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
@@ -632,6 +635,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
-- 
2.43.0


From 08c9140e74b7300c2c7d284dad1f8f6a31e4e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 14/19] fix: extractSplitVK writes the commitment key once

---
 keys/keys.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/keys/keys.go b/keys/keys.go
index b5c43ee..a4fa75e 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -653,7 +653,6 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	defer commitmentKeyFile.Close()
-	vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	if err != nil {
 		return err
-- 
2.43.0


From 79e4967df2b248ede20681c33b486f442104a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 15/19] fix: don't report success when the output couldn't be
 written

Errors of the deferred flushes, and of a few other writes, were dropped: on a
full disk every command could succeed and leave a cut file behind.
---
 keys/keys.go       | 25 +++++++++++++------------
 phase1/phase1.go   | 20 +++++++++++++++-----
 phase1/utils.go    |  6 ++----
 phase2/lagrange.go |  6 ++----
 phase2/parted.go   |  7 ++++---
 phase2/phase2.go   |  8 ++++++--
 phase2/utils.go    | 10 +++++-----
 7 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index a4fa75e..e6a3a9d 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -103,7 +103,6 @@ func extractPK(phase2Path string) error {
 	}
 	defer pkFile.Close()
 	pkWriter := bufio.NewWriter(pkFile)
-	defer pkWriter.Flush()
 	encPk := bn254.NewEncoder((pkWriter))
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -111,7 +110,9 @@ func extractPK(phase2Path string) error {
 
 	// 0. Write domain
 	domain := fft.NewDomain(uint64(header.Domain))
-	domain.WriteTo(pkWriter)
+	if _, err := domain.WriteTo(pkWriter); err != nil {
+		return err
+	}
 
 	// 1. Read/Write [α]₁
 	if err := decEvals.Decode(&alphaG1); err != nil {
@@ -234,7 +235,7 @@ func extractPK(phase2Path string) error {
 		return err
 	}
 
-	return nil
+	return pkWriter.Flush()
 }
 
 func extractSplitPK(phase2Path, session string) error {
@@ -271,7 +272,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkEFile.Close()
 	pkEWriter := bufio.NewWriter(pkEFile)
-	defer pkEWriter.Flush()
 	encPkE := bn254.NewEncoder(pkEWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.A.save", session)
@@ -281,7 +281,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkAFile.Close()
 	pkAWriter := bufio.NewWriter(pkAFile)
-	defer pkAWriter.Flush()
 	encPkA := bn254.NewEncoder(pkAWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B1.save", session)
@@ -291,7 +290,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB1File.Close()
 	pkB1Writer := bufio.NewWriter(pkB1File)
-	defer pkB1Writer.Flush()
 	encPkB1 := bn254.NewEncoder(pkB1Writer, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.Z.save", session)
@@ -301,7 +299,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkZFile.Close()
 	pkZWriter := bufio.NewWriter(pkZFile)
-	defer pkZWriter.Flush()
 	encPkZ := bn254.NewEncoder(pkZWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.K.save", session)
@@ -311,7 +308,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkKFile.Close()
 	pkKWriter := bufio.NewWriter(pkKFile)
-	defer pkKWriter.Flush()
 	encPkK := bn254.NewEncoder(pkKWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B2.save", session)
@@ -321,7 +317,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB2File.Close()
 	pkB2Writer := bufio.NewWriter(pkB2File)
-	defer pkB2Writer.Flush()
 	encPkB2 := bn254.NewEncoder(pkB2Writer, bn254.RawEncoding())
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -458,6 +453,11 @@ func extractSplitPK(phase2Path, session string) error {
 		return err
 	}
 
+	for _, writer := range []*bufio.Writer{pkEWriter, pkAWriter, pkB1Writer, pkZWriter, pkKWriter, pkB2Writer} {
+		if err := writer.Flush(); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -495,7 +495,6 @@ func extractVK(phase2Path string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -551,7 +550,7 @@ func extractVK(phase2Path string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-	return nil
+	return vkWriter.Flush()
 }
 
 func extractSplitVK(phase2Path, session string) error {
@@ -589,7 +588,6 @@ func extractSplitVK(phase2Path, session string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -645,6 +643,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
diff --git a/phase1/phase1.go b/phase1/phase1.go
index a799fc9..29f3ab0 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -97,12 +97,13 @@ func Initialize(power byte, outputPath string) error {
 	fmt.Printf("Power %d supports up to %d constraints\n", power, N)
 
 	// Write the header
-	header.writeTo(outputFile)
+	if err := header.writeTo(outputFile); err != nil {
+		return err
+	}
 
 	// Use buffered IO to write parameters efficiently
 	buffSize := int(math.Pow(2, 20))
 	writer := bufio.NewWriterSize(outputFile, buffSize)
-	defer writer.Flush()
 
 	// BN254 encoder using compressed representation of points to save storage space
 	enc := bn254.NewEncoder(writer)
@@ -142,7 +143,12 @@ func Initialize(power byte, outputPath string) error {
 
 	// Write [β]₂
 	fmt.Println("5. Writing BetaG2")
-	enc.Encode(&g2)
+	if err := enc.Encode(&g2); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Initialization has been completed successfully")
 	return nil
@@ -181,7 +187,6 @@ func Contribute(inputPath, outputPath string) error {
 	// Use buffered IO to write parameters efficiently
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -267,7 +272,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase1/utils.go b/phase1/utils.go
index c15e47c..c08879e 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -310,7 +310,6 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -323,7 +322,7 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
@@ -333,7 +332,6 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -346,5 +344,5 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/lagrange.go b/phase2/lagrange.go
index ea5dd0a..b956cd7 100644
--- a/phase2/lagrange.go
+++ b/phase2/lagrange.go
@@ -17,7 +17,6 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -34,7 +33,7 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
 
 func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain) error {
@@ -45,7 +44,6 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -62,5 +60,5 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/parted.go b/phase2/parted.go
index a19446e..d95f7d0 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -210,7 +210,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -269,7 +268,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -286,5 +284,8 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 		return err
 	}
 
-	return nil
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return evalWriter.Flush()
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index af219a7..963e515 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -72,7 +72,6 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Read/Write header with extra contribution
@@ -154,7 +153,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase2/utils.go b/phase2/utils.go
index 7a74cb4..71807fc 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -229,7 +229,6 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase2File *os.File) error {
 	fmt.Println("Processing Delta and Z")
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Write [δ]₁ and [δ]₂
@@ -271,7 +270,7 @@ func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phase2File *os.File) error {
@@ -296,7 +295,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -352,7 +350,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -369,7 +366,10 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	return nil
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return evalWriter.Flush()
 }
 
 func accumulateG1(r1cs *cs_bn254.R1CS, res *bn254.G1Affine, t constraint.Term, value *bn254.G1Affine) {
-- 
2.43.0


From 5c1b6bb0a369d40b07eac05ffb756caa881d0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 16/19] fix: p1n and p1t check the range of powers

A negative power, or one over 255, was cut to a byte and taken as another one,
and a power of 0 gives a file no one can contribute to.
---
 actions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/actions.go b/actions.go
index 52eb39c..7ae23b2 100644
--- a/actions.go
+++ b/actions.go
@@ -26,6 +26,9 @@ func p1t(cCtx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if outPower < 1 || inPower > 28 {
+		return errors.New("can't support powers smaller than 1 or larger than 28")
+	}
 	if inPower < outPower {
 		return errors.New("cannot transform to a higher power")
 	}
@@ -43,6 +46,9 @@ func p1n(cCtx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if power < 1 {
+		return errors.New("can't support powers smaller than 1")
+	}
 	if power > 26 {
 		return errors.New("can't support powers larger than 26")
 	}
-- 
2.43.0


From bd0494109a95d5bdfee813176c531cc14065a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 17/19] fix: phase 1 header with a power out of range is an
 error

Sizes derived from such a power overflow, and the commands panicked.
---
 phase1/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phase1/header.go b/phase1/header.go
index 7fe661a..e01b392 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -2,6 +2,7 @@ package phase1
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 )
 
@@ -17,6 +18,9 @@ func (p *Header) ReadFrom(reader io.Reader) error {
 		return err
 	}
 	p.Power = buffPower[0]
+	if p.Power < 1 || p.Power > 28 {
+		return errors.New("power is out of range")
+	}
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
-- 
2.43.0


From 454bf9f158c0e3e359c1ceca2d87d94d7b741546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 18/19] fix: accept circuits with more than 2^27 constraints

The domain was limited to 2^27 although phase 1 supports a power of 28: larger
circuits that fit it panicked.
---
 phase2/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 71807fc..bb8f020 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -23,7 +23,7 @@ import (
 
 func nextPowerofTwo(number int) int {
 	res := 2
-	for i := 1; i < 28; i++ { // max power is 28
+	for i := 1; i <= 28; i++ { // max power is 28
 		if res >= number {
 			return res
 		} else {
-- 
2.43.0


From c08e24b47138b145ab939edbf8de768316ae2802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 19/19] fix: ExportSol panicked on I/O failures instead of
 returning an error

---
 keys/keys.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index e6a3a9d..536d4e8 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -690,20 +690,22 @@ func ExtractSplitKeys(phase2Path, session string) error {
 func ExportSol(session string) error {
 	filename := session + ".sol"
 	fmt.Printf("Exporting %s\n", filename)
-	f, _ := os.Open(session + ".vk.save")
-	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
-	_, err := verifyingKey.ReadFrom(f)
+	f, err := os.Open(session + ".vk.save")
 	if err != nil {
-		panic(fmt.Errorf("read file error"))
+		return err
 	}
-	err = f.Close()
-	f, err = os.Create(filename)
-	if err != nil {
-		panic(err)
+	defer f.Close()
+	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
+	if _, err := verifyingKey.ReadFrom(f); err != nil {
+		return err
 	}
-	err = verifyingKey.ExportSolidity(f)
+	out, err := os.Create(filename)
 	if err != nil {
-		panic(err)
+		return err
+	}
+	defer out.Close()
+	if err := verifyingKey.ExportSolidity(out); err != nil {
+		return err
 	}
 	fmt.Printf("%s has been extracted successfully\n", filename)
 	return nil
-- 
2.43.0

