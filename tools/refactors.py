#!/usr/bin/env python3
"""Behaviour-preserving edits, to see that the checks stay quiet on them.
refactors.py [name...]: applies each to a copy of /repo, builds it, runs the engine on the properties it concerns."""
import sys, os, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
R = []
def rf(name, props, *edits): R.append((name, props.split(), edits))

P1, P1U, P1C = 'phase1/phase1.go', 'phase1/utils.go', 'phase1/contribution.go'
P2, P2U, P2C = 'phase2/phase2.go', 'phase2/utils.go', 'phase2/contribution.go'

def loops(g, n, c): return '''	for i := 0; i < %s; i++ {
		if err := enc.Encode(&%s); err != nil {
			return err
		}
	}
''' % (n, g)
rf('p1init-helper', 'C01 C22',
   (P1, loops('g1', '2*N-1', 0), '	if err := writeG1Copies(enc, &g1, 2*N-1); err != nil {\n		return err\n	}\n'),
   (P1, loops('g1', 'N', 0), '	if err := writeG1Copies(enc, &g1, N); err != nil {\n		return err\n	}\n'),
   (P1, 'func Initialize(', '''func writeG1Copies(enc *bn254.Encoder, g1 *bn254.G1Affine, count int) error {
	for i := 0; i < count; i++ {
		if err := enc.Encode(g1); err != nil {
			return err
		}
	}
	return nil
}

func Initialize('''))
rf('p1init-shift', 'C01 C22', (P1, '''	N := int(math.Pow(2, float64(power)))
''', '''	N := 1 << power
'''), (P1, '''	for i := 0; i < 2*N-1; i++ {''', '''	for i := 2*N - 1; i > 0; i-- {'''))
rf('p1init-nested', 'C01 C22', (P1, loops('g1', 'N', 0), '	for k := 0; k < 1; k++ {\n' + loops('g1', 'N', 0) + '	}\n'))
rf('p1init-sections', 'C01 C22', (P1, '''	fmt.Println("1. Writing TauG1")
''' + loops('g1', '2*N-1', 0), '''	fmt.Println("1. Writing TauG1")
	for _, count := range []int{2*N - 1} {
		for i := 0; i < count; i++ {
			if err := enc.Encode(&g1); err != nil {
				return err
			}
		}
	}
'''))
rf('p1contribute-betahelper', 'C02 C03 C22', (P1, '''	var betaG2 bn254.G2Affine
	var betaBi big.Int
	if err := dec.Decode(&betaG2); err != nil {
		return err
	}
	beta.BigInt(&betaBi)
	betaG2.ScalarMultiplication(&betaG2, &betaBi)
	if err := enc.Encode(&betaG2); err != nil {
		return err
	}
	contribution.G2.Beta.Set(&betaG2)
''', '''	betaG2, err := scaleBetaG2(dec, enc, &beta)
	if err != nil {
		return err
	}
	contribution.G2.Beta = *betaG2
'''), (P1, 'func Contribute(', '''func scaleBetaG2(dec *bn254.Decoder, enc *bn254.Encoder, beta *fr.Element) (*bn254.G2Affine, error) {
	var point bn254.G2Affine
	if err := dec.Decode(&point); err != nil {
		return nil, err
	}
	var scalar big.Int
	point.ScalarMultiplication(&point, beta.BigInt(&scalar))
	if err := enc.Encode(&point); err != nil {
		return nil, err
	}
	return &point, nil
}

func Contribute('''))
rf('p1contribute-prevhash', 'C03', (P1, '''	// Get hash of previous contribution
	var prevHash []byte
	if nExistingContributions == 0 {
		prevHash = nil
	} else {
		prevHash = c.Hash
	}

	// Generate public keys
	contribution.PublicKeys.Tau''', '''	// Hash of the previous contribution (nil for the first)
	prevHash := c.Hash

	// Generate public keys
	contribution.PublicKeys.Tau'''))
rf('p1contribute-copyhelper', 'C02 C03 C22', (P1, '''	var c Contribution
	for i := 0; i < nExistingContributions; i++ {
		if _, err := c.ReadFrom(reader); err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {
			return err
		}
	}

	// Get hash of previous contribution
	var prevHash []byte
	if nExistingContributions == 0 {
		prevHash = nil
	} else {
		prevHash = c.Hash
	}
''', '''	prevHash, err := copyContributions(reader, writer, nExistingContributions)
	if err != nil {
		return err
	}
'''), (P1, 'func Contribute(', '''func copyContributions(reader *bufio.Reader, writer *bufio.Writer, count int) ([]byte, error) {
	var lastHash []byte
	for i := 0; i < count; i++ {
		var c Contribution
		if _, err := c.ReadFrom(reader); err != nil {
			return nil, err
		}
		if _, err := c.writeTo(writer); err != nil {
			return nil, err
		}
		lastHash = c.Hash
	}
	return lastHash, nil
}

func Contribute('''))
rf('p1scale-offsets', 'C02 C03 C22', (P1U, '''	remaining := N
	for remaining > 0 {
		// Read batch
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
''', '''	for offset := 0; offset < N; offset += batchSize {
		// Read batch
		readCount := N - offset
		if readCount > batchSize {
			readCount = batchSize
		}
'''), (P1U, '''				firstPoint.Set(&buff[0])
			}
		}

		// Update remaining
		remaining -= readCount
	}''', '''				firstPoint.Set(&buff[0])
			}
		}
	}'''), (P1U, '''			firstPoint.Set(&buff[1])

		}

		// Update remaining
		remaining -= readCount
	}''', '''			firstPoint.Set(&buff[1])

		}
	}'''))
rf('p1scale-helpers', 'C02 C03 C22', (P1U, '''		for i := 0; i < readCount; i++ {
			if err := dec.Decode(&buff[i]); err != nil {
				return nil, err
			}
		}

		// Compute powers for the current batch
		scalars = powers(&startPower, tau, readCount)

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If''', '''		if err := readBatchG1(dec, buff[:readCount]); err != nil {
			return nil, err
		}

		// Compute powers for the current batch
		scalars = powers(&startPower, tau, readCount)

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If'''), (P1U, '''func scaleG1(''', '''func readBatchG1(dec *bn254.Decoder, batch []bn254.G1Affine) error {
	for i := range batch {
		if err := dec.Decode(&batch[i]); err != nil {
			return err
		}
	}
	return nil
}

func scaleG1('''))
rf('p1powers-cur', 'C02 C03', (P1U, '''	result[0].Set(a)
	for i := 1; i < n; i++ {
		result[i].Mul(&result[i-1], b)
	}
''', '''	current := *a
	for i := range result {
		result[i].Set(&current)
		current.Mul(&current, b)
	}
'''))
rf('p1scale-firstflag', 'C02 C03', (P1U, '''	var scalars []fr.Element
	startPower.SetOne()

	remaining := N
	for remaining > 0 {
		// Read batch
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
		for i := 0; i < readCount; i++ {
			if err := dec.Decode(&buff[i]); err != nil {
				return nil, err
			}
		}

		// Compute powers for the current batch
		scalars = powers(&startPower, tau, readCount)

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If''', '''	var scalars []fr.Element
	startPower.SetOne()
	isFirst := true

	remaining := N
	for remaining > 0 {
		// Read batch
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
		for i := 0; i < readCount; i++ {
			if err := dec.Decode(&buff[i]); err != nil {
				return nil, err
			}
		}

		// Compute powers for the current batch
		scalars = powers(&startPower, tau, readCount)

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If'''), (P1U, '''		if firstPoint.X.IsZero() {
			if multiplicand == nil {''', '''		if isFirst {
			isFirst = false
			if multiplicand == nil {'''))
rf('p1verifycontribution-helper', 'C05 C06', (P1U, '''	// Check for knowledge of toxic parameters
	if !common.SameRatio(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, current.PublicKeys.Tau.SPX, tauSP) {
		return errors.New("couldn't verify knowledge of Tau")
	}
	if !common.SameRatio(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, current.PublicKeys.Alpha.SPX, alphaSP) {
		return errors.New("couldn't verify knowledge of Alpha")
	}
	if !common.SameRatio(current.PublicKeys.Beta.S, current.PublicKeys.Beta.SX, current.PublicKeys.Beta.SPX, betaSP) {
		return errors.New("couldn't verify knowledge of Beta")
	}
''', '''	// Check for knowledge of toxic parameters
	for _, k := range []struct {
		name string
		pk   common.PublicKey
		sp   bn254.G2Affine
	}{
		{"Tau", current.PublicKeys.Tau, tauSP},
		{"Alpha", current.PublicKeys.Alpha, alphaSP},
		{"Beta", current.PublicKeys.Beta, betaSP},
	} {
		if !knows(k.pk, k.sp) {
			return errors.New("couldn't verify knowledge of " + k.name)
		}
	}
'''), (P1U, 'func verifyContribution(', '''func knows(pk common.PublicKey, sp bn254.G2Affine) bool {
	return common.SameRatio(pk.S, pk.SX, pk.SPX, sp)
}

func verifyContribution('''))
rf('p1verifycontribution-order', 'C05 C06', (P1U, '''	// Check hash of the contribution
	h := computeHash(&current)
	if !bytes.Equal(current.Hash, h) {
		return errors.New("couldn't verify hash of contribution")
	}

	return nil
''', '''	return nil
'''), (P1U, '''	// A proof of knowledge with points at infinity proves nothing, and allows zero τ''', '''	// Check hash of the contribution
	if h := computeHash(&current); !bytes.Equal(h, current.Hash) {
		return errors.New("couldn't verify hash of contribution")
	}

	// A proof of knowledge with points at infinity proves nothing, and allows zero τ'''))
TE = '''	toEncode := []interface{}{
		&c.G1.Tau,
		&c.G1.Alpha,
		&c.G1.Beta,
		&c.G2.Tau,
		&c.G2.Beta,
		&c.PublicKeys.Tau.S,
		&c.PublicKeys.Tau.SX,
		&c.PublicKeys.Tau.SPX,
		&c.PublicKeys.Alpha.S,
		&c.PublicKeys.Alpha.SX,
		&c.PublicKeys.Alpha.SPX,
		&c.PublicKeys.Beta.S,
		&c.PublicKeys.Beta.SX,
		&c.PublicKeys.Beta.SPX,
	}
'''
rf('p1contribution-fields', 'C02 C03 C05 C06 C20 C22', (P1C, TE, '	toEncode := c.fields()\n'), (P1C, TE.replace('toEncode', 'toDecode'), '	toDecode := c.fields()\n'),
   (P1C, 'func (c *Contribution) writeTo', TE.replace('	toEncode := ', '	return ').join(['// fields in the order of the file\nfunc (c *Contribution) fields() []interface{} {\n', '}\n\n']) + 'func (c *Contribution) writeTo'))
rf('p1contribution-explicit', 'C03 C20', (P1C, '''	for _, v := range toEncode {
		if err := enc.Encode(v); err != nil {
			return enc.BytesWritten(), err
		}
	}
	nBytes, err := writer.Write(c.Hash)
	return int64(nBytes), err''', '''	for i := 0; i < len(toEncode); i++ {
		err := enc.Encode(toEncode[i])
		if err != nil {
			return enc.BytesWritten(), err
		}
	}
	written, err := writer.Write(c.Hash)
	return int64(written), err'''))
rf('p1lincomb-offset', 'C04 C05 C06 C22', (P1U, '''	remaining := N - 1
	for remaining > 0 {
		// Read batch
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
''', '''	for done := 1; done < N; {
		// Read batch
		readCount := N - done
		if readCount > batchSize {
			readCount = batchSize
		}
'''), (P1U, '''		// Update remaining
		remaining -= readCount
	}
	return first, L1, L2, nil''', '''		done += readCount
	}
	return first, L1, L2, nil'''))
rf('p1lincomb-range', 'C04 C06', (P1U, '''		for i := 1; i <= readCount; i++ {
			if err := dec.Decode(&buff[i]); err != nil {
				return first, L1, L2, err
			}
		}
''', '''		batch := buff[1 : readCount+1]
		for i := range batch {
			if err := dec.Decode(&batch[i]); err != nil {
				return first, L1, L2, err
			}
		}
'''))
rf('p1lincomb-randhelper', 'C04 C06', (P1U, '''		// Generate randomness
		randomize(r)
''', '''		// Generate randomness
		r := randomScalars(readCount)
'''), (P1U, '''	r := make([]fr.Element, initialSize)
	var first''', '''	var first'''), (P1U, 'func linearCombinationG1(', '''func randomScalars(n int) []fr.Element {
	r := make([]fr.Element, n)
	randomize(r)
	return r
}

func linearCombinationG1('''))
rf('p1verify-reorder', 'C04 C05 C06 C22', (P1, '''	// Verify BetaG2
	fmt.Println("Verifying powers of BetaG2")
	if !betaG2.Equal(&current.G2.Beta) {
		return errors.New("failed verifying update of Beta")
	}

''', ''), (P1, '''	// Verify that the powers start from the generators and''', '''	fmt.Println("Verifying powers of BetaG2")
	if !current.G2.Beta.Equal(&betaG2) {
		return errors.New("failed verifying update of Beta")
	}
	// Verify that the powers start from the generators and'''))
rf('p1verify-ratiohelper', 'C04 C05 C06', (P1, '''	fmt.Println("Verifying powers of AlphaTauG1")
	if !common.SameRatio(alphaTau1L1, alphaTau1L2, current.G2.Tau, g2) {
		return errors.New("failed pairing check")
	}
''', '''	if err := checkPowers("AlphaTauG1", alphaTau1L1, alphaTau1L2, current.G2.Tau, g2); err != nil {
		return err
	}
'''), (P1, '''	fmt.Println("Verifying powers of BetaTauG1")
	if !common.SameRatio(betaTau1L1, betaTau1L2, current.G2.Tau, g2) {
		return errors.New("failed pairing check")
	}
''', '''	if err := checkPowers("BetaTauG1", betaTau1L1, betaTau1L2, current.G2.Tau, g2); err != nil {
		return err
	}
'''), (P1, 'func Verify(', '''func checkPowers(section string, l1, l2 bn254.G1Affine, tau2, g2 bn254.G2Affine) error {
	fmt.Println("Verifying powers of " + section)
	if common.SameRatio(l1, l2, tau2, g2) {
		return nil
	}
	return errors.New("failed pairing check")
}

func Verify('''))
rf('p1verify-loop', 'C04 C05 C06 C22', (P1, '''	for i := 0; i < int(header.Contributions); i++ {
		if _, err := current.ReadFrom(reader); err != nil {
			return err
		}
		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(current.Hash))
		if err := verifyContribution(current, prev); err != nil {
			return err
		}
		prev = current
	}
''', '''	for i := uint16(1); i <= header.Contributions; i++ {
		var next Contribution
		if _, err := next.ReadFrom(reader); err != nil {
			return err
		}
		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i, hex.EncodeToString(next.Hash))
		if err := verifyContribution(next, prev); err != nil {
			return err
		}
		prev, current = next, next
		if i == header.Contributions {
			break
		}
	}
'''))
rf('p1transform-table', 'C07 C22', (P1, '''	// Transform AlphaG1
	fmt.Println("Transforming AlphaG1")
	if err := transformG1(inputFile, outputFile, posAlphaG1, outN); err != nil {
		return err
	}

	// Transform BetaG1
	fmt.Println("Transforming BetaG1")
	if err := transformG1(inputFile, outputFile, posBetaG1, outN); err != nil {
		return err
	}
''', '''	for _, section := range []struct {
		name string
		pos  int64
	}{{"AlphaG1", posAlphaG1}, {"BetaG1", posBetaG1}} {
		fmt.Println("Transforming " + section.name)
		if err := transformG1(inputFile, outputFile, section.pos, outN); err != nil {
			return err
		}
	}
'''))
rf('p1transform-point', 'C07 C22', (P1U, '''	var g1 bn254.G1Affine
	if _, err := inputFile.Seek(''', '''	if _, err := inputFile.Seek('''), (P1U, '''	for i := 0; i < size; i++ {
		if err := dec.Decode(&g1); err != nil {''', '''	for left := size; left > 0; left-- {
		var g1 bn254.G1Affine
		if err := dec.Decode(&g1); err != nil {'''))
rf('p2pow', 'C08 C10', (P2U, '''	res := 2
	for i := 1; i <= 28; i++ { // max power is 28
		if res >= number {
			return res
		} else {
			res *= 2
		}
	}
	// Shouldn't happen
	panic("the power is beyond 28")
''', '''	res := 2
	for res < number {
		res <<= 1
	}
	if res > 1<<28 {
		panic("the power is beyond 28")
	}
	return res
'''))
rf('p2pow-power', 'C08 C12', (P2U, '''	res := 2
	for i := 1; i <= 28; i++ { // max power is 28
		if res >= number {
			return res
		} else {
			res *= 2
		}
	}
''', '''	for power := 1; power <= 28; power++ { // max power is 28
		if size := 1 << power; size >= number {
			return size
		}
	}
'''))
HD = '''	// Initialize Domain, #Wires, #Witness, #Public, #PrivateCommitted
	header2.Wires = r1cs.NbInternalVariables + r1cs.GetNbPublicVariables() + r1cs.GetNbSecretVariables()
	header2.PrivateCommitted = r1cs.CommitmentInfo.NbPrivateCommitted
	header2.Public = r1cs.GetNbPublicVariables()
	header2.Witness = r1cs.GetNbSecretVariables() + r1cs.NbInternalVariables - header2.PrivateCommitted

	if r1cs.CommitmentInfo.Is() { // the commitment itself is defined by a hint so the prover considers it private
		header2.Public++  // but the verifier will need to inject the value itself so on the groth16
		header2.Witness-- // level it must be considered public
	}
'''
rf('p2header-helper', 'C08 C13', (P2U, HD, '	header2.fill(&r1cs)\n'), ('phase2/parted.go', HD, '	header2.fill(r1cs)\n'),
   (P2U, 'func processHeader(', '''// fill sets the sizes of a circuit
func (h *Header) fill(r1cs *cs_bn254.R1CS) {
	nbPublic, nbSecret := r1cs.GetNbPublicVariables(), r1cs.GetNbSecretVariables()
	nbCommitted := r1cs.CommitmentInfo.NbPrivateCommitted
	h.Wires = r1cs.NbInternalVariables + nbPublic + nbSecret
	h.PrivateCommitted = nbCommitted
	h.Public, h.Witness = nbPublic, r1cs.NbInternalVariables+nbSecret-nbCommitted
	if !r1cs.CommitmentInfo.Is() {
		return
	}
	h.Public++
	h.Witness--
}

func processHeader('''))
rf('p2acc-helper', 'C10 C22', (P2U, '''	for i, c := range r1cs.Constraints {
		for _, t := range c.L {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
	}
''', '''	for i, c := range r1cs.Constraints {
		accumulateAll(&r1cs, buff, c.L, &tauG1[i])
	}
'''), (P2U, 'func accumulateG1(', '''func accumulateAll(r1cs *cs_bn254.R1CS, buff []bn254.G1Affine, terms constraint.LinearExpression, value *bn254.G1Affine) {
	for _, t := range terms {
		accumulateG1(r1cs, &buff[t.WireID()], t, value)
	}
}

func accumulateG1('''))
rf('p2acc-simple', 'C10 C11', (P2U, '''	case constraint.CoeffIdOne:
		res.Add(res, value)
	case constraint.CoeffIdMinusOne:
		res.Sub(res, value)
	case constraint.CoeffIdTwo:
		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G1Affine
		var vBi big.Int
		r1cs.Coefficients[cID].BigInt(&vBi)
		tmp.ScalarMultiplication(value, &vBi)
		res.Add(res, &tmp)
	}
''', '''	case constraint.CoeffIdOne:
		res.Add(res, value)
	default:
		var tmp bn254.G1Affine
		var vBi big.Int
		r1cs.Coefficients[cID].BigInt(&vBi)
		tmp.ScalarMultiplication(value, &vBi)
		res.Add(res, &tmp)
	}
'''))
rf('p2acc-index', 'C10 C11', (P2U, '''		for _, t := range c.R {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
''', '''		for j := range c.R {
			wire := c.R[j].WireID()
			accumulateG1(&r1cs, &buff[wire], c.R[j], &tauG1[i])
		}
'''))
FL = '''		if isCommittedPrivate {
			ckk[cI].Set(&L[i])
			cI++
		} else if isCommitment || isPublic {
			vkk[vI].Set(&L[i])
			vI++
		} else {
			pkk[i-cI-vI].Set(&L[i])
		}
'''
rf('p2filter-switch', 'C11 C12 C22', (P2U, FL, '''		switch {
		case isCommittedPrivate:
			ckk[cI] = L[i]
			cI++
		case isCommitment || isPublic:
			vkk[vI] = L[i]
			vI++
		default:
			pkk[pI] = L[i]
			pI++
		}
'''), (P2U, '	vI, cI := 0, 0\n', '	pI, vI, cI := 0, 0, 0\n'))
rf('p2filter-early', 'C11 C12', (P2U, FL, '''		if isCommittedPrivate {
			ckk[cI].Set(&L[i])
			cI++
			continue
		}
		if isPublic || isCommitment {
			vkk[vI].Set(&L[i])
			vI++
			continue
		}
		pkk[i-cI-vI].Set(&L[i])
'''), (P2U, '''		isPublic := i < nbPublic
''', '''		isPublic := nbPublic > i
'''))
rf('p2z-append', 'C12', (P2U, '''	Z := make([]bn254.G1Affine, n)
	for i := 0; i < n-1; i++ {
		Z[i].Sub(&tauG1[i+n], &tauG1[i])
	}
''', '''	Z := make([]bn254.G1Affine, n)
	low, high := tauG1[:n-1], tauG1[n:]
	for i := range low {
		Z[i].Sub(&high[i], &low[i])
	}
'''))
rf('p2z-helper', 'C12 C22', (P2U, '''	// Write Z
	for i := 0; i < len(Z); i++ {
		if err := enc.Encode(&Z[i]); err != nil {
			return err
		}
	}
''', '''	// Write Z
	if err := encodePoints(enc, Z); err != nil {
		return err
	}
'''), (P2U, '''	// Write PKK
	for i := 0; i < len(pkk); i++ {
		if err := enc.Encode(&pkk[i]); err != nil {
			return err
		}
	}
''', '''	// Write PKK
	if err := encodePoints(enc, pkk); err != nil {
		return err
	}
'''), (P2U, 'func processPVCKK(', '''func encodePoints(enc *bn254.Encoder, points []bn254.G1Affine) error {
	for i := range points {
		if err := enc.Encode(&points[i]); err != nil {
			return err
		}
	}
	return nil
}

func processPVCKK('''))
rf('p2z-negsub', 'C12', (P2U, '''	for i := 0; i < n-1; i++ {
		Z[i].Sub(&tauG1[i+n], &tauG1[i])
	}
''', '''	for i := 0; i < n-1; i++ {
		var minus bn254.G1Affine
		minus.Neg(&tauG1[i])
		Z[i].Add(&minus, &tauG1[n+i])
	}
'''))
rf('p2lagrange-pos', 'C10 C11', (P2U, '''	pos += 32 * (2*int64(N) - 1)
''', '''	const g1Size = 32
	pos = 3 + g1Size*int64(2*N-1)
'''))
rf('p2scale-offset', 'C14 C22', (P2U, '''	remaining := N
	for remaining > 0 {
		// Read batch
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
''', '''	for offset := 0; offset < N; offset += batchSize {
		end := offset + batchSize
		if end > N {
			end = N
		}
		readCount := end - offset
'''), (P2U, '''		// Write batch
		for i := 0; i < readCount; i++ {
			if err := enc.Encode(&buff[i]); err != nil {
				return err
			}
		}

		// Update remaining
		remaining -= readCount
	}
''', '''		// Write batch
		for i := range buff[:readCount] {
			if err := enc.Encode(&buff[i]); err != nil {
				return err
			}
		}
	}
'''))
rf('p2contribute-helper', 'C14 C22', (P2, '''	// Process δ₁
	fmt.Println("Processing DeltaG1 and DeltaG2")
	var delta1 bn254.G1Affine
	if err := dec.Decode(&delta1); err != nil {
		return err
	}
	delta1.ScalarMultiplication(&delta1, &deltaBI)
	if err := enc.Encode(&delta1); err != nil {
		return err
	}

	// Process δ₂
	var delta2 bn254.G2Affine
	if err := dec.Decode(&delta2); err != nil {
		return err
	}
	delta2.ScalarMultiplication(&delta2, &deltaBI)
	if err := enc.Encode(&delta2); err != nil {
		return err
	}
''', '''	// Process δ₁ and δ₂
	fmt.Println("Processing DeltaG1 and DeltaG2")
	var delta1 bn254.G1Affine
	var delta2 bn254.G2Affine
	for _, p := range []interface{}{&delta1, &delta2} {
		if err := dec.Decode(p); err != nil {
			return err
		}
	}
	delta1.ScalarMultiplication(&delta1, &deltaBI)
	delta2.ScalarMultiplication(&delta2, &deltaBI)
	for _, p := range []interface{}{&delta1, &delta2} {
		if err := enc.Encode(p); err != nil {
			return err
		}
	}
'''))
rf('p2verify-helper', 'C15 C16 C22', (P2, '''	for i := 0; i < curHeader.Contributions; i++ {
		if _, err := c.readFrom(inputReader); err != nil {
			return err
		}
		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(c.Hash))
		if err := verifyContribution(&c, prevDelta, prevHash); err != nil {
			return err
		}
		prevDelta = c.Delta
		prevHash = c.Hash
	}

	// Verify last contribution has the same delta in parameters
	fmt.Println("Verifying Delta of last contribution")
	if !c.Delta.Equal(&d1) {''', '''	for i := 1; i <= curHeader.Contributions; i++ {
		var c Contribution
		if _, err := c.readFrom(inputReader); err != nil {
			return err
		}
		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i, hex.EncodeToString(c.Hash))
		if err := verifyContribution(&c, prevDelta, prevHash); err != nil {
			return err
		}
		prevDelta, prevHash = c.Delta, c.Hash
	}

	// Verify last contribution has the same delta in parameters
	fmt.Println("Verifying Delta of last contribution")
	if !prevDelta.Equal(&d1) {'''), (P2, '''	var c Contribution
	for i := 1;''', '''	for i := 1;'''))
rf('p2aggregate-helper', 'C15 C16 C22', (P2U, '''		// Read from input
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
		for i := 0; i < readCount; i++ {
			if err := inputDecoder.Decode(&buff[i]); err != nil {
				return nil, nil, err
			}
		}

		// Aggregate input
		if _, err := tmp.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
			return nil, nil, err
		}
		inG.Add(&inG, &tmp)

		// Read from origin
		for i := 0; i < readCount; i++ {
			if err := originDecoder.Decode(&buff[i]); err != nil {
				return nil, nil, err
			}
		}

		// Aggregate origin
		if _, err := tmp.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
			return nil, nil, err
		}
		orG.Add(&orG, &tmp)
''', '''		readCount := remaining
		if readCount > batchSize {
			readCount = batchSize
		}
		if err := aggregateBatch(inputDecoder, buff[:readCount], r[:readCount], &inG); err != nil {
			return nil, nil, err
		}
		if err := aggregateBatch(originDecoder, buff[:readCount], r[:readCount], &orG); err != nil {
			return nil, nil, err
		}
'''), (P2U, 'var inG, orG, tmp bn254.G1Affine', 'var inG, orG bn254.G1Affine'), (P2U, 'func aggregate(', '''// aggregateBatch adds the combination of the next points to sum
func aggregateBatch(dec *bn254.Decoder, buff []bn254.G1Affine, r []fr.Element, sum *bn254.G1Affine) error {
	for i := range buff {
		if err := dec.Decode(&buff[i]); err != nil {
			return err
		}
	}
	var part bn254.G1Affine
	if _, err := part.MultiExp(buff, r, ecc.MultiExpConfig{}); err != nil {
		return err
	}
	sum.Add(sum, &part)
	return nil
}

func aggregate('''))
rf('keys-filter', 'C17 C18', ('keys/keys.go', '''	j := 0
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i] = true
			continue
		}
		filtered[j] = buff[i]
		j++
	}
	return filtered[:j], infinityAt, uint64(len(buff) - j)
}

func filterInfinityG2''', '''	j, nbInfinity := 0, uint64(0)
	for i := 0; i < len(buff); i++ {
		if buff[i].IsInfinity() {
			infinityAt[i] = true
			nbInfinity++
		} else {
			filtered[j].Set(&buff[i])
			j++
		}
	}
	return filtered[:j], infinityAt, nbInfinity
}

func filterInfinityG2'''))
rf('keys-readpoints', 'C17 C22', ('keys/keys.go', '''	buffG1 = make([]bn254.G1Affine, header.Domain-1)
	for i := 0; i < header.Domain-1; i++ {
		if err := decPh2.Decode(&buffG1[i]); err != nil {
			return err
		}
	}
	if err := encPk.Encode(buffG1); err != nil {
		return err
	}
''', '''	if buffG1, err = readG1(decPh2, header.Domain-1); err != nil {
		return err
	}
	if err := encPk.Encode(buffG1); err != nil {
		return err
	}
'''), ('keys/keys.go', 'func extractPK(', '''func readG1(dec *bn254.Decoder, n int) ([]bn254.G1Affine, error) {
	points := make([]bn254.G1Affine, n)
	for i := range points {
		if err := dec.Decode(&points[i]); err != nil {
			return nil, err
		}
	}
	return points, nil
}

func extractPK('''))
rf('keys-vkhelper', 'C19 C22', ('keys/keys.go', '''	// [α]1,[β]1,[β]2,[γ]2,[δ]1,[δ]2
	if err := enc.Encode(&vk.G1.Alpha); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G1.Beta); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G2.Beta); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G2.Gamma); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G1.Delta); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G2.Delta); err != nil {
		return n + enc.BytesWritten(), err
	}

	// uint32(len(Kvk)),[Kvk]1
	if err := enc.Encode(vk.G1.K); err != nil {
		return n + enc.BytesWritten(), err
	}
''', '''	// [α]1,[β]1,[β]2,[γ]2,[δ]1,[δ]2, uint32(len(Kvk)),[Kvk]1
	for _, v := range []interface{}{&vk.G1.Alpha, &vk.G1.Beta, &vk.G2.Beta, &vk.G2.Gamma, &vk.G1.Delta, &vk.G2.Delta, vk.G1.K} {
		if err := enc.Encode(v); err != nil {
			return n + enc.BytesWritten(), err
		}
	}
'''))
rf('keys-splitcreate', 'C18 C22', ('keys/keys.go', '''	name = fmt.Sprintf("%s.pk.A.save", session)
	pkAFile, err := os.Create(name)
	if err != nil {
		return err
	}
''', '''	pkAFile, err := createPart(session, "A")
	if err != nil {
		return err
	}
'''), ('keys/keys.go', 'func extractSplitPK(', '''func createPart(session, part string) (*os.File, error) {
	return os.Create(session + ".pk." + part + ".save")
}

func extractSplitPK('''))
rf('common-keypair', 'C03 C14 C05', ('common/keypair.go', '''	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
	buffer = append(buffer, challenge...)
''', '''	var buffer []byte
	for _, part := range [][]byte{sG1.Marshal(), sxG1.Marshal(), challenge} {
		buffer = append(buffer, part...)
	}
'''))
rf('common-sameratio', 'C04 C15 C06', ('common/utils.go', '''	var na2 bn254.G2Affine
	na2.Neg(&a2)
	res, err := bn254.PairingCheck(
		[]bn254.G1Affine{a1, b1},
		[]bn254.G2Affine{na2, b2})
''', '''	var negated bn254.G1Affine
	negated.Neg(&a1)
	left := []bn254.G1Affine{negated, b1}
	right := []bn254.G2Affine{a2, b2}
	res, err := bn254.PairingCheck(left, right)
'''))
rf('cli-helper', 'C23', ('actions.go', '''	inPowStr := cCtx.Args().Get(2)
	inPower, err := strconv.Atoi(inPowStr)
	if err != nil {
		return err
	}
	outPowStr := cCtx.Args().Get(3)
	outPower, err := strconv.Atoi(outPowStr)
	if err != nil {
		return err
	}
''', '''	inPower, err := intArg(cCtx, 2)
	if err != nil {
		return err
	}
	outPower, err := intArg(cCtx, 3)
	if err != nil {
		return err
	}
'''), ('actions.go', 'func p1t(', '''func intArg(cCtx *cli.Context, i int) (int, error) {
	return strconv.Atoi(cCtx.Args().Get(i))
}

func p1t('''))
rf('p2np-helper', 'C13', ('phase2/parted.go', '''	for i := 0; i < nbCons; i++ {
		c := r1cs.GetConstraintToSolve(i)
		// Output(Tau)
		for _, t := range c.O {
			accumulateG1(r1cs, &L[t.WireID()], t, &buffSRS[i])
		}
	}
''', '''	for i := range buffSRS[:nbCons] {
		value := &buffSRS[i]
		// Output(Tau)
		for _, t := range r1cs.GetConstraintToSolve(i).O {
			accumulateG1(r1cs, &L[t.WireID()], t, value)
		}
	}
'''))
rf('p2codec', 'C14 C20 C15', (P2C, '''	toEncode := []interface{}{
		&c.Delta,
		&c.PublicKey.S,
		&c.PublicKey.SX,
		&c.PublicKey.SPX,
	}

	enc := bn254.NewEncoder(sha)
	for _, v := range toEncode {
		enc.Encode(v)
	}
''', '''	enc := bn254.NewEncoder(sha)
	enc.Encode(&c.Delta)
	pk := &c.PublicKey
	enc.Encode(&pk.S)
	enc.Encode(&pk.SX)
	enc.Encode(&pk.SPX)
'''))

PL = 'common/parallelize.go'
BODY = '''		go func() {
			work(_start, _end)
			wg.Done()
		}()
'''
rf('par-defer', 'C21', (PL, BODY, '''		go func() {
			defer wg.Done()
			work(_start, _end)
		}()
'''))
rf('par-args', 'C21', (PL, BODY, '''		go func(start, end int) {
			work(start, end)
			wg.Done()
		}(_start, _end)
'''))
rf('par-addall', 'C21', (PL, '''		wg.Add(1)
''', ''), (PL, '''	extraTasks :=''', '''	wg.Add(nbTasks)
	extraTasks :='''))
rf('par-chan', 'C21', (PL, BODY, '''		go func() {
			work(_start, _end)
			done <- struct{}{}
		}()
'''), (PL, '''	var wg sync.WaitGroup
''', '''	done := make(chan struct{}, nbTasks)
'''), (PL, '''		wg.Add(1)
''', ''), (PL, '''	wg.Wait()
''', '''	for i := 0; i < nbTasks; i++ {
		<-done
	}
'''), (PL, '''	"sync"
''', ''))
rf('par-even', 'C21', (PL, '''		_start := i*nbIterationsPerCpus + extraTasksOffset
		_end := _start + nbIterationsPerCpus
		if extraTasks > 0 {
			_end++
			extraTasks--
			extraTasksOffset++
		}
''', '''		_start := i*nbIterationsPerCpus + extraTasksOffset
		_end := _start + nbIterationsPerCpus
		if i < extraTasks {
			_end++
			extraTasksOffset++
		}
'''))
rf('par-running', 'C21', (PL, '''		_start := i*nbIterationsPerCpus + extraTasksOffset
		_end := _start + nbIterationsPerCpus
		if extraTasks > 0 {
			_end++
			extraTasks--
			extraTasksOffset++
		}
''', '''		_start := next
		_end := _start + nbIterationsPerCpus
		if extraTasks > 0 {
			_end++
			extraTasks--
		}
		next = _end
'''), (PL, '''	extraTasksOffset := 0
''', '''	next := 0
'''))
rf('par-inline', 'C21', (PL, '''	var wg sync.WaitGroup
''', '''	if nbTasks == 1 {
		work(0, nbIterations)
		return
	}
	var wg sync.WaitGroup
'''))
rf('par-modulo', 'C21', (PL, '''	extraTasks := nbIterations - (nbTasks * nbIterationsPerCpus)
''', '''	extraTasks := 0
	if nbTasks > 0 {
		extraTasks = nbIterations % nbTasks
	}
'''))

LG = 'lagrange/g1.go'
rf('lag-swap-helper', 'C09', (LG, '''				if irev > j {
					a[j], a[irev] = a[irev], a[j]
				}
''', '''				if j < irev {
					swapG1(a, j, irev)
				}
'''), (LG, 'func ConvertG1(', '''func swapG1(a []bn254.G1Jac, i, j uint64) {
	t := a[i]
	a[i] = a[j]
	a[j] = t
}

func ConvertG1('''))
rf('lag-range-helper', 'C09', (LG, '''			for j := start; j < end; j++ {
				irev := bits.Reverse64(j) >> nn
				if irev > j {
					a[j], a[irev] = a[irev], a[j]
				}
			}
			chDone''', '''			reverseRangeG1(a, nn, start, end)
			chDone'''), (LG, 'func ConvertG1(', '''func reverseRangeG1(a []bn254.G1Jac, nn, start, end uint64) {
	for j := start; j < end; j++ {
		irev := bits.Reverse64(j) >> nn
		if irev <= j {
			continue
		}
		a[j], a[irev] = a[irev], a[j]
	}
}

func ConvertG1('''))
rf('lag-waitgroup', 'C09', (LG, '	chDone := make(chan Empty, numCPU)\n', '	var wg sync.WaitGroup\n	wg.Add(int(numCPU))\n'),
   (LG, '			chDone <- Empty{}\n', '			wg.Done()\n'), (LG, '''	for i := 0; i < int(numCPU); i++ {
		<-chDone
	}
''', '	wg.Wait()\n'), (LG, '	"runtime"\n', '	"runtime"\n	"sync"\n'))
rf('lag-chunk', 'C09', (LG, '''		start := n / numCPU * uint64(id)
		end := n / numCPU * uint64(id+1)
		if id == int(numCPU-1) {
			end = n
		}
''', '''		chunk := n / numCPU
		start := chunk * uint64(id)
		end := start + chunk
		if uint64(id) == numCPU-1 {
			end = n
		}
'''))
rf('lag-chunk-ahead', 'C09', (LG, '''	for id := 0; id < int(numCPU); id++ {
		start := n / numCPU * uint64(id)
''', '''	chunk := n / numCPU
	for id := 0; id < int(numCPU); id++ {
		start := chunk * uint64(id)
'''))
rf('lag-prev-end', 'C09', (LG, '''	for id := 0; id < int(numCPU); id++ {
		start := n / numCPU * uint64(id)
''', '''	next := uint64(0)
	for id := 0; id < int(numCPU); id++ {
		start := next
'''), (LG, '''			end = n
		}
''', '''			end = n
		}
		next = end
'''))
rf('lag-defer-done', 'C09', (LG, '''		go func(start uint64, end uint64) {
''', '''		go func(start uint64, end uint64) {
			defer func() { chDone <- Empty{} }()
'''), (LG, '			chDone <- Empty{}\n', ''))
rf('lag-parallelize', 'C09 C21', (LG, '''	numCPU := uint64(runtime.NumCPU())
	chDone := make(chan Empty, numCPU)

	for id := 0; id < int(numCPU); id++ {
		start := n / numCPU * uint64(id)
		end := n / numCPU * uint64(id+1)
		if id == int(numCPU-1) {
			end = n
		}
		go func(start uint64, end uint64) {
			for j := start; j < end; j++ {
				irev := bits.Reverse64(j) >> nn
				if irev > j {
					a[j], a[irev] = a[irev], a[j]
				}
			}
			chDone <- Empty{}
		}(start, end)
	}
	for i := 0; i < int(numCPU); i++ {
		<-chDone
	}
''', '''	common.Parallelize(len(a), func(start, end int) {
		for j := uint64(start); j < uint64(end); j++ {
			irev := bits.Reverse64(j) >> nn
			if irev > j {
				a[j], a[irev] = a[irev], a[j]
			}
		}
	})
'''))
rf('lag-sequential', 'C09 C21', (LG, '''	numCPU := uint64(runtime.NumCPU())
	chDone := make(chan Empty, numCPU)

	for id := 0; id < int(numCPU); id++ {
		start := n / numCPU * uint64(id)
		end := n / numCPU * uint64(id+1)
		if id == int(numCPU-1) {
			end = n
		}
		go func(start uint64, end uint64) {
			for j := start; j < end; j++ {
				irev := bits.Reverse64(j) >> nn
				if irev > j {
					a[j], a[irev] = a[irev], a[j]
				}
			}
			chDone <- Empty{}
		}(start, end)
	}
	for i := 0; i < int(numCPU); i++ {
		<-chDone
	}
''', '''	for j := uint64(0); j < n; j++ {
		irev := bits.Reverse64(j) >> nn
		if irev > j {
			a[j], a[irev] = a[irev], a[j]
		}
	}
'''))
rf('lag-convert-parallel', 'C09 C21', (LG, '''	for i := 0; i < len(buff); i++ {
		jac[i].FromAffine(&buff[i])
	}
''', '''	common.Parallelize(len(buff), func(start, end int) {
		for i := start; i < end; i++ {
			jac[i].FromAffine(&buff[i])
		}
	})
'''))
rf('lag-convert-merged', 'C09 C21', (LG, '''			jac[i].ScalarMultiplication(&jac[i], &invBigint)
		}
	})

	common.Parallelize(len(buff), func(start, end int) {
		for i := start; i < end; i++ {
''', '''			jac[i].ScalarMultiplication(&jac[i], &invBigint)
'''))
rf('lag-fft-m2', 'C09', (LG, '''	n := len(a)
	if n == 1 {
		return
	} else if n == 8 {
		kerDIF8G1(a, twiddles, stage)
		return
	}
	m := n >> 1
''', '''	n := len(a)
	switch n {
	case 1:
		return
	case 8:
		kerDIF8G1(a, twiddles, stage)
		return
	}
	m := n / 2
'''))
rf('lag-fft-nokernel', 'C09', (LG, ''' else if n == 8 {
		kerDIF8G1(a, twiddles, stage)
		return
	}
''', '''
'''))
rf('lag-fft-helper', 'C09', (LG, '''			for i := start; i < end; i++ {
				butterflyG1(&a[i], &a[i+m])
				twiddles[stage][i].BigInt(&twiddle)
				a[i+m].ScalarMultiplication(&a[i+m], &twiddle)
			}
''', '''			for i := start; i < end; i++ {
				twistedButterflyG1(&a[i], &a[i+m], &twiddles[stage][i], &twiddle)
			}
'''), (LG, '''		for i := 1; i < m; i++ {
			butterflyG1(&a[i], &a[i+m])
			twiddles[stage][i].BigInt(&twiddle)
			a[i+m].ScalarMultiplication(&a[i+m], &twiddle)
		}
''', '''		for i := 1; i < m; i++ {
			twistedButterflyG1(&a[i], &a[i+m], &twiddles[stage][i], &twiddle)
		}
'''), (LG, '// KerDIF8', '''func twistedButterflyG1(a, b *bn254.G1Jac, w *fr.Element, buf *big.Int) {
	butterflyG1(a, b)
	b.ScalarMultiplication(b, w.BigInt(buf))
}

// KerDIF8'''))
rf('lag-fft-halves', 'C09', (LG, '''		go difFFTG1(a[m:n], twiddles, nextStage, maxSplits, chDone)
		difFFTG1(a[0:m], twiddles, nextStage, maxSplits, nil)
		<-chDone
	} else {
		difFFTG1(a[0:m], twiddles, nextStage, maxSplits, nil)
		difFFTG1(a[m:n], twiddles, nextStage, maxSplits, nil)
''', '''		lower, upper := a[:m], a[m:]
		go difFFTG1(upper, twiddles, nextStage, maxSplits, chDone)
		difFFTG1(lower, twiddles, nextStage, maxSplits, nil)
		<-chDone
	} else {
		difFFTG1(a[m:], twiddles, nextStage, maxSplits, nil)
		difFFTG1(a[:m], twiddles, nextStage, maxSplits, nil)
'''))
rf('lag-fft-closure', 'C09', (LG, '''		chDone := make(chan struct{}, 1)
		go difFFTG1(a[m:n], twiddles, nextStage, maxSplits, chDone)
''', '''		chDone := make(chan struct{})
		go func() {
			difFFTG1(a[m:n], twiddles, nextStage, maxSplits, nil)
			close(chDone)
		}()
'''))
rf('lag-butterfly', 'C09', (LG, '''	t := *a
	a.AddAssign(b)
	t.SubAssign(b)
	*b = t
''', '''	var sum, diff bn254.G1Jac
	sum.Set(a).AddAssign(b)
	diff.Set(a).SubAssign(b)
	a.Set(&sum)
	b.Set(&diff)
'''))
rf('lag-nosplit', 'C09', (LG, '''	if (m > butterflyThreshold) && (stage < maxSplits) {''', '''	if split := stage < maxSplits; split && m > butterflyThreshold {'''))
CU = 'common/utils.go'
rf('bitrev-trailing', 'C09', (CU, '		if irev > i {\n', '		if i < irev {\n'))
rf('bitrev-len', 'C09', (CU, '	nn := uint64(64 - bits.TrailingZeros64(n))\n', '	nn := uint64(65 - bits.Len64(n))\n'))

# ---- a second set, in other styles
CP = 'common/parallelize.go'
P1H, P2H, P2L, P2P, KE, AC, CK = 'phase1/header.go', 'phase2/header.go', 'phase2/lagrange.go', 'phase2/parted.go', 'keys/keys.go', 'actions.go', 'common/keypair.go'
DEC1 = '''		for i := 0; i < readCount; i++ {
			if err := dec.Decode(&buff[i]); err != nil {
				return nil, err
			}
		}
'''
rf('n-scale-generic', 'C02 C03 C22', (P1U, DEC1, '''		if err := readBatch(dec, buff[:readCount]); err != nil {
			return nil, err
		}
'''), (P1U, 'const batchSize', '''// readBatch decodes one element after the other
func readBatch[P any](dec *bn254.Decoder, out []P) error {
	for i := range out {
		if err := dec.Decode(&out[i]); err != nil {
			return err
		}
	}
	return nil
}

const batchSize'''))
rf('n-scale-min', 'C02 C03', (P1U, 'int(math.Min(float64(remaining), float64(batchSize)))', 'minInt(remaining, batchSize)'),
   (P1U, 'int(math.Min(float64(N), float64(batchSize)))', 'minInt(N, batchSize)'),
   (P1U, '	"math"\n', ''),
   (P1U, 'const batchSize', '''func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

const batchSize'''))
rf('n-scale-wrap', 'C02 C03 C22', (P1U, DEC1, '''		for i := 0; i < readCount; i++ {
			err := dec.Decode(&buff[i])
			if err != nil {
				return nil, fmt.Errorf("reading point %d: %w", i, err)
			}
		}
'''), (P1U, '	"errors"\n', '	"errors"\n	"fmt"\n'))
rf('n-scale-combined', 'C02 C03', (P1U, '''				var tmpBi big.Int
				scalars[i].BigInt(&tmpBi)
				buff[i].ScalarMultiplication(&buff[i], &tmpBi)
''', '''				p, s := &buff[i], &scalars[i]
				p.ScalarMultiplication(p, s.BigInt(new(big.Int)))
'''))
rf('n-scale-worker', 'C02 C03 C21', (P1U, '''		common.Parallelize(readCount, func(start, end int) {
			for i := start; i < end; i++ {
				var tmpBi big.Int
				scalars[i].BigInt(&tmpBi)
				buff[i].ScalarMultiplication(&buff[i], &tmpBi)
			}
		})
''', '''		work := func(start, end int) {
			var tmpBi big.Int
			for i := start; i < end; i++ {
				scalars[i].BigInt(&tmpBi)
				buff[i].ScalarMultiplication(&buff[i], &tmpBi)
			}
		}
		common.Parallelize(readCount, work)
'''))
rf('n-powers-acc', 'C02 C03', (P1U, '''	result := make([]fr.Element, n)
	result[0].Set(a)
	for i := 1; i < n; i++ {
		result[i].Mul(&result[i-1], b)
	}
	return result
''', '''	result := make([]fr.Element, 0, n)
	acc := *a
	for len(result) < n {
		result = append(result, acc)
		acc.Mul(&acc, b)
	}
	return result
'''))
rf('n-batchmul-range', 'C02 C03 C21', (P1U, '''		for i := start; i < end; i++ {
			a[i].Mul(&a[i], b)
		}
''', '''		chunk := a[start:end]
		for i := range chunk {
			chunk[i].Mul(&chunk[i], b)
		}
'''))
rf('n-p1header-once', 'C20 C02 C05 C22', (P1H, '''	buffPower := make([]byte, 1)
	// Read NConstraints
	if _, err := io.ReadFull(reader, buffPower); err != nil {
		return err
	}
	p.Power = buffPower[0]
''', '''	buff := make([]byte, 3)
	if _, err := io.ReadFull(reader, buff); err != nil {
		return err
	}
	p.Power = buff[0]
'''), (P1H, '''	buffContributions := make([]byte, 2)
	if _, err := io.ReadFull(reader, buffContributions); err != nil {
		return err
	}
	p.Contributions = binary.BigEndian.Uint16(buffContributions)
''', '''	p.Contributions = binary.BigEndian.Uint16(buff[1:])
'''))
rf('n-p1header-write', 'C20 C01 C22', (P1H, '''	// Write Power
	if _, err := writer.Write([]byte{p.Power}); err != nil {
		return err
	}

	// Write Contribution
	buffContributions := make([]byte, 2)
	binary.BigEndian.PutUint16(buffContributions, p.Contributions)
	if _, err := writer.Write(buffContributions); err != nil {
		return err
	}

	return nil
''', '''	buff := []byte{p.Power, byte(p.Contributions >> 8), byte(p.Contributions)}
	_, err := writer.Write(buff)
	return err
'''))
rf('n-hash-buffer', 'C20 C03', (P1C, '''	sha := sha256.New()
	toEncode''', '''	var buff bytes.Buffer
	toEncode'''), (P1C, '''	enc := bn254.NewEncoder(sha)
	for _, v := range toEncode {
		enc.Encode(v)
	}

	return sha.Sum(nil)
''', '''	enc := bn254.NewEncoder(&buff)
	for _, v := range toEncode {
		enc.Encode(v)
	}
	h := sha256.Sum256(buff.Bytes())
	return h[:]
'''), (P1C, '	"crypto/sha256"\n', '	"bytes"\n	"crypto/sha256"\n'))
rf('n-hash-write', 'C20 C14', (P2C, '''	enc := bn254.NewEncoder(sha)
	for _, v := range toEncode {
		enc.Encode(v)
	}

	return sha.Sum(nil)
''', '''	enc := bn254.NewEncoder(sha)
	for i := 0; i < len(toEncode); i++ {
		_ = enc.Encode(toEncode[i])
	}
	return sha.Sum(make([]byte, 0, sha256.Size))
'''))
rf('n-p1v-table', 'C05 C06', (P1U, '''	if !common.SameRatio(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, current.PublicKeys.Tau.SPX, tauSP) {
		return errors.New("couldn't verify knowledge of Tau")
	}
	if !common.SameRatio(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, current.PublicKeys.Alpha.SPX, alphaSP) {
		return errors.New("couldn't verify knowledge of Alpha")
	}
	if !common.SameRatio(current.PublicKeys.Beta.S, current.PublicKeys.Beta.SX, current.PublicKeys.Beta.SPX, betaSP) {
		return errors.New("couldn't verify knowledge of Beta")
	}
''', '''	for _, k := range []struct {
		pk   *common.PublicKey
		sp   bn254.G2Affine
		name string
	}{
		{&current.PublicKeys.Tau, tauSP, "Tau"},
		{&current.PublicKeys.Alpha, alphaSP, "Alpha"},
		{&current.PublicKeys.Beta, betaSP, "Beta"},
	} {
		if !common.SameRatio(k.pk.S, k.pk.SX, k.pk.SPX, k.sp) {
			return errors.New("couldn't verify knowledge of " + k.name)
		}
	}
'''))
rf('n-p1v-switch', 'C04 C05 C06', (P1, '''	if !common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2) {
		return errors.New("failed pairing check")
	}
''', '''	switch {
	case common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2):
	default:
		return errors.New("failed pairing check")
	}
'''))
rf('n-p1v-pointer', 'C05 C06', (P1U, 'func verifyContribution(current, prev Contribution) error {', 'func verifyContribution(current, prev *Contribution) error {'),
   (P1U, 'computeHash(&current)', 'computeHash(current)'), (P1, 'verifyContribution(current, prev)', 'verifyContribution(&current, &prev)'))
rf('n-p1default-helper', 'C05 C06 C22', (P1C, '''		// Read TauG1
		if _, err := inputFile.Seek(posTauG1, io.SeekStart); err != nil {
			return c, err
		}
		if err := dec.Decode(&c.G1.Tau); err != nil {
			return c, err
		}
''', '''		readAt := func(pos int64, v interface{}) error {
			if _, err := inputFile.Seek(pos, io.SeekStart); err != nil {
				return err
			}
			return dec.Decode(v)
		}
		// Read TauG1
		if err := readAt(posTauG1, &c.G1.Tau); err != nil {
			return c, err
		}
'''))
rf('n-p1contribute-deferflush', 'C02 C03 C22', (P1, '''func Contribute(inputPath, outputPath string) error {
	// Input file
	inputFile, err := os.Open(inputPath)''', '''func Contribute(inputPath, outputPath string) (err error) {
	// Input file
	inputFile, err := os.Open(inputPath)'''), (P1, '''	writer := bufio.NewWriter(outputFile)

	dec := bn254.NewDecoder(reader)
	enc := bn254.NewEncoder(writer)

	// Sample''', '''	writer := bufio.NewWriter(outputFile)
	defer func() {
		if ferr := writer.Flush(); err == nil {
			err = ferr
		}
	}()

	dec := bn254.NewDecoder(reader)
	enc := bn254.NewEncoder(writer)

	// Sample'''), (P1, '''	if err := writer.Flush(); err != nil {
		return err
	}

	fmt.Println("Contirbution has''', '''	fmt.Println("Contirbution has'''))
rf('n-p1init-closure', 'C01 C22', (P1, loops('g1', '2*N-1', 0), '''	repeat := func(v interface{}, n int) error {
		for ; n > 0; n-- {
			if err := enc.Encode(v); err != nil {
				return err
			}
		}
		return nil
	}
	if err := repeat(&g1, 2*N-1); err != nil {
		return err
	}
'''), (P1, loops('g2', 'N', 0), '	if err := repeat(&g2, N); err != nil {\n		return err\n	}\n'))
rf('n-p2h-equal', 'C15 C16', (P2H, '''	if h.Wires == h2.Wires &&
		h.Witness == h2.Witness &&
		h.Public == h2.Public &&
		h.PrivateCommitted == h2.PrivateCommitted &&
		h.Constraints == h2.Constraints &&
		h.Domain == h2.Domain {
		return true
	}
	return false
''', '''	a, b := *h, *h2
	a.Contributions, b.Contributions = 0, 0
	return a == b
'''))
rf('n-p2h-negated', 'C15 C16', (P2H, '''	if h.Wires == h2.Wires &&
		h.Witness == h2.Witness &&
		h.Public == h2.Public &&
		h.PrivateCommitted == h2.PrivateCommitted &&
		h.Constraints == h2.Constraints &&
		h.Domain == h2.Domain {
		return true
	}
	return false
''', '''	if h.Wires != h2.Wires || h.Witness != h2.Witness || h.Public != h2.Public {
		return false
	}
	return h.PrivateCommitted == h2.PrivateCommitted && h.Constraints == h2.Constraints && h.Domain == h2.Domain
'''))
rf('n-lagrange-generic', 'C10 C11 C12 C22', (P2L, '''	for i := 0; i < len(buff); i++ {
		if err := dec.Decode(&buff[i]); err != nil {
			return err
		}
	}
''', '''	if err := decodeAll(dec, buff); err != nil {
		return err
	}
'''), (P2L, 'func lagrangeG1(', '''func decodeAll[P any](dec *bn254.Decoder, out []P) error {
	for i := 0; i < len(out); i++ {
		if err := dec.Decode(&out[i]); err != nil {
			return err
		}
	}
	return nil
}

func lagrangeG1('''))
rf('n-acc-ifs', 'C10 C11', (P2U, '''	cID := t.CoeffID()
	switch cID {
	case constraint.CoeffIdZero:
		return
	case constraint.CoeffIdOne:
		res.Add(res, value)
	case constraint.CoeffIdMinusOne:
		res.Sub(res, value)
	case constraint.CoeffIdTwo:
		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G1Affine''', '''	cID := t.CoeffID()
	if cID == constraint.CoeffIdZero {
		return
	}
	if cID == constraint.CoeffIdOne {
		res.Add(res, value)
		return
	}
	switch cID {
	case constraint.CoeffIdMinusOne:
		var neg bn254.G1Affine
		neg.Neg(value)
		res.Add(res, &neg)
	case constraint.CoeffIdTwo:
		var dbl bn254.G1Affine
		dbl.Add(value, value)
		res.Add(res, &dbl)
	default:
		var tmp bn254.G1Affine'''))
rf('n-acc-constraint', 'C10', (P2U, '''	for i, c := range r1cs.Constraints {
		for _, t := range c.L {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
	}
''', '''	for i := 0; i < len(r1cs.Constraints); i++ {
		left := r1cs.Constraints[i].L
		for j := range left {
			wire := left[j].WireID()
			accumulateG1(&r1cs, &buff[wire], left[j], &tauG1[i])
		}
	}
'''))
rf('n-pvckk-reorder', 'C11 C12 C22', (P2U, '''	// Write PKK
	for i := 0; i < len(pkk); i++ {
		if err := enc.Encode(&pkk[i]); err != nil {
			return err
		}
	}

	// VKK
	evalFile, err := os.OpenFile("evals", os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer evalFile.Close()
''', '''	// VKK
	evalFile, err := os.OpenFile("evals", os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer evalFile.Close()

	// Write PKK
	for i := range pkk {
		if err := enc.Encode(&pkk[i]); err != nil {
			return err
		}
	}
'''))
rf('n-filter-append', 'C11 C12', (P2U, '''	pkk := make([]bn254.G1Affine, header2.Witness)
	vkk := make([]bn254.G1Affine, header2.Public)
	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
	vI, cI := 0, 0
''', '''	pkk := make([]bn254.G1Affine, header2.Witness)
	vkk := make([]bn254.G1Affine, header2.Public)
	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
	var vI, cI, pI int
'''), (P2U, '			pkk[i-cI-vI].Set(&L[i])\n', '			pkk[pI].Set(&L[i])\n			pI++\n'))
rf('n-delta-z', 'C12', (P2U, '''	Z := make([]bn254.G1Affine, n)
	for i := 0; i < n-1; i++ {
		Z[i].Sub(&tauG1[i+n], &tauG1[i])
	}
''', '''	Z := make([]bn254.G1Affine, n)
	low, high := tauG1[:n], tauG1[n:]
	for i := range high {
		Z[i].Sub(&high[i], &low[i])
	}
'''))
rf('n-nextpow', 'C08', (P2U, '''	res := 2
	for i := 1; i <= 28; i++ { // max power is 28
		if res >= number {
			return res
		} else {
			res *= 2
		}
	}
	// Shouldn't happen
	panic("the power is beyond 28")
''', '''	for power := 1; power <= 28; power++ { // max power is 28
		if res := 1 << power; res >= number {
			return res
		}
	}
	// Shouldn't happen
	panic("the power is beyond 28")
'''))
rf('n-nextpow-while', 'C08', (P2U, '''	res := 2
	for i := 1; i <= 28; i++ { // max power is 28
		if res >= number {
			return res
		} else {
			res *= 2
		}
	}
	// Shouldn't happen
	panic("the power is beyond 28")
''', '''	res := 2
	for res < number {
		res *= 2
	}
	if res > 1<<28 {
		// Shouldn't happen
		panic("the power is beyond 28")
	}
	return res
'''))
rf('n-p2v-index', 'C15 C16 C22', (P2, '''	for i := 0; i < curHeader.Contributions; i++ {
		if _, err := c.readFrom(inputReader); err != nil {
			return err
		}
		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(c.Hash))
''', '''	for i := 1; i <= curHeader.Contributions; i++ {
		if _, err := c.readFrom(inputReader); err != nil {
			return fmt.Errorf("contribution %d: %w", i, err)
		}
		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i, hex.EncodeToString(c.Hash))
'''))
rf('n-p2scale-struct', 'C14 C22', (P2U, '''		common.Parallelize(readCount, func(start, end int) {
			for i := start; i < end; i++ {
				buff[i].ScalarMultiplication(&buff[i], delta)
			}
		})
''', '''		batch := buff[:readCount]
		common.Parallelize(len(batch), func(start, end int) {
			for i := range batch[start:end] {
				p := &batch[start+i]
				p.ScalarMultiplication(p, delta)
			}
		})
'''))
rf('n-p2contribute-counter', 'C14 C22', (P2, '''	header.Contributions++
	if err := header.write(writer); err != nil {
		return err
	}
''', '''	existing := header.Contributions
	header.Contributions = existing + 1
	if err := header.write(writer); err != nil {
		return err
	}
'''), (P2, '	nExistingContributions := header.Contributions - 1\n', '	nExistingContributions := existing\n'))
rf('n-keys-append', 'C17 C18', (KE, '''	filtered := make([]bn254.G1Affine, len(buff))
	j := 0
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i] = true
			continue
		}
		filtered[j] = buff[i]
		j++
	}
	return filtered[:j], infinityAt, uint64(len(buff) - j)
''', '''	filtered := make([]bn254.G1Affine, 0, len(buff))
	for i := range buff {
		if buff[i].IsInfinity() {
			infinityAt[i] = true
		} else {
			filtered = append(filtered, buff[i])
		}
	}
	return filtered, infinityAt, uint64(len(buff) - len(filtered))
'''))
rf('n-keys-count', 'C17 C18', (KE, '''	filtered := make([]bn254.G1Affine, len(buff))
	j := 0
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i] = true
			continue
		}
		filtered[j] = buff[i]
		j++
	}
	return filtered[:j], infinityAt, uint64(len(buff) - j)
''', '''	filtered := make([]bn254.G1Affine, len(buff))
	var nbInfinity uint64
	for i := range buff {
		if infinityAt[i] = buff[i].IsInfinity(); infinityAt[i] {
			nbInfinity++
			continue
		}
		filtered[uint64(i)-nbInfinity] = buff[i]
	}
	return filtered[:uint64(len(buff))-nbInfinity], infinityAt, nbInfinity
'''))
rf('n-keys-encodelist', 'C17 C22', (KE, '''	// 12. Write nbInfinityA
	if err := encPk.Encode(&nbInfinityA); err != nil {
		return err
	}

	// 13. Write nbInfinityB
	if err := encPk.Encode(&nbInfinityB); err != nil {
		return err
	}

	// 14. Write infinityA
	if err := encPk.Encode(&infinityA); err != nil {
		return err
	}

	// 15. Write infinityB
	if err := encPk.Encode(&infinityB); err != nil {
		return err
	}

	return pkWriter.Flush()
''', '''	for _, v := range []interface{}{&nbInfinityA, &nbInfinityB, &infinityA, &infinityB} {
		if err := encPk.Encode(v); err != nil {
			return err
		}
	}

	return pkWriter.Flush()
'''))
rf('n-cli-table', 'C23', (AC, '''	powerStr := cCtx.Args().Get(0)
	power, err := strconv.Atoi(powerStr)
	if err != nil {
		return err
	}
	if power < 1 {
		return errors.New("can't support powers smaller than 1")
	}
	if power > 26 {
		return errors.New("can't support powers larger than 26")
	}
	outputPath := cCtx.Args().Get(1)
	err = phase1.Initialize(byte(power), outputPath)
	return err
''', '''	args := cCtx.Args().Slice()
	power, err := parsePower(args[0], 26)
	if err != nil {
		return err
	}
	return phase1.Initialize(power, args[1])
'''), (AC, 'func p1c(', '''func parsePower(s string, max int) (byte, error) {
	power, err := strconv.Atoi(s)
	switch {
	case err != nil:
		return 0, err
	case power < 1 || power > max:
		return 0, errors.New("power is out of the supported range")
	}
	return byte(power), nil
}

func p1c('''))
rf('n-cli-first', 'C23', (AC, '''	inputPath := cCtx.Args().Get(0)
	outputPath := cCtx.Args().Get(1)
	err := phase2.Contribute(inputPath, outputPath)
	return err
''', '''	args := cCtx.Args()
	return phase2.Contribute(args.First(), args.Get(1))
'''))
rf('n-keypair-lit', 'C03 C14 C05', (CK, '''	var pk PublicKey
	_, _, g1, _ := bn254.Generators()

	var s fr.Element
	var sBi big.Int
	s.SetRandom()
	s.BigInt(&sBi)
	pk.S.ScalarMultiplication(&g1, &sBi)
''', '''	pk := PublicKey{}
	_, _, g1, _ := bn254.Generators()

	s := new(fr.Element)
	if _, err := s.SetRandom(); err != nil {
		panic(err)
	}
	pk.S.ScalarMultiplication(&g1, s.BigInt(new(big.Int)))
'''))
rf('n-gensp-buffer', 'C03 C05 C14 C15', (CK, '''	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
	buffer = append(buffer, challenge...)
''', '''	var buffer []byte
	for _, part := range [][]byte{sG1.Marshal(), sxG1.Marshal(), challenge} {
		buffer = append(buffer, part...)
	}
'''))
rf('n-gensp-raw', 'C03 C05 C14 C15', (CK, '''	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
	buffer = append(buffer, challenge...)
''', '''	s, sx := sG1.RawBytes(), sxG1.RawBytes()
	buffer := make([]byte, 0, len(s)+len(sx)+len(challenge))
	buffer = append(buffer, s[:]...)
	buffer = append(buffer, sx[:]...)
	buffer = append(buffer, challenge...)
'''))
rf('n-parted-helper', 'C13 C10', (P2P, '''	for i := 0; i < nbCons; i++ {
		c := r1cs.GetConstraintToSolve(i)
		for _, t := range c.L {
			accumulateG1(r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
	}
''', '''	accumulateLeft(r1cs, nbCons, buff, tauG1)
'''), (P2P, 'func processPVCKKParted(', '''func accumulateLeft(r1cs *cs_bn254.R1CS, nbCons int, dst, srs []bn254.G1Affine) {
	for i := 0; i < nbCons; i++ {
		c := r1cs.GetConstraintToSolve(i)
		for _, t := range c.L {
			accumulateG1(r1cs, &dst[t.WireID()], t, &srs[i])
		}
	}
}

func processPVCKKParted('''))
rf('n-par-wrapper', 'C21', (CP, '''		go func() {
			work(_start, _end)
			wg.Done()
		}()
''', '''		go runTask(&wg, work, _start, _end)
'''), (CP, '// Parallelize process', '''func runTask(wg *sync.WaitGroup, work func(int, int), start, end int) {
	defer wg.Done()
	work(start, end)
}

// Parallelize process'''))
rf('n-transform-n', 'C07 C22', (P1U, '''	for i := 0; i < size; i++ {
		if err := dec.Decode(&g1); err != nil {
			return err
		}
		if err := enc.Encode(&g1); err != nil {
			return err
		}
	}
	return writer.Flush()
''', '''	for remaining := size; remaining > 0; remaining-- {
		err := dec.Decode(&g1)
		if err == nil {
			err = enc.Encode(&g1)
		}
		if err != nil {
			return err
		}
	}
	return writer.Flush()
'''))
rf('n-transform-pos', 'C07', (P1, '''	inN := int(math.Pow(2, float64(inPower)))
	outN := int(math.Pow(2, float64(outPower)))

	var posTauG1 int64 = 64
	var posTauG2 int64 = posTauG1 + int64(2*inN-1)*G1Size
	var posAlphaG1 int64 = posTauG2 + int64(inN)*G2Size
	var posBetaG1 int64 = posAlphaG1 + int64(inN)*G1Size
	var posBetaG2 int64 = posBetaG1 + int64(inN)*G1Size
''', '''	inN, outN := int64(1)<<inPower, 1<<outPower

	var posTauG1 int64 = 64
	posTauG2 := posTauG1 + (2*inN-1)*G1Size
	posAlphaG1 := posTauG2 + inN*G2Size
	posBetaG1 := posAlphaG1 + inN*G1Size
	posBetaG2 := posBetaG1 + inN*G1Size
'''))
rf('n-verify-early', 'C04 C05 C06', (P1, '''	// Verify BetaG2
	fmt.Println("Verifying powers of BetaG2")
	if !betaG2.Equal(&current.G2.Beta) {
		return errors.New("failed verifying update of Beta")
	}

''', ''), (P1, '''	if !betaTau1First.Equal(&current.G1.Beta) {
		return errors.New("failed verifying update of Beta")
	}
''', '''	if !betaTau1First.Equal(&current.G1.Beta) || !betaG2.Equal(&current.G2.Beta) {
		return errors.New("failed verifying update of Beta")
	}
'''))
rf('n-lincomb-copy', 'C04 C06', (P1U, '		buff[0].Set(&buff[readCount])\n', '		buff[0] = buff[readCount]\n'))
rf('n-lincomb-struct', 'C04 C05 C06', (P1U, '''		L1.Add(&L1, &tmpL1)
		L2.Add(&L2, &tmpL2)
''', '''		for _, s := range []struct{ sum, part *bn254.G2Affine }{{&L1, &tmpL1}, {&L2, &tmpL2}} {
			s.sum.Add(s.sum, s.part)
		}
''')) if False else None
rf('n-aggregate-once', 'C15 C16', (P2U, '''		// generate randomness
		common.Parallelize(len(r), func(start, end int) {
			for i := start; i < end; i++ {
				r[i].SetRandom()
			}
		})

		// Read from input
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
''', '''		readCount := int(math.Min(float64(remaining), float64(batchSize)))

		// generate randomness
		for i := 0; i < readCount; i++ {
			r[i].SetRandom()
		}

		// Read from input
'''))

# third set
FILT1 = '''	filtered := make([]bn254.G1Affine, len(buff))
	j := 0
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i] = true
			continue
		}
		filtered[j] = buff[i]
		j++
	}
	return filtered[:j], infinityAt, uint64(len(buff) - j)
'''
rf('m-grow-filter', 'C17 C18', (KE, FILT1, '''	var filtered []bn254.G1Affine
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i] = true
			continue
		}
		filtered = append(filtered, e)
	}
	return filtered, infinityAt, uint64(len(buff) - len(filtered))
'''))
rf('m-grow-both', 'C17 C18', (KE, '	infinityAt := make([]bool, len(buff))\n' + FILT1, '''	infinityAt := make([]bool, 0)
	filtered := make([]bn254.G1Affine, 0)
	for _, e := range buff {
		inf := e.IsInfinity()
		infinityAt = append(infinityAt, inf)
		if !inf {
			filtered = append(filtered, e)
		}
	}
	return filtered, infinityAt, uint64(len(buff) - len(filtered))
'''))
rf('m-grow-filterL', 'C11 C08 C13', (P2U, '''	pkk := make([]bn254.G1Affine, header2.Witness)
	vkk := make([]bn254.G1Affine, header2.Public)
	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
	vI, cI := 0, 0
''', '''	var pkk, vkk, ckk []bn254.G1Affine
'''), (P2U, '''		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
''', '''		isCommittedPrivate := len(ckk) < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[len(ckk)]
'''), (P2U, '''			ckk[cI].Set(&L[i])
			cI++
''', '''			ckk = append(ckk, L[i])
'''), (P2U, '''			vkk[vI].Set(&L[i])
			vI++
''', '''			vkk = append(vkk, L[i])
'''), (P2U, '''			pkk[i-cI-vI].Set(&L[i])
''', '''			pkk = append(pkk, L[i])
'''))
rf('m-grow-z', 'C12', (P2U, '''	Z := make([]bn254.G1Affine, n)
	for i := 0; i < n-1; i++ {
		Z[i].Sub(&tauG1[i+n], &tauG1[i])
	}
''', '''	var Z []bn254.G1Affine
	for i := 0; i < n-1; i++ {
		var z bn254.G1Affine
		z.Sub(&tauG1[i+n], &tauG1[i])
		Z = append(Z, z)
	}
	Z = append(Z, bn254.G1Affine{})
'''))
rf('m-grow-read', 'C17 C22', (KE, '''	buffG1 = make([]bn254.G1Affine, header.Witness)
	for i := 0; i < header.Witness; i++ {
		if err := decPh2.Decode(&buffG1[i]); err != nil {
			return err
		}
	}
	if err := encPk.Encode(buffG1); err != nil {
''', '''	buffG1 = nil
	for len(buffG1) < header.Witness {
		var point bn254.G1Affine
		if err := decPh2.Decode(&point); err != nil {
			return err
		}
		buffG1 = append(buffG1, point)
	}
	if err := encPk.Encode(buffG1); err != nil {
'''))
rf('m-eval-merge', 'C10 C22', (P2U, '''		for _, t := range c.L {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
	}
	// Serialize {[A]₁}
''', '''		for _, t := range c.L {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
		for _, t := range c.R {
			accumulateG1(&r1cs, &buffB[t.WireID()], t, &tauG1[i])
		}
	}
	// Serialize {[A]₁}
'''), (P2U, '''	buff := make([]bn254.G1Affine, header2.Wires)
	for i''', '''	buff := make([]bn254.G1Affine, header2.Wires)
	buffB := make([]bn254.G1Affine, header2.Wires)
	for i'''), (P2U, '''	// Reset buff
	buff = make([]bn254.G1Affine, header2.Wires)
	// Accumlate {[B]₁}
	for i, c := range r1cs.Constraints {
		for _, t := range c.R {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
	}
	// Serialize {[B]₁}
	if err := enc.Encode(buff); err != nil {
''', '''	// Serialize {[B]₁}
	if err := enc.Encode(buffB); err != nil {
'''))
rf('m-eval-closure', 'C10', (P2U, '''	buff := make([]bn254.G1Affine, header2.Wires)
	for i, c := range r1cs.Constraints {
		for _, t := range c.L {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
	}
''', '''	accumulate := func(side func(c *constraint.R1C) constraint.LinearExpression) []bn254.G1Affine {
		res := make([]bn254.G1Affine, header2.Wires)
		for i := range r1cs.Constraints {
			for _, t := range side(&r1cs.Constraints[i]) {
				accumulateG1(&r1cs, &res[t.WireID()], t, &tauG1[i])
			}
		}
		return res
	}
	buff := accumulate(func(c *constraint.R1C) constraint.LinearExpression { return c.L })
'''), (P2U, '''	buff = make([]bn254.G1Affine, header2.Wires)
	// Accumlate {[B]₁}
	for i, c := range r1cs.Constraints {
		for _, t := range c.R {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
	}
''', '''	// Accumlate {[B]₁}
	buff = accumulate(func(c *constraint.R1C) constraint.LinearExpression { return c.R })
'''))
rf('m-eval-buffered', 'C10 C22 C11', (P2U, '''	enc := bn254.NewEncoder(evalFile)
''', '''	evalWriter := bufio.NewWriter(evalFile)
	enc := bn254.NewEncoder(evalWriter)
'''), (P2U, '''	if err := enc.Encode(buff2); err != nil {
		return err
	}

	return nil
''', '''	if err := enc.Encode(buff2); err != nil {
		return err
	}

	return evalWriter.Flush()
'''))
rf('m-eval-seekstart', 'C10', (P2U, '''	pos := 2*32*int64(header2.Domain) + 2*4
	if _, err := lagFile.Seek(pos, io.SeekCurrent); err != nil {
''', '''	pos := 3 * (4 + 32*int64(header2.Domain))
	if _, err := lagFile.Seek(pos, io.SeekStart); err != nil {
'''))
rf('m-eval-reset', 'C10', (P2U, '''	buff = make([]bn254.G1Affine, header2.Wires)
	// Accumlate {[B]₁}
''', '''	for i := range buff {
		buff[i] = bn254.G1Affine{}
	}
	// Accumlate {[B]₁}
'''))
rf('m-transform-writer', 'C07 C22', (P1U, '''func transformG1(inputFile, outputFile *os.File, position int64, size int) error {
''', '''func transformG1(inputFile *os.File, writer *bufio.Writer, position int64, size int) error {
'''), (P1U, '''func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
''', '''func transformG2(inputFile *os.File, writer *bufio.Writer, position int64, size int) error {
'''), (P1U, '''	writer := bufio.NewWriter(outputFile)
''', ''), (P1U, '	return writer.Flush()\n', '	return nil\n'),
 (P1, '(inputFile, outputFile, pos', '(inputFile, writer, pos'), (P1, '''	// Transform TauG1
''', '''	writer := bufio.NewWriterSize(outputFile, 1<<20)

	// Transform TauG1
'''), (P1, '''	if err := transformG2(inputFile, writer, posBetaG2, 1); err != nil {
		return err
	}

	return nil
''', '''	if err := transformG2(inputFile, writer, posBetaG2, 1); err != nil {
		return err
	}

	return writer.Flush()
'''))
rf('m-contrib-loop', 'C05 C04 C06', (P1U, '''	// Check for knowledge of toxic parameters
	if !common.SameRatio(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, current.PublicKeys.Tau.SPX, tauSP) {
		return errors.New("couldn't verify knowledge of Tau")
	}
	if !common.SameRatio(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, current.PublicKeys.Alpha.SPX, alphaSP) {
		return errors.New("couldn't verify knowledge of Alpha")
	}
	if !common.SameRatio(current.PublicKeys.Beta.S, current.PublicKeys.Beta.SX, current.PublicKeys.Beta.SPX, betaSP) {
		return errors.New("couldn't verify knowledge of Beta")
	}
''', '''	// Check for knowledge of toxic parameters
	sps := map[string]bn254.G2Affine{}
	_ = sps
	names := []string{"Tau", "Alpha", "Beta"}
	for i, k := range []struct {
		pk common.PublicKey
		sp bn254.G2Affine
	}{{current.PublicKeys.Tau, tauSP}, {current.PublicKeys.Alpha, alphaSP}, {current.PublicKeys.Beta, betaSP}} {
		if !common.SameRatio(k.pk.S, k.pk.SX, k.pk.SPX, k.sp) {
			return errors.New("couldn't verify knowledge of " + names[i])
		}
	}
''')) if False else None
rf('m-contrib-table', 'C05 C04 C06', (P1U, '''	// Compute SP for τ, α, β
	tauSP := common.GenSP(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, prev.Hash[:], 1)
	alphaSP := common.GenSP(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, prev.Hash[:], 2)
	betaSP := common.GenSP(current.PublicKeys.Beta.S, current.PublicKeys.Beta.SX, prev.Hash[:], 3)
''', '''	// Compute SP for τ, α, β
	var sps [3]bn254.G2Affine
	for i, pk := range []common.PublicKey{current.PublicKeys.Tau, current.PublicKeys.Alpha, current.PublicKeys.Beta} {
		sps[i] = common.GenSP(pk.S, pk.SX, prev.Hash, byte(i+1))
	}
	tauSP, alphaSP, betaSP := sps[0], sps[1], sps[2]
'''))
rf('m-wrap-errors', 'C04 C22 C06', (P1, '''	tau1First, tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
	if err != nil {
		return err
	}
''', '''	tau1First, tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
	if err != nil {
		return fmt.Errorf("reading TauG1: %w", err)
	}
'''))
rf('m-timing', 'C02 C14', (P1, '''	// Process Tau section
''', '''	began := time.Now()
	defer func() { fmt.Printf("took %s\\n", time.Since(began)) }()

	// Process Tau section
'''), (P1, '	"os"\n', '	"os"\n	"time"\n'))
rf('m-hash-helper', 'C03 C05 C20', (P1C, '''	toEncode := []interface{}{
		&c.G1.Tau,
		&c.G1.Alpha,
		&c.G1.Beta,
		&c.G2.Tau,
		&c.G2.Beta,
		&c.PublicKeys.Tau.S,
		&c.PublicKeys.Tau.SX,
		&c.PublicKeys.Tau.SPX,
		&c.PublicKeys.Alpha.S,
		&c.PublicKeys.Alpha.SX,
		&c.PublicKeys.Alpha.SPX,
		&c.PublicKeys.Beta.S,
		&c.PublicKeys.Beta.SX,
		&c.PublicKeys.Beta.SPX,
	}
''', '	toEncode := c.points()\n'), (P1C, '''	toDecode := []interface{}{
		&c.G1.Tau,
		&c.G1.Alpha,
		&c.G1.Beta,
		&c.G2.Tau,
		&c.G2.Beta,
		&c.PublicKeys.Tau.S,
		&c.PublicKeys.Tau.SX,
		&c.PublicKeys.Tau.SPX,
		&c.PublicKeys.Alpha.S,
		&c.PublicKeys.Alpha.SX,
		&c.PublicKeys.Alpha.SPX,
		&c.PublicKeys.Beta.S,
		&c.PublicKeys.Beta.SX,
		&c.PublicKeys.Beta.SPX,
	}
''', '	toDecode := c.points()\n'), (P1C, 'func computeHash(', '''func (c *Contribution) points() []interface{} {
	res := []interface{}{&c.G1.Tau, &c.G1.Alpha, &c.G1.Beta, &c.G2.Tau, &c.G2.Beta}
	for _, pk := range []*common.PublicKey{&c.PublicKeys.Tau, &c.PublicKeys.Alpha, &c.PublicKeys.Beta} {
		res = append(res, &pk.S, &pk.SX, &pk.SPX)
	}
	return res
}

func computeHash('''))
rf('m-split-map', 'C18 C22', (KE, '''	for _, writer := range []*bufio.Writer{pkEWriter, pkAWriter, pkB1Writer, pkZWriter, pkKWriter, pkB2Writer} {
		if err := writer.Flush(); err != nil {
			return err
		}
	}
	return nil
''', '''	flush := func(writers ...*bufio.Writer) error {
		for _, writer := range writers {
			if err := writer.Flush(); err != nil {
				return err
			}
		}
		return nil
	}
	return flush(pkAWriter, pkB1Writer, pkZWriter, pkKWriter, pkB2Writer, pkEWriter)
'''))
rf('m-pk-copy', 'C17 C18 C22', (KE, '''	// 1. Read/Write [α]₁
	if err := decEvals.Decode(&alphaG1); err != nil {
		return err
	}
	if err := encPk.Encode(&alphaG1); err != nil {
		return err
	}

	// 2. Read/Write [β]₁
	if err := decEvals.Decode(&betaG1); err != nil {
		return err
	}
	if err := encPk.Encode(&betaG1); err != nil {
		return err
	}
''', '''	// 1. Read/Write [α]₁, 2. Read/Write [β]₁
	for _, p := range []*bn254.G1Affine{&alphaG1, &betaG1} {
		if err := copyG1(decEvals, encPk, p); err != nil {
			return err
		}
	}
'''), (KE, 'func extractSplitPK(', '''func copyG1(dec *bn254.Decoder, enc *bn254.Encoder, p *bn254.G1Affine) error {
	if err := dec.Decode(p); err != nil {
		return err
	}
	return enc.Encode(p)
}

func extractSplitPK('''))
rf('m-vk-discard', 'C19', (KE, '''	pos := int64(128*(header.Wires+1) + 12)
	if _, err := evalsFile.Seek(pos, io.SeekStart); err != nil {
		return err
	}
	evalsReader.Reset(evalsFile)
''', '''	if _, err := evalsFile.Seek(int64(header.Wires+1)*128+12, io.SeekStart); err != nil {
		return err
	}
	evalsReader = bufio.NewReader(evalsFile)
	decEvals = bn254.NewDecoder(evalsReader)
'''))
rf('m-readphase1-closure', 'C10 C22', (P2U, '''	// Read AlphaG1
	if _, err := phase1File.Seek(posAlpha, io.SeekStart); err != nil {
		return nil, nil, nil, err
	}
	if err := dec.Decode(&alpha); err != nil {
		return nil, nil, nil, err
	}

	// Read BetaG1
	if _, err := phase1File.Seek(posBeta1, io.SeekStart); err != nil {
		return nil, nil, nil, err
	}
	if err := dec.Decode(&beta1); err != nil {
		return nil, nil, nil, err
	}

	// Read BetaG2
	if _, err := phase1File.Seek(posBeta2, io.SeekStart); err != nil {
		return nil, nil, nil, err
	}
	if err := dec.Decode(&beta2); err != nil {
		return nil, nil, nil, err
	}
''', '''	readAt := func(pos int64, v interface{}) error {
		if _, err := phase1File.Seek(pos, io.SeekStart); err != nil {
			return err
		}
		return dec.Decode(v)
	}
	if err := readAt(posAlpha, &alpha); err != nil {
		return nil, nil, nil, err
	}
	if err := readAt(posBeta1, &beta1); err != nil {
		return nil, nil, nil, err
	}
	if err := readAt(posBeta2, &beta2); err != nil {
		return nil, nil, nil, err
	}
'''))
rf('m-header-init', 'C08 C13', (P2U, '''	header2.Wires = r1cs.NbInternalVariables + r1cs.GetNbPublicVariables() + r1cs.GetNbSecretVariables()
	header2.PrivateCommitted = r1cs.CommitmentInfo.NbPrivateCommitted
	header2.Public = r1cs.GetNbPublicVariables()
	header2.Witness = r1cs.GetNbSecretVariables() + r1cs.NbInternalVariables - header2.PrivateCommitted

	if r1cs.CommitmentInfo.Is() { // the commitment itself is defined by a hint so the prover considers it private
		header2.Public++  // but the verifier will need to inject the value itself so on the groth16
		header2.Witness-- // level it must be considered public
	}
''', '''	header2.fill(&r1cs)
'''), (P2P, '''	header2.Wires = r1cs.NbInternalVariables + r1cs.GetNbPublicVariables() + r1cs.GetNbSecretVariables()
	header2.PrivateCommitted = r1cs.CommitmentInfo.NbPrivateCommitted
	header2.Public = r1cs.GetNbPublicVariables()
	header2.Witness = r1cs.GetNbSecretVariables() + r1cs.NbInternalVariables - header2.PrivateCommitted

	if r1cs.CommitmentInfo.Is() { // the commitment itself is defined by a hint so the prover considers it private
		header2.Public++  // but the verifier will need to inject the value itself so on the groth16
		header2.Witness-- // level it must be considered public
	}
''', '''	header2.fill(r1cs)
'''), (P2U, 'func processLagrange(', '''func (h *Header) fill(r1cs *cs_bn254.R1CS) {
	public := r1cs.GetNbPublicVariables()
	private := r1cs.GetNbSecretVariables() + r1cs.NbInternalVariables
	h.Wires = public + private
	h.PrivateCommitted = r1cs.CommitmentInfo.NbPrivateCommitted
	if r1cs.CommitmentInfo.Is() {
		public, private = public+1, private-1
	}
	h.Public = public
	h.Witness = private - h.PrivateCommitted
}

func processLagrange('''))
rf('m-pvckk-shared', 'C11 C13 C22', (P2P, '''	pkk, vkk, ckk := filterL(L, header2, &r1cs.CommitmentInfo)
	// Write PKK
	for i := 0; i < len(pkk); i++ {
		if err := enc.Encode(&pkk[i]); err != nil {
			return err
		}
	}

	// VKK
	evalFile, err := os.OpenFile("evals", os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer evalFile.Close()
	evalWriter := bufio.NewWriter(evalFile)
	evalEnc := bn254.NewEncoder(evalWriter)
	if err := evalEnc.Encode(vkk); err != nil {
		return err
	}

	// Write CKK
	if err := evalEnc.Encode(ckk); err != nil {
		return err
	}

	// Write CommitmentInfo
	cmtEnc := gob.NewEncoder(evalWriter)
	if err := cmtEnc.Encode(r1cs.CommitmentInfo); err != nil {
		return err
	}

	if err := writer.Flush(); err != nil {
		return err
	}
	return evalWriter.Flush()
''', '''	if err := writeSections(enc, L, header2, r1cs); err != nil {
		return err
	}
	return writer.Flush()
'''), (P2P, 'func processPVCKKParted(', '''func writeSections(enc *bn254.Encoder, L []bn254.G1Affine, header2 *Header, r1cs *cs_bn254.R1CS) error {
	pkk, vkk, ckk := filterL(L, header2, &r1cs.CommitmentInfo)
	for i := range pkk {
		if err := enc.Encode(&pkk[i]); err != nil {
			return err
		}
	}
	evalFile, err := os.OpenFile("evals", os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer evalFile.Close()
	evalWriter := bufio.NewWriter(evalFile)
	evalEnc := bn254.NewEncoder(evalWriter)
	for _, section := range [][]bn254.G1Affine{vkk, ckk} {
		if err := evalEnc.Encode(section); err != nil {
			return err
		}
	}
	if err := gob.NewEncoder(evalWriter).Encode(r1cs.CommitmentInfo); err != nil {
		return err
	}
	return evalWriter.Flush()
}

func processPVCKKParted('''))
rf('m-p1v-check', 'C04 C05 C06', (P1, '''	// Read and verify AlphaTauG1
	fmt.Println("Verifying powers of AlphaTauG1")
	if !common.SameRatio(alphaTau1L1, alphaTau1L2, current.G2.Tau, g2) {
		return errors.New("failed pairing check")
	}

	// Read and verify BetaTauG1
	fmt.Println("Verifying powers of BetaTauG1")
	if !common.SameRatio(betaTau1L1, betaTau1L2, current.G2.Tau, g2) {
		return errors.New("failed pairing check")
	}
''', '''	check := func(name string, ok bool) error {
		fmt.Println("Verifying powers of", name)
		if ok {
			return nil
		}
		return errors.New("failed pairing check")
	}
	if err := check("AlphaTauG1", common.SameRatio(alphaTau1L1, alphaTau1L2, current.G2.Tau, g2)); err != nil {
		return err
	}
	if err := check("BetaTauG1", common.SameRatio(betaTau1L1, betaTau1L2, current.G2.Tau, g2)); err != nil {
		return err
	}
'''))
rf('m-scale-running', 'C02 C03', (P1U, '''		// Compute powers for the current batch
		scalars = powers(&startPower, tau, readCount)

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If there''', '''		// Compute powers for the current batch
		scalars = make([]fr.Element, readCount)
		for i := range scalars {
			scalars[i] = startPower
			startPower.Mul(&startPower, tau)
		}

		// If there'''))
rf('m-scale-nobatchmul', 'C02 C03', (P1U, '''	startPower.SetOne()

	remaining := N
	for remaining > 0 {
		// Read batch
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
		for i := 0; i < readCount; i++ {
			if err := dec.Decode(&buff[i]); err != nil {
				return nil, err
			}
		}

		// Compute powers for the current batch
		scalars = powers(&startPower, tau, readCount)

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If there is α or β, then mul it with powers of τ
		if multiplicand != nil {
			batchMul(scalars, multiplicand)
		}
''', '''	startPower.SetOne()
	if multiplicand != nil {
		startPower.Set(multiplicand)
	}

	remaining := N
	for remaining > 0 {
		// Read batch
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
		for i := 0; i < readCount; i++ {
			if err := dec.Decode(&buff[i]); err != nil {
				return nil, err
			}
		}

		// Compute powers for the current batch
		scalars = powers(&startPower, tau, readCount)

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)
'''))
rf('m-randomize-all', 'C04 C06', (P1U, '		randomize(r)\n', '		randomize(r[:readCount])\n'))
rf('m-lincomb-sum', 'C04 C06', (P1U, '''		// Process the batch
		if _, err := tmpL1.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
			return first, L1, L2, err
		}
		if _, err := tmpL2.MultiExp(buff[1:readCount+1], r[:readCount], ecc.MultiExpConfig{}); err != nil {
			return first, L1, L2, err
		}
''', '''		// Process the batch
		scalars, current, next := r[:readCount], buff[:readCount], buff[1:1+readCount]
		if _, err := tmpL1.MultiExp(current, scalars, ecc.MultiExpConfig{}); err != nil {
			return first, L1, L2, err
		}
		if _, err := tmpL2.MultiExp(next, scalars, ecc.MultiExpConfig{}); err != nil {
			return first, L1, L2, err
		}
'''))
rf('m-p2c-last', 'C14 C22', (P2, '''	// Copy old contributions
	nExistingContributions := header.Contributions - 1
	var c Contribution
	for i := 0; i < nExistingContributions; i++ {
		if _, err := c.readFrom(reader); err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {
			return err
		}
	}

	// Get hash of previous contribution
	var prevHash []byte
	if nExistingContributions == 0 {
		prevHash = nil
	} else {
		prevHash = c.Hash
	}
''', '''	// Copy old contributions, keeping the hash of the last one
	var prevHash []byte
	for i := 1; i < header.Contributions; i++ {
		var c Contribution
		if _, err := c.readFrom(reader); err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {
			return err
		}
		prevHash = c.Hash
	}
'''))
rf('m-p2v-records', 'C15 C16', (P2, '''	var prevDelta = g1
	var prevHash []byte = nil
	var c Contribution
	for i := 0; i < curHeader.Contributions; i++ {
		if _, err := c.readFrom(inputReader); err != nil {
			return err
		}
		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(c.Hash))
		if err := verifyContribution(&c, prevDelta, prevHash); err != nil {
			return err
		}
		prevDelta = c.Delta
		prevHash = c.Hash
	}
''', '''	c := Contribution{Delta: g1}
	for i := 0; i < curHeader.Contributions; i++ {
		prev := c
		if _, err := c.readFrom(inputReader); err != nil {
			return err
		}
		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(c.Hash))
		if err := verifyContribution(&c, prev.Delta, prev.Hash); err != nil {
			return err
		}
	}
'''))
rf('m-agg-two', 'C15 C16', (P2U, '''	var inG, orG, tmp bn254.G1Affine
''', '''	var inG, orG bn254.G1Affine
'''), (P2U, '''		if _, err := tmp.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
			return nil, nil, err
		}
		inG.Add(&inG, &tmp)
''', '''		if err := addCombination(&inG, buff[:readCount], r[:readCount]); err != nil {
			return nil, nil, err
		}
'''), (P2U, '''		if _, err := tmp.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
			return nil, nil, err
		}
		orG.Add(&orG, &tmp)
''', '''		if err := addCombination(&orG, buff[:readCount], r[:readCount]); err != nil {
			return nil, nil, err
		}
'''), (P2U, 'func filterL(', '''func addCombination(sum *bn254.G1Affine, points []bn254.G1Affine, scalars []fr.Element) error {
	var tmp bn254.G1Affine
	if _, err := tmp.MultiExp(points, scalars, ecc.MultiExpConfig{}); err != nil {
		return err
	}
	sum.Add(sum, &tmp)
	return nil
}

func filterL('''))
rf('m-cli-args', 'C23', (AC, '''	if cCtx.Args().Len() != 2 {
		return errors.New("please provide the correct arguments")
	}
''', '''	if err := expectArgs(cCtx, 2); err != nil {
		return err
	}
'''), (AC, 'func p1t(', '''func expectArgs(cCtx *cli.Context, count int) error {
	if n := cCtx.NArg(); n != count {
		return errors.New("please provide the correct arguments, not " + strconv.Itoa(n))
	}
	return nil
}

func p1t('''))
rf('m-header-binary', 'C20 C01 C03', ('phase1/header.go', '''	// Write Power
	if _, err := writer.Write([]byte{p.Power}); err != nil {
		return err
	}

	// Write Contribution
	buffContributions := make([]byte, 2)
	binary.BigEndian.PutUint16(buffContributions, p.Contributions)
	if _, err := writer.Write(buffContributions); err != nil {
		return err
	}

	return nil
''', '''	buff := make([]byte, 3)
	buff[0] = p.Power
	binary.BigEndian.PutUint16(buff[1:], p.Contributions)
	_, err := writer.Write(buff)
	return err
'''))
rf('m-header-binwrite', 'C20 C01 C03', ('phase1/header.go', '''	// Write Power
	if _, err := writer.Write([]byte{p.Power}); err != nil {
		return err
	}

	// Write Contribution
	buffContributions := make([]byte, 2)
	binary.BigEndian.PutUint16(buffContributions, p.Contributions)
	if _, err := writer.Write(buffContributions); err != nil {
		return err
	}

	return nil
''', '''	for _, v := range []interface{}{p.Power, p.Contributions} {
		if err := binary.Write(writer, binary.BigEndian, v); err != nil {
			return err
		}
	}
	return nil
'''))
rf('m-par-slices', 'C21', (CP, '''	for i := 0; i < nbTasks; i++ {
		wg.Add(1)
''', '''	wg.Add(nbTasks)
	for i := 0; i < nbTasks; i++ {
'''))
rf('m-bitrev-loop', 'C09 C12', ('common/utils.go', '''	for i := uint64(0); i < n; i++ {
		irev := bits.Reverse64(i) >> nn
		if irev > i {
			a[i], a[irev] = a[irev], a[i]
		}
	}
}

func BitReverseG2''', '''	for i := range a {
		irev := int(bits.Reverse64(uint64(i)) >> nn)
		if irev <= i {
			continue
		}
		tmp := a[i]
		a[i] = a[irev]
		a[irev] = tmp
	}
}

func BitReverseG2'''))
rf('m-default-table', 'C05 C06 C22', (P1C, '''		// Read TauG1
		if _, err := inputFile.Seek(posTauG1, io.SeekStart); err != nil {
			return c, err
		}
		if err := dec.Decode(&c.G1.Tau); err != nil {
			return c, err
		}

		// Read AlphaG1
		if _, err := inputFile.Seek(posAlphaG1, io.SeekStart); err != nil {
			return c, err
		}
		if err := dec.Decode(&c.G1.Alpha); err != nil {
			return c, err
		}

		// Read BetaG1
		if _, err := inputFile.Seek(posBetaG1, io.SeekStart); err != nil {
			return c, err
		}
		if err := dec.Decode(&c.G1.Beta); err != nil {
			return c, err
		}

		// Read TauG2
		if _, err := inputFile.Seek(posTauG2, io.SeekStart); err != nil {
			return c, err
		}
		if err := dec.Decode(&c.G2.Tau); err != nil {
			return c, err
		}

		// Read BetaG2
		if _, err := inputFile.Seek(posBetaG2, io.SeekStart); err != nil {
			return c, err
		}
		if err := dec.Decode(&c.G2.Beta); err != nil {
			return c, err
		}
''', '''		for _, f := range []struct {
			pos   int64
			point interface{}
		}{{posTauG1, &c.G1.Tau}, {posAlphaG1, &c.G1.Alpha}, {posBetaG1, &c.G1.Beta}, {posTauG2, &c.G2.Tau}, {posBetaG2, &c.G2.Beta}} {
			if _, err := inputFile.Seek(f.pos, io.SeekStart); err != nil {
				return c, err
			}
			if err := dec.Decode(f.point); err != nil {
				return c, err
			}
		}
'''))


V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# ---- in-place updates
rf('p-inplace-filter', 'C17 C18', (KE, '	filtered := make([]bn254.G1Affine, len(buff))\n', '	filtered := buff\n'), (KE, '	filtered := make([]bn254.G2Affine, len(buff))\n', '	filtered := buff\n'))
rf('p-inplace-append', 'C17 C18', (KE, FILT1, '''	filtered := buff[:0]
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i] = true
			continue
		}
		filtered = append(filtered, e)
	}
	return filtered, infinityAt, uint64(len(buff) - len(filtered))
'''))
rf('p-inplace-z', 'C12', (P2U, '''	Z := make([]bn254.G1Affine, n)
	for i := 0; i < n-1; i++ {
		Z[i].Sub(&tauG1[i+n], &tauG1[i])
	}
''', '''	Z := tauG1[:n]
	for i := 0; i < n-1; i++ {
		Z[i].Sub(&tauG1[i+n], &tauG1[i])
	}
	Z[n-1] = bn254.G1Affine{}
'''))
# ---- functions without an edit so far
P2H='phase2/header.go'; AC='actions.go'; LG='lagrange/g1.go'; CU='common/utils.go'
rf('q-eq-header', 'C15 C16', (P2H, """	if h.Wires == h2.Wires &&
		h.Witness == h2.Witness &&
		h.Public == h2.Public &&
		h.PrivateCommitted == h2.PrivateCommitted &&
		h.Constraints == h2.Constraints &&
		h.Domain == h2.Domain {
		return true
	}
	return false
""", """	a, b := *h, *h2
	a.Contributions, b.Contributions = 0, 0
	return a == b
"""))
rf('q-p2-codec', 'C20 C14', (P2C, """	toEncode := []interface{}{
		&c.Delta,
		&c.PublicKey.S,
		&c.PublicKey.SX,
		&c.PublicKey.SPX,
	}

	enc := bn254.NewEncoder(writer)
	for _, v := range toEncode {
		if err := enc.Encode(v); err != nil {
			return enc.BytesWritten(), err
		}
	}
""", """	enc := bn254.NewEncoder(writer)
	if err := enc.Encode(&c.Delta); err != nil {
		return enc.BytesWritten(), err
	}
	pk := &c.PublicKey
	for _, p := range []*bn254.G1Affine{&pk.S, &pk.SX} {
		if err := enc.Encode(p); err != nil {
			return enc.BytesWritten(), err
		}
	}
	if err := enc.Encode(&pk.SPX); err != nil {
		return enc.BytesWritten(), err
	}
"""), (P2C, """	toDecode := []interface{}{
		&c.Delta,
		&c.PublicKey.S,
		&c.PublicKey.SX,
		&c.PublicKey.SPX,
	}

	dec := bn254.NewDecoder(reader)
	for _, v := range toDecode {
		if err := dec.Decode(v); err != nil {
			return dec.BytesRead(), err
		}
	}
	c.Hash = make([]byte, 32)
	nBytes, err := io.ReadFull(reader, c.Hash)
	return int64(nBytes), err
""", """	dec := bn254.NewDecoder(reader)
	if err := dec.Decode(&c.Delta); err != nil {
		return dec.BytesRead(), err
	}
	if err := dec.Decode(&c.PublicKey.S); err != nil {
		return dec.BytesRead(), err
	}
	if err := dec.Decode(&c.PublicKey.SX); err != nil {
		return dec.BytesRead(), err
	}
	if err := dec.Decode(&c.PublicKey.SPX); err != nil {
		return dec.BytesRead(), err
	}
	hash := make([]byte, 32)
	nBytes, err := io.ReadFull(reader, hash)
	c.Hash = hash
	return int64(nBytes), err
"""))
rf('q-header-io', 'C14 C15 C20', (P2H, """	dec := gob.NewDecoder(reader)
	if err := dec.Decode(h); err != nil {
		return err
	}
	return nil
""", """	return gob.NewDecoder(reader).Decode(h)
"""), (P2H, """	enc := gob.NewEncoder(writer)
	if err := enc.Encode(*h); err != nil {
		return err
	}
	return nil
""", """	return gob.NewEncoder(writer).Encode(h)
"""))
rf('q-p2vc-order', 'C15 C16', (P2U, """	// Verify contribution hash
	b := computeHash(c)
	if !bytes.Equal(c.Hash, b) {
		return fmt.Errorf("contribution hash is invalid")
	}

	return nil
}

func verifyParameter""", """	return nil
}

func verifyParameter"""), (P2U, """	// Compute SP for δ
	deltaSP := common.GenSP(c.PublicKey.S, c.PublicKey.SX, prevHash, 1)
""", """	// Verify contribution hash
	if !bytes.Equal(computeHash(c), c.Hash) {
		return fmt.Errorf("contribution hash is invalid")
	}

	// Compute SP for δ
	pk := &c.PublicKey
	deltaSP := common.GenSP(pk.S, pk.SX, prevHash, 1)
"""))
rf('q-p2vc-one', 'C15 C16', (P2U, """	if !common.SameRatio(c.PublicKey.S, c.PublicKey.SX, c.PublicKey.SPX, deltaSP) {
		return errors.New("couldn't verify knowledge of Delta")
	}
""", """	known := common.SameRatio(c.PublicKey.S, c.PublicKey.SX, c.PublicKey.SPX, deltaSP)
"""), (P2U, """	if !common.SameRatio(c.Delta, prevDelta, deltaSP, c.PublicKey.SPX) {
		return errors""", """	based := common.SameRatio(c.Delta, prevDelta, deltaSP, c.PublicKey.SPX)
	switch {
	case !known:
		return errors.New("couldn't verify knowledge of Delta")
	case !based:
		return errors"""))
rf('q-verifyparam', 'C15 C16', (P2U, """	if in, or, err := aggregate(inputDecoder, originDecoder, size); err != nil {
		return err
	} else {
		if !common.SameRatio(*in, *or, *delta, *g) {
			return fmt.Errorf("inconsistent update to %s", field)
		}
	}
	return nil
""", """	input, origin, err := aggregate(inputDecoder, originDecoder, size)
	if err != nil {
		return err
	}
	if common.SameRatio(*input, *origin, *delta, *g) {
		return nil
	}
	return fmt.Errorf("inconsistent update to %s", field)
"""))
rf('q-init-steps', 'C08 C10 C22', (P2, """	// 2. Convert phase 1 SRS to Lagrange basis
	if err := processLagrange(header1, header2, phase1File, phase2File); err != nil {
		return err
	}

	// 3. Process evaluation
	if err := processEvaluations(header1, header2, r1csPath, phase1File); err != nil {
		return err
	}

	// Evaluate Delta and Z
	if err := processDeltaAndZ(header1, header2, phase1File, phase2File); err != nil {
		return err
	}

	// Process parameters
	if err := processPVCKK(header1, header2, r1csPath, phase2File); err != nil {
		return err
	}
""", """	for _, step := range []func() error{
		func() error { return processLagrange(header1, header2, phase1File, phase2File) },
		func() error { return processEvaluations(header1, header2, r1csPath, phase1File) },
		func() error { return processDeltaAndZ(header1, header2, phase1File, phase2File) },
		func() error { return processPVCKK(header1, header2, r1csPath, phase2File) },
	} {
		if err := step(); err != nil {
			return err
		}
	}
"""))
rf('q-vk-list', 'C19', (KE, """	// [α]1,[β]1,[β]2,[γ]2,[δ]1,[δ]2
	if err := enc.Encode(&vk.G1.Alpha); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G1.Beta); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G2.Beta); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G2.Gamma); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G1.Delta); err != nil {
		return n + enc.BytesWritten(), err
	}
	if err := enc.Encode(&vk.G2.Delta); err != nil {
		return n + enc.BytesWritten(), err
	}

	// uint32(len(Kvk)),[Kvk]1
	if err := enc.Encode(vk.G1.K); err != nil {
		return n + enc.BytesWritten(), err
	}
""", """	// [α]1,[β]1,[β]2,[γ]2,[δ]1,[δ]2,uint32(len(Kvk)),[Kvk]1
	for _, v := range []interface{}{&vk.G1.Alpha, &vk.G1.Beta, &vk.G2.Beta, &vk.G2.Gamma, &vk.G1.Delta, &vk.G2.Delta, vk.G1.K} {
		if err := enc.Encode(v); err != nil {
			return n + enc.BytesWritten(), err
		}
	}
"""))
rf('q-keys-steps', 'C17 C18 C19 C22', (KE, """	fmt.Println("Extracting proving key")
	if err := extractPK(phase2Path); err != nil {
		return err
	}
	fmt.Println("Extracting verifying key")
	if err := extractVK(phase2Path); err != nil {
		return err
	}
	fmt.Println("Keys have been extracted successfully")
	return nil
}
""", """	return extractBoth(func() error { return extractPK(phase2Path) }, func() error { return extractVK(phase2Path) })
}

func extractBoth(pk, vk func() error) error {
	fmt.Println("Extracting proving key")
	if err := pk(); err != nil {
		return err
	}
	fmt.Println("Extracting verifying key")
	if err := vk(); err != nil {
		return err
	}
	fmt.Println("Keys have been extracted successfully")
	return nil
}
"""), (KE, """	fmt.Println("Extracting proving key")
	if err := extractSplitPK(phase2Path, session); err != nil {
		return err
	}
	fmt.Println("Extracting verifying key")
	if err := extractSplitVK(phase2Path, session); err != nil {
		return err
	}
	fmt.Println("Keys have been extracted successfully")
	return nil
}
""", """	return extractBoth(func() error { return extractSplitPK(phase2Path, session) }, func() error { return extractSplitVK(phase2Path, session) })
}
"""))
rf('q-splitvk-order', 'C19 C18 C22', (KE, """	name := fmt.Sprintf("%s.vk.save", session)
	vkFile, err := os.Create(name)
	if err != nil {
		return err
	}
	defer vkFile.Close()
	vkWriter := bufio.NewWriter(vkFile)

	// 1. Read""", """	vkFile, err := os.Create(session + ".vk.save")
	if err != nil {
		return err
	}
	defer vkFile.Close()
	vkWriter := bufio.NewWriter(vkFile)

	// 1. Read"""), (KE, """	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
	commitmentKeyFile, err := os.Create(name)
	if err != nil {
		return err
	}
	defer commitmentKeyFile.Close()
	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
	if err != nil {
		return err
	}
	return nil
""", """	commitmentKeyFile, err := os.Create(session + ".pk.CommitmentKey.save")
	if err != nil {
		return err
	}
	defer commitmentKeyFile.Close()
	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
	return err
"""))
rf('q-exportsol', 'C19 C22', (KE, """	f, err := os.Open(session + ".vk.save")
""", """	f, err := os.Open(fmt.Sprintf("%s.vk.save", session))
"""))
rf('q-fft-order', 'C09 C21', (LG, """		difFFTG1(a[0:m], twiddles, nextStage, maxSplits, nil)
		difFFTG1(a[m:n], twiddles, nextStage, maxSplits, nil)
""", """		difFFTG1(a[m:], twiddles, nextStage, maxSplits, nil)
		difFFTG1(a[:m], twiddles, nextStage, maxSplits, nil)
"""))
rf('q-fft-halves', 'C09 C21', (LG, """		go difFFTG1(a[m:n], twiddles, nextStage, maxSplits, chDone)
		difFFTG1(a[0:m], twiddles, nextStage, maxSplits, nil)
""", """		lower, upper := a[:m], a[m:]
		go difFFTG1(lower, twiddles, nextStage, maxSplits, chDone)
		difFFTG1(upper, twiddles, nextStage, maxSplits, nil)
"""))
rf('q-kernel-loops', 'C09 C21', (LG, """	butterflyG1(&a[0], &a[4])
	butterflyG1(&a[1], &a[5])
	butterflyG1(&a[2], &a[6])
	butterflyG1(&a[3], &a[7])

	var twiddle big.Int
	twiddles[stage+0][1].BigInt(&twiddle)
	a[5].ScalarMultiplication(&a[5], &twiddle)
	twiddles[stage+0][2].BigInt(&twiddle)
	a[6].ScalarMultiplication(&a[6], &twiddle)
	twiddles[stage+0][3].BigInt(&twiddle)
	a[7].ScalarMultiplication(&a[7], &twiddle)
""", """	for i := 0; i < 4; i++ {
		butterflyG1(&a[i], &a[i+4])
	}

	var twiddle big.Int
	for i := 1; i < 4; i++ {
		twiddles[stage][i].BigInt(&twiddle)
		a[4+i].ScalarMultiplication(&a[4+i], &twiddle)
	}
"""), (LG, """	butterflyG1(&a[0], &a[1])
	butterflyG1(&a[2], &a[3])
	butterflyG1(&a[4], &a[5])
	butterflyG1(&a[6], &a[7])
""", """	for i := 0; i < 8; i += 2 {
		butterflyG1(&a[i], &a[i+1])
	}
"""))
rf('q-convert-merge', 'C09 C21', (LG, """			jac[i].ScalarMultiplication(&jac[i], &invBigint)
		}
	})

	common.Parallelize(len(buff), func(start, end int) {
		for i := start; i < end; i++ {
			buff[i]""", """			jac[i].ScalarMultiplication(&jac[i], &invBigint)
			buff[i]"""))
rf('q-bitrev-seq', 'C09', ('lagrange/g2.go', 'irev > j', 'j < irev'), (CU, """		irev := bits.Reverse64(i) >> nn
		if irev > i {
			a[i], a[irev] = a[irev], a[i]
		}
	}
}

// Check""", """		irev := bits.Reverse64(i) >> nn
		if irev <= i {
			continue
		}
		tmp := a[i]
		a[i] = a[irev]
		a[irev] = tmp
	}
}

// Check"""))
rf('q-sameratio', 'C04 C05 C15 C16', (CU, """	var na2 bn254.G2Affine
	na2.Neg(&a2)
	res, err := bn254.PairingCheck(
		[]bn254.G1Affine{a1, b1},
		[]bn254.G2Affine{na2, b2})
""", """	var nb1 bn254.G1Affine
	nb1.Neg(&b1)
	res, err := bn254.PairingCheck([]bn254.G1Affine{a1, nb1}, []bn254.G2Affine{a2, b2})
"""))
rf('q-randomize', 'C04 C06', (P1U, """	common.Parallelize(len(r), func(start, end int) {
		for i := start; i < end; i++ {
			r[i].SetRandom()
		}
	})
}
""", """	for i := range r {
		r[i].SetRandom()
	}
}
"""))
rf('q-cli-slice', 'C23', (AC, """	phase1Path := cCtx.Args().Get(0)
	r1csPath := cCtx.Args().Get(1)
	phase2Path := cCtx.Args().Get(2)
	err := phase2.Initialize(phase1Path, r1csPath, phase2Path)
	return err
""", """	args := cCtx.Args()
	return phase2.Initialize(args.Get(0), args.Get(1), args.Get(2))
"""), (AC, """	inputPath := cCtx.Args().Get(0)
	err := phase1.Verify(inputPath, "")
	return err
""", """	return phase1.Verify(cCtx.Args().First(), "")
"""))
rf('q-cli-helper', 'C23', (AC, """	nbCons, err := strconv.Atoi(cCtx.Args().Get(3))
	if err != nil {
		return err
	}

	nbR1C, err := strconv.Atoi(cCtx.Args().Get(4))
	if err != nil {
		return err
	}

	batchSize, err := strconv.Atoi(cCtx.Args().Get(5))
	if err != nil {
		return err
	}

	err = phase2.InitializeFromPartedR1CS(phase1Path, r1csPath, phase2Path, nbCons, nbR1C, batchSize)
	return err
""", """	var numbers [3]int
	for i := range numbers {
		n, err := strconv.Atoi(cCtx.Args().Get(3 + i))
		if err != nil {
			return err
		}
		numbers[i] = n
	}
	return phase2.InitializeFromPartedR1CS(phase1Path, r1csPath, phase2Path, numbers[0], numbers[1], numbers[2])
"""))
rf('q-cli-wrap', 'C23', (AC, """func p2c(cCtx *cli.Context) error {
	// sanity check
	if cCtx.Args().Len() != 2 {
		return errors.New("please provide the correct arguments")
	}
""", """func wantArgs(cCtx *cli.Context, n int) error {
	if cCtx.NArg() != n {
		return errors.New("please provide the correct arguments")
	}
	return nil
}

func p2c(cCtx *cli.Context) error {
	if err := wantArgs(cCtx, 2); err != nil {
		return err
	}
"""))
rf('q-z-direct', 'C12', (P2U, """	Z := make([]bn254.G1Affine, n)
	for i := 0; i < n-1; i++ {
		Z[i].Sub(&tauG1[i+n], &tauG1[i])
	}
	common.BitReverseG1(Z)
	Z = Z[:n-1]

	// Write Z
	for i := 0; i < len(Z); i++ {
		if err := enc.Encode(&Z[i]); err != nil {
			return err
		}
	}
""", """	Z := make([]bn254.G1Affine, n)
	for i := range Z[:n-1] {
		Z[i].Set(&tauG1[i+n])
		Z[i].Sub(&Z[i], &tauG1[i])
	}
	common.BitReverseG1(Z)

	// Write Z, without the last point
	for i := 1; i < len(Z); i++ {
		if err := enc.Encode(&Z[i-1]); err != nil {
			return err
		}
	}
"""))

# ---- type parameters
rf('r-generic-transform', 'C07 C22', (P1U, open('/repo/'+P1U).read()[open('/repo/'+P1U).read().index('func transformG1('):], """func transformG1(inputFile, outputFile *os.File, position int64, size int) error {
	return transform[bn254.G1Affine](inputFile, outputFile, position, size)
}

func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
	return transform[bn254.G2Affine](inputFile, outputFile, position, size)
}

func transform[P any](inputFile, outputFile *os.File, position int64, size int) error {
	var point P
	if _, err := inputFile.Seek(position, io.SeekStart); err != nil {
		return err
	}
	writer := bufio.NewWriter(outputFile)
	dec := bn254.NewDecoder(bufio.NewReader(inputFile))
	enc := bn254.NewEncoder(writer)
	for i := 0; i < size; i++ {
		if err := dec.Decode(&point); err != nil {
			return err
		}
		if err := enc.Encode(&point); err != nil {
			return err
		}
	}
	return writer.Flush()
}
"""))
KF = open('/repo/'+KE).read()
rf('r-generic-filter', 'C17 C18', (KE, KF[KF.index('func filterInfinityG1('):], """type point[T any] interface {
	*T
	IsInfinity() bool
}

func filterInfinity[T any, P point[T]](buff []T) ([]T, []bool, uint64) {
	infinityAt := make([]bool, len(buff))
	filtered := make([]T, len(buff))
	j := 0
	for i := range buff {
		if P(&buff[i]).IsInfinity() {
			infinityAt[i] = true
			continue
		}
		filtered[j] = buff[i]
		j++
	}
	return filtered[:j], infinityAt, uint64(len(buff) - j)
}

func filterInfinityG1(buff []bn254.G1Affine) ([]bn254.G1Affine, []bool, uint64) {
	return filterInfinity[bn254.G1Affine](buff)
}

func filterInfinityG2(buff []bn254.G2Affine) ([]bn254.G2Affine, []bool, uint64) {
	return filterInfinity[bn254.G2Affine](buff)
}
"""))
CUF = open('/repo/'+CU).read()
rf('r-generic-bitrev', 'C09 C12', (CU, CUF[CUF.index('func BitReverseG1('):CUF.index('// Check e')], """func bitReverse[T any](a []T) {
	n := uint64(len(a))
	nn := uint64(64 - bits.TrailingZeros64(n))
	for i := range a {
		if irev := bits.Reverse64(uint64(i)) >> nn; irev > uint64(i) {
			a[i], a[irev] = a[irev], a[i]
		}
	}
}

func BitReverseG1(a []bn254.G1Affine) { bitReverse(a) }

func BitReverseG2(a []bn254.G2Affine) { bitReverse(a) }

"""))
rf('r-intrange', 'C01 C22', (P1, """	for i := 0; i < 2*N-1; i++ {
""", """	for range make([]struct{}, 2*N-1) {
"""))
rf('r-minbuiltin', 'C02 C04 C06', (P1U, """func batchMul(""", """func smaller(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func batchMul("""), (P1U, """int(math.Min(float64(remaining), float64(batchSize)))""", """smaller(remaining, batchSize)"""))
rf('r-reader-struct', 'C17 C22', (KE, """	decPh2 := bn254.NewDecoder(ph2Reader)
""", """	files := struct {
		dec *bn254.Decoder
	}{bn254.NewDecoder(ph2Reader)}
	decPh2 := files.dec
"""))
def run(r, eng=True):
    name, props, edits = r
    d = tempfile.mkdtemp(prefix='rf')
    try:
        rp = d + '/repo'
        shutil.copytree('/repo', rp)
        for f, old, new in edits:
            p = os.path.join(rp, f); s = open(p).read()
            if old not in s: return '%s: TEXT NOT FOUND in %s: %s' % (name, f, old[:60])
            n = s.count(old)
            s = s.replace(old, new) if not new.endswith(old) or True else s
            open(p, 'w').write(s)
        b = subprocess.run('. /opt/vp/env.sh; cd %s && gofmt -w %s && go build ./...' % (rp, ' '.join({e[0] for e in edits})), shell=True, executable='/bin/bash', capture_output=True, text=True)
        if b.returncode: return name + ': BUILD ' + b.stderr[:600]
        out = []
        for p in props:
            o = d + '/out.json'
            x = subprocess.run(['timeout', '450', V + '/engine/bin/vcg', '-repo', rp, '-prop', p, '-out', o], capture_output=True, text=True)
            if os.path.exists(o):
                j = json.load(open(o)); bad = [q for q in j['obligations'] if not q['ok']]
                os.remove(o)
                out.append('%s:%s' % (p, 'ok' if not bad else 'ALARM(%d) %s: %s' % (len(bad), bad[0]['name'], bad[0].get('why', '')[:300])))
            else: out.append('%s:NO ANSWER %s' % (p, (x.stdout + x.stderr)[-200:]))
        return name + ': ' + '\n      '.join(out)
    finally:
        shutil.rmtree(d)
if __name__ == '__main__':
    sel = [r for r in R if not sys.argv[1:] or any(a in r[0] for a in sys.argv[1:])]
    with ThreadPoolExecutor(int(os.environ.get('P', '8'))) as ex:
        for s in ex.map(run, sel): print(s, flush=True)
