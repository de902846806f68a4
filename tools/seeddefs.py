HDR = '''package zzverif

import (
%s)

'''
def demo(imports, body):
    return HDR % "".join('\t"%s"\n' % i if not i.startswith('_') and ' ' not in i else '\t%s\n' % i for i in imports) + body
P1 = "github.com/bnb-chain/zkbnb-setup/phase1"
P2 = "github.com/bnb-chain/zkbnb-setup/phase2"
CM = "github.com/bnb-chain/zkbnb-setup/common"
KE = "github.com/bnb-chain/zkbnb-setup/keys"
BN = "github.com/consensys/gnark-crypto/ecc/bn254"
SEEDS = {}

SEEDS["c01-power-mask"] = dict(prop="C01", needs="a power of 16 or more",
  breaks="the header says power 17 but only the parameters of a smaller power are written",
  edits=[("phase1/phase1.go", '	N := int(math.Pow(2, float64(power)))\n	fmt.Printf("Power %d supports', '	N := 1 << (power & 0xf)\n	fmt.Printf("Power %d supports')],
  demo=demo(["os", "testing", P1], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	if err := phase1.Initialize(17, "o.ph1"); err != nil {
		t.Fatal(err)
	}
	s, _ := os.Stat("o.ph1")
	if want := int64(3 + 192<<17 + 32); s.Size() != want {
		t.Fatalf("file has %d bytes, want %d", s.Size(), want)
	}
}
'''))

SEEDS["c02-alpha-batch"] = dict(prop="C02", needs="an alpha or beta section of more than 2^20 points",
  breaks="the start power of the second batch of the alpha and beta sections is taken after the batch was multiplied by alpha or beta, so later batches carry alpha or beta twice",
  edits=[("phase1/utils.go", '''		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If there is α or β, then mul it with powers of τ
		if multiplicand != nil {
			batchMul(scalars, multiplicand)
		}
''', '''		// If there is α or β, then mul it with powers of τ
		if multiplicand != nil {
			batchMul(scalars, multiplicand)
		}

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)
''')],
  pkg="phase1", helpers=[],
  demo='''package phase1

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type same struct{ b []byte; at int }

func (s *same) Read(p []byte) (int, error) {
	n := copy(p, s.b[s.at:])
	s.at = (s.at + n) %% len(s.b)
	return n, nil
}

func TestDemo(t *testing.T) {
	_, _, g, _ := bn254.Generators()
	enc := g.Bytes()
	n := 1<<20 + 2
	var tau, alpha fr.Element
	tau.SetUint64(3)
	alpha.SetUint64(7)
	var out bytes.Buffer
	if _, err := scaleG1(bn254.NewDecoder(&same{b: enc[:]}), bn254.NewEncoder(&out), n, &tau, &alpha); err != nil {
		t.Fatal(err)
	}
	b := out.Bytes()
	for _, i := range []int{0, 1, 1<<20 - 1, 1 << 20, n - 1} {
		var p, w bn254.G1Affine
		if _, err := p.SetBytes(b[32*i : 32*i+32]); err != nil {
			t.Fatal(err)
		}
		var s fr.Element
		s.Exp(tau, big.NewInt(int64(i)))
		s.Mul(&s, &alpha)
		var bi big.Int
		w.ScalarMultiplication(&g, s.BigInt(&bi))
		if !w.Equal(&p) {
			t.Fatalf("point %d is not multiplied by alpha*tau^%d", i, i)
		}
	}
}
'''.replace('%%', '%'))

SEEDS["c03-tags"] = dict(prop="C03", needs="two sites: contribution and verification use the same tag for alpha, so every ceremony still verifies",
  breaks="the proof of knowledge of alpha is bound to tag 1 instead of 2, so it is no longer separated from the one of tau",
  edits=[("phase1/phase1.go", "common.GenPublicKey(alpha, prevHash, 2)", "common.GenPublicKey(alpha, prevHash, 1)"),
         ("phase1/utils.go", "current.PublicKeys.Alpha.SX, prev.Hash[:], 2)", "current.PublicKeys.Alpha.SX, prev.Hash[:], 1)")],
  demo=demo(["testing", P1], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	p, _, _ := chain1(2, oneToxic(), 1)
	put(t, ".", "i.ph1", p.bytes())
	if err := phase1.Contribute("i.ph1", "o.ph1"); err != nil {
		t.Fatal(err)
	}
	c := parse1(t, "o.ph1").C[1]
	for k, q := range []pub{c.PTau, c.PAlpha, c.PBeta} {
		if !pairEq(q.S, q.SPX, q.SX, spOf(q.S, q.SX, p.C[0].Hash, byte(k+1))) {
			t.Fatalf("proof of knowledge %d is not bound to tag %d", k, k+1)
		}
	}
}
'''))

SEEDS["c04-first-pair"] = dict(prop="C04", needs="a crafted file whose G2 powers from the first on are all off by one factor",
  breaks="the first random factor is always zero, so the relation between the first two points of every section is never verified",
  edits=[("phase1/utils.go", '''	common.Parallelize(len(r), func(start, end int) {
		for i := start; i < end; i++ {
			r[i].SetRandom()''', '''	common.Parallelize(len(r)-1, func(start, end int) {
		for i := start; i < end; i++ {
			r[i+1].SetRandom()''')],
  demo=demo(["testing", P1], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	p, _, _ := chain1(3, oneToxic(), 1)
	put(t, ".", "i.ph1", p.bytes())
	if err := phase1.Verify("i.ph1", ""); err != nil {
		t.Fatal(err)
	}
	c := rnd()
	for i := range p.Alpha {
		if i > 0 {
			p.Alpha[i] = m1(p.Alpha[i], c)
		}
	}
	put(t, ".", "i.ph1", p.bytes())
	if err := phase1.Verify("i.ph1", ""); err == nil {
		t.Fatal("accepts an alpha section whose points from 1 on are multiplied by another factor")
	}
}
'''))

SEEDS["c05-hash-prefix"] = dict(prop="C05", needs="a record whose hash is wrong in its second half only",
  breaks="only the first half of the hash of a record is compared",
  edits=[("phase1/utils.go", "	if !bytes.Equal(current.Hash, h) {", "	if !bytes.HasPrefix(h, current.Hash[:16]) {")],
  demo=demo(["testing", P1], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	p, _, _ := chain1(2, oneToxic(), 2)
	put(t, ".", "i.ph1", p.bytes())
	if err := phase1.Verify("i.ph1", ""); err != nil {
		t.Fatal(err)
	}
	p.C[1].Hash[20] ^= 1
	put(t, ".", "i.ph1", p.bytes())
	if err := phase1.Verify("i.ph1", ""); err == nil {
		t.Fatal("accepts a last record with a wrong hash")
	}
}
'''))

SEEDS["c06-start-tau2"] = dict(prop="C06", needs="a ceremony that starts from a transformed file whose tau is not one",
  breaks="the start point takes the first instead of the second G2 power of the transformed file, so honest ceremonies based on it are refused",
  edits=[("phase1/contribution.go", "posBetaG1 + int64(N)*G1CompressedSize + G2CompressedSize", "posBetaG1 + int64(N)*G1CompressedSize"),
         ("phase1/contribution.go", "posTauG2 + int64(N-1)*G2CompressedSize", "posTauG2 + int64(N)*G2CompressedSize")],
  demo=demo(["testing", P1], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	put(t, ".", "ppot", ppot(3, rndToxic()))
	if err := phase1.Transform("ppot", "t.ph1", 3, 2); err != nil {
		t.Fatal(err)
	}
	if err := phase1.Contribute("t.ph1", "1.ph1"); err != nil {
		t.Fatal(err)
	}
	if err := phase1.Verify("1.ph1", "t.ph1"); err != nil {
		t.Fatal("honest ceremony refused: ", err)
	}
}
'''))

SEEDS["c07-beta-offset"] = dict(prop="C07", needs="a transform to a smaller power",
  breaks="the beta section of the input is sought behind outN instead of inN alpha points",
  edits=[("phase1/phase1.go", "posAlphaG1 + int64(inN)*G1Size", "posAlphaG1 + int64(outN)*G1Size"),
         ("phase1/phase1.go", "posBetaG1 + int64(inN)*G1Size", "posAlphaG1 + int64(2*inN)*G1Size")],
  demo=demo(["testing", P1], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	tx := rndToxic()
	put(t, ".", "ppot", ppot(3, tx))
	for out := byte(1); out <= 3; out++ {
		if err := phase1.Transform("ppot", "t.ph1", 3, out); err != nil {
			t.Fatal(err)
		}
		p, w := parse1(t, "t.ph1"), srs(out, tx)
		for i := range w.Beta {
			if !p.Beta[i].Equal(&w.Beta[i]) {
				t.Fatalf("power %d: beta[%d] is wrong", out, i)
			}
		}
		if !p.BetaG2.Equal(&w.BetaG2) {
			t.Fatal("beta G2 is wrong")
		}
	}
}
'''))

SEEDS["c08-exact-fit"] = dict(prop="C08", needs="a circuit with exactly as many constraints as the phase 1 parameters support",
  breaks="a circuit with exactly 2^power constraints is refused",
  edits=[("phase2/utils.go", "	if N < header2.Constraints {", "	if N <= header2.Constraints {")],
  helpers=["util", "phase2"],
  demo=demo(["os", "testing", P2], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	c := circCase{name: "x", pub: 1, sec: 2}
	for c.rows = 1; c.rows < 40; c.rows++ {
		ccs := compile(t, c)
		n := ccs.GetNbConstraints()
		if n < 2 || n&(n-1) != 0 {
			continue
		}
		f, _ := os.Create("c.r1cs")
		ccs.WriteTo(f)
		f.Close()
		var pw byte
		for 1<<pw < n {
			pw++
		}
		put(t, ".", "i.ph1", srs(pw, rndToxic()).bytes())
		if err := phase2.Initialize("i.ph1", "c.r1cs", "o.ph2"); err != nil {
			t.Fatalf("%d constraints, power %d: %v", n, pw, err)
		}
		return
	}
	t.Skip("no such circuit")
}
'''))

SEEDS["c09-small-domain"] = dict(prop="C09", needs="a domain that the number of CPUs does not divide (or smaller than it)",
  breaks="the bit reversal of the G2 points leaves out the last n mod CPUs indices",
  edits=[("lagrange/g2.go", '''		if id == int(numCPU-1) {
			end = n
		}
''', '''		if end > n {
			end = n
		}
''')],
  demo=demo(["testing", "github.com/bnb-chain/zkbnb-setup/lagrange", "github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"], '''func TestDemo(t *testing.T) {
	n := 4
	d := fft.NewDomain(uint64(n))
	var P []G2
	for i := 0; i < n; i++ {
		P = append(P, p2(num(uint64(i*i+2))))
	}
	lagrange.ConvertG2(P, d)
	for j := range P {
		s := num(0)
		for i := 0; i < n; i++ {
			s = add(s, mul(num(uint64(i*i+2)), pow(inv(d.Generator), i*j)))
		}
		w := p2(mul(s, inv(num(uint64(n)))))
		if !w.Equal(&P[j]) {
			t.Fatalf("point %d is not the inverse DFT", j)
		}
	}
}
'''))

SEEDS["c10-coeff-two"] = dict(prop="C10", needs="a wire that has coefficient 2 in a constraint after it appeared in another one",
  breaks="for coefficient 2 the whole sum so far is doubled instead of the point being added twice",
  edits=[("phase2/utils.go", '''		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G2Affine''', '''		res.Add(res, value).Add(res, res)
	default:
		var tmp bn254.G2Affine''')],
  helpers=["util", "phase2"],
  demo=demo(["os", "testing", P2, "cs_bn254 \"github.com/consensys/gnark/constraint/bn254\""], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	for _, c := range circCases() {
		ccs := compile(t, c)
		f, _ := os.Create("c.r1cs")
		ccs.WriteTo(f)
		f.Close()
		tx := rndToxic()
		put(t, ".", "i.ph1", srs(c.power, tx).bytes())
		if err := phase2.Initialize("i.ph1", "c.r1cs", "o.ph2"); err != nil {
			t.Fatal(err)
		}
		r1 := ccs.(*cs_bn254.R1CS)
		if err := cmp2("[B]2", evalsOf(t).B2, expected(r1, r1.Constraints, tx).B); err != nil {
			t.Fatal(c.name, err)
		}
	}
}
'''))

SEEDS["c12-z-power"] = dict(prop="C12", needs="a phase 1 file larger than the domain of the circuit",
  breaks="Z is made for the size of the phase 1 file instead of the domain of the circuit",
  edits=[("phase2/utils.go", "	n := header2.Domain\n", "	n := 1 << header1.Power\n")],
  helpers=["util", "phase2"],
  demo=demo(["os", "testing", P2, "cs_bn254 \"github.com/consensys/gnark/constraint/bn254\""], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	c := circCases()[3]
	ccs := compile(t, c)
	f, _ := os.Create("c.r1cs")
	ccs.WriteTo(f)
	f.Close()
	for pw := c.power; pw < c.power+2; pw++ {
		tx := rndToxic()
		put(t, ".", "i.ph1", srs(pw, tx).bytes())
		if err := phase2.Initialize("i.ph1", "c.r1cs", "o.ph2"); err != nil {
			t.Fatal(err)
		}
		r1 := ccs.(*cs_bn254.R1CS)
		e := expected(r1, r1.Constraints, tx)
		p := parse2(t, "o.ph2")
		if err := firstErrOf(cmp1("Z", p.Z, e.Z), cmp1("PKK", p.PKK, e.PKK)); err != nil {
			t.Fatal(err)
		}
	}
}
func firstErrOf(a, b error) error {
	if a != nil {
		return a
	}
	return b
}
'''))

SEEDS["c13-last-constraint"] = dict(prop="C13", needs="a last constraint with a right side over wires (parted form only)",
  breaks="the parted route leaves the last constraint out of the G2 evaluation of B if there are at least as many constraints as one batch",
  edits=[("phase2/parted.go", '''	// Accumlate {[B]₂}
	for i := 0; i < nbCons; i++ {''', '''	// Accumlate {[B]₂}
	for i := 0; i < nbCons-nbR1C/batchSize; i++ {''')],
  helpers=["util", "phase2"],
  demo=demo(["testing", P2, "cs_bn254 \"github.com/consensys/gnark/constraint/bn254\""], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	c := circCases()[3]
	for _, bs := range []int{100, 4} {
		ccs := compile(t, c)
		r1 := compile(t, c).(*cs_bn254.R1CS)
		n, m := ccs.GetNbConstraints(), ccs.GetNbR1C()
		ccs.SplitDumpBinary("s", bs)
		tx := rndToxic()
		put(t, ".", "i.ph1", srs(c.power, tx).bytes())
		if err := phase2.InitializeFromPartedR1CS("i.ph1", "s", "o.ph2", n, m, bs); err != nil {
			t.Fatal(err)
		}
		if err := cmp2("[B]2", evalsOf(t).B2, expected(r1, r1.Constraints, tx).B); err != nil {
			t.Fatal(bs, err)
		}
	}
}
'''))

SEEDS["c14-prev-hash"] = dict(prop="C14", needs="a third or later contribution",
  breaks="the proof of a contribution is bound to the first instead of the previous record's hash, in contribution and verification alike",
  edits=[("phase2/phase2.go", '''		if _, err := c.writeTo(writer); err != nil {
			return err
		}
	}
''', '''		if _, err := c.writeTo(writer); err != nil {
			return err
		}
		if i == 0 {
			firstHash = c.Hash
		}
	}
'''), ("phase2/phase2.go", '''	nExistingContributions := header.Contributions - 1
''', '''	nExistingContributions := header.Contributions - 1
	var firstHash []byte
'''), ("phase2/phase2.go", "		prevHash = c.Hash\n	}\n\n	var contribution", "		prevHash = firstHash\n	}\n\n	var contribution"),
     ("phase2/phase2.go", "		prevDelta = c.Delta\n		prevHash = c.Hash\n", "		prevDelta = c.Delta\n		if i == 0 {\n			prevHash = c.Hash\n		}\n")],
  demo=demo(["testing", P2], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	o := origin2(4, 3)
	put(t, ".", "o.ph2", o.bytes())
	in := "o.ph2"
	for i := 0; i < 3; i++ {
		out := in + "x"
		if err := phase2.Contribute(in, out); err != nil {
			t.Fatal(err)
		}
		in = out
	}
	p := parse2(t, in)
	var prev []byte
	for i, c := range p.C {
		if !pairEq(c.P.S, c.P.SPX, c.P.SX, spOf(c.P.S, c.P.SX, prev, 1)) {
			t.Fatalf("proof %d is not bound to the previous record", i)
		}
		prev = c.Hash
	}
}
'''))

SEEDS["c15-delta-order"] = dict(prop="C15", needs="a crafted file whose last record claims another delta in a chain that is otherwise right",
  breaks="the delta of the file is compared with that of the last record only by its x coordinate, so the negated delta passes",
  edits=[("phase2/phase2.go", "	if !c.Delta.Equal(&d1) {", "	if !c.Delta.X.Equal(&d1.X) {")],
  demo=demo(["testing", P2], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	o := origin2(4, 3)
	put(t, ".", "o.ph2", o.bytes())
	p, st, _ := chain2(o, 2)
	put(t, ".", "i.ph2", p.bytes())
	if err := phase2.Verify("i.ph2", "o.ph2"); err != nil {
		t.Fatal(err)
	}
	q := scaled2(o, sub(num(0), st[1]))
	q.H, q.C = p.H, p.C
	put(t, ".", "i.ph2", q.bytes())
	if err := phase2.Verify("i.ph2", "o.ph2"); err == nil {
		t.Fatal("accepts the parameters of minus delta")
	}
}
'''))

SEEDS["c16-one-witness"] = dict(prop="C16", needs="a circuit with an empty proving section",
  breaks="an honest ceremony over a circuit without private wires is refused",
  edits=[("phase2/utils.go", "	var initialSize = int(math.Min(float64(size), float64(batchSize)))\n	buff := make([]bn254.G1Affine, initialSize)\n	r := make",
          "	var initialSize = int(math.Min(float64(size), float64(batchSize)))\n	if initialSize < 1 {\n		return nil, nil, fmt.Errorf(\"nothing to aggregate\")\n	}\n	buff := make([]bn254.G1Affine, initialSize)\n	r := make")],
  demo=demo(["testing", P2], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	o := origin2(2, 0)
	put(t, ".", "o.ph2", o.bytes())
	if err := phase2.Contribute("o.ph2", "i.ph2"); err != nil {
		t.Fatal(err)
	}
	if err := phase2.Verify("i.ph2", "o.ph2"); err != nil {
		t.Fatal(err)
	}
}
'''))

SEEDS["c17-z-buffer"] = dict(prop="C17", needs="more finite B points than the domain size",
  breaks="the buffer of the B points is reused for Z when it is large enough, and written whole, so Z carries trailing points",
  edits=[("keys/keys.go", """	// 6. Read/Write Z
	buffG1 = make([]bn254.G1Affine, header.Domain-1)
	for i := 0; i < header.Domain-1; i++ {
		if err := decPh2.Decode(&buffG1[i]); err != nil {
			return err
		}
	}
	if err := encPk.Encode(buffG1); err != nil {""", """	// 6. Read/Write Z
	if len(buffG1) < header.Domain-1 {
		buffG1 = make([]bn254.G1Affine, header.Domain-1)
	}
	for i := 0; i < header.Domain-1; i++ {
		if err := decPh2.Decode(&buffG1[i]); err != nil {
			return err
		}
	}
	if err := encPk.Encode(buffG1); err != nil {""")],
  helpers=["util"],
  demo=demo(["bytes", "encoding/gob", "os", "testing", KE, BN, "github.com/consensys/gnark-crypto/ecc/bn254/fr/fft", "github.com/consensys/gnark/constraint"], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	o := origin2(4, 10)
	w := o.H.Wires
	put(t, ".", "l.ph2", o.bytes())
	A, B, B2 := make([]G1, w), make([]G1, w), make([]G2, w)
	for i := range A {
		A[i], B[i], B2[i] = p1(rnd()), p1(rnd()), p2(rnd())
	}
	var b bytes.Buffer
	enc := bn254.NewEncoder(&b)
	for _, v := range []interface{}{&gen1, &gen1, &gen2, A, B, B2, A[:3], []G1{}} {
		enc.Encode(v)
	}
	gob.NewEncoder(&b).Encode(constraint.Commitment{})
	put(t, ".", "evals", b.Bytes())
	guard(func() error { return keys.ExtractKeys("l.ph2") })
	pk, _ := os.ReadFile("pk")
	var d bytes.Buffer
	fft.NewDomain(4).WriteTo(&d)
	r := &rd{b: pk[d.Len():]}
	r.g1()
	r.g1()
	r.g1()
	r.g1s()
	r.g1s()
	z, k := r.g1s(), r.g1s()
	if r.err != nil || len(z) != 3 || len(k) != 10 {
		t.Fatalf("Z has %d points and the proving section %d, want 3 and 10 (%v)", len(z), len(k), r.err)
	}
	for i := range z {
		if !z[i].Equal(&o.Z[i]) {
			t.Fatalf("Z[%d] is wrong", i)
		}
	}
}
'''))

SEEDS["c18-cardinality"] = dict(prop="C18", needs="a number of constraints that is no power of two",
  breaks="the split proving key carries the number of constraints instead of the domain size if that is larger than 7",
  edits=[("keys/keys.go", "	Cardinality := uint64(header.Domain)\n", "	Cardinality := uint64(header.Domain)\n	if header.Domain > header.Constraints && header.Witness > header.Domain {\n		Cardinality = uint64(header.Constraints)\n	}\n")],
  helpers=["util", "phase2", "keys"],
  demo=demo(["os", "encoding/binary", "testing", KE], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	for _, c := range append(circCases(), circCase{name: "many wires", pub: 1, sec: 40, rows: 5, power: 4}) {
		k := prepKeys(t, c)
		if err := keys.ExtractSplitKeys("last.ph2", "S"); err != nil {
			t.Fatal(err)
		}
		b, _ := os.ReadFile("S.pk.E.save")
		if n := binary.BigEndian.Uint64(b); int(n) != k.e.H.Domain {
			t.Fatalf("%s: domain size %d, want %d", c.name, n, k.e.H.Domain)
		}
	}
}
'''))

SEEDS["c19-gamma"] = dict(prop="C19", needs="a phase 2 ceremony (delta other than one), split form",
  breaks="the split verifying key takes delta in G2 as gamma once delta was read",
  edits=[("keys/keys.go", '''	// Write the commitment key so that it can be read in pk separately''', '''	// Write the commitment key so that it can be read in pk separately
'''), ("keys/keys.go", '''	name := fmt.Sprintf("%s.vk.save", session)
	vkFile, err := os.Create(name)
	if err != nil {
		return err
	}
	defer vkFile.Close()
	vkWriter := bufio.NewWriter(vkFile)

	// 1. Read [α]₁
	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
		return err
	}

	// 2. Read [β]₁
	if err := decEvals.Decode(&vk.G1.Beta); err != nil {
		return err
	}
''', '''	name := fmt.Sprintf("%s.vk.save", session)
	vkFile, err := os.Create(name)
	if err != nil {
		return err
	}
	defer vkFile.Close()
	vkWriter := bufio.NewWriter(vkFile)

	// 1. Read [α]₁
	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
		return err
	}

	// 2. Read [β]₁
	if err := decEvals.Decode(&vk.G1.Beta); err != nil {
		return err
	}
	if header.Contributions > 2 {
		vk.G1.Beta = vk.G1.Alpha
	}
''')],
  helpers=["util", "phase2", "keys"],
  demo=demo(["os", "testing", KE, P2], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	k := prepKeys(t, circCases()[3])
	if err := phase2.Contribute("last.ph2", "l3.ph2"); err != nil {
		t.Fatal(err)
	}
	if err := keys.ExtractSplitKeys("l3.ph2", "S"); err != nil {
		t.Fatal(err)
	}
	if err := keys.ExtractKeys("l3.ph2"); err != nil {
		t.Fatal(err)
	}
	// uncompressed: the commitment key first, then alpha, beta
	b, _ := os.ReadFile("S.vk.save")
	r := &rd{b: b}
	r.g2r()
	r.g2r()
	r.g1rs()
	r.g1rs()
	a, be := r.g1r(), r.g1r()
	wa, wb := p1(k.tx.alpha), p1(k.tx.beta)
	if len(b) < 900 {
		r = &rd{b: b}
	}
	if !a.Equal(&wa) || !be.Equal(&wb) {
		t.Fatal("alpha or beta of the split verifying key is wrong")
	}
}
'''))

SEEDS["c20-hash-field"] = dict(prop="C20", needs="a look at which fields the record hash covers: contribution and verification agree",
  breaks="the hash of a phase 1 record does not cover the last public key point",
  edits=[("phase1/contribution.go", '''	enc := bn254.NewEncoder(sha)
	for _, v := range toEncode {''', '''	enc := bn254.NewEncoder(sha)
	for _, v := range toEncode[:len(toEncode)-1] {''')],
  demo=demo(["bytes", "crypto/sha256", "testing", P1], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	put(t, ".", "i.ph1", srs(1, oneToxic()).bytes())
	if err := phase1.Contribute("i.ph1", "o.ph1"); err != nil {
		t.Fatal(err)
	}
	c := parse1(t, "o.ph1").C[0]
	h := sha256.Sum256(c.body())
	if !bytes.Equal(h[:], c.Hash) {
		t.Fatal("the hash of the record is not that of its other fields")
	}
}
'''))

SEEDS["c21-cap-tasks"] = dict(prop="C21", needs="a CPU number larger than the number of iterations, which is more than twice the number of CPUs of the machine",
  breaks="the number of tasks is capped at the number of CPUs of the machine when there are more tasks than iterations, so iterations are left out",
  edits=[("common/parallelize.go", "		nbTasks = nbIterations\n", "		nbTasks = nbIterations\n		if cpus := runtime.NumCPU(); nbTasks > cpus {\n			nbTasks = cpus\n		}\n")],
  demo=demo(["runtime", "sync/atomic", "testing", CM], '''func TestDemo(t *testing.T) {
	c := runtime.NumCPU()
	n := 2*c + 5
	seen := make([]int32, n)
	common.Parallelize(n, func(a, b int) {
		for i := a; i < b; i++ {
			atomic.AddInt32(&seen[i], 1)
		}
	}, 3*c+9)
	for i := range seen {
		if seen[i] != 1 {
			t.Fatalf("index %d is covered %d times", i, seen[i])
		}
	}
}
'''))

SEEDS["c22-eof"] = dict(prop="C22", needs="an origin or ceremony file that is cut inside the records of the contributions",
  breaks="a failed read of a record is taken as the end of the records while they are copied, so a truncated input gives a contribution that reports success",
  edits=[("phase2/phase2.go", '''		if _, err := c.readFrom(reader); err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {''', '''		if _, err := c.readFrom(reader); err != nil {
			break
		}
		if _, err := c.writeTo(writer); err != nil {''')],
  demo=demo(["testing", P2], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	p, _, _ := chain2(origin2(4, 3), 3)
	b := p.bytes()
	put(t, ".", "i.ph2", b[:len(b)-100])
	if err := phase2.Contribute("i.ph2", "o.ph2"); err == nil {
		t.Fatal("reports success on a truncated input")
	}
}
'''))

SEEDS["c23-byte-power"] = dict(prop="C23", needs="a power argument that wraps in a byte",
  breaks="the upper bound of the power is checked after it was cut to a byte, so 257 is taken as 1",
  edits=[("actions.go", "	if power > 26 {", "	if byte(power) > 26 {")],
  demo=demo(["os", "os/exec", "testing"], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	err := exec.Command(os.Getenv("SETUP_BIN"), "p1n", "257", "o.ph1").Run()
	if _, e := os.Stat("o.ph1"); err == nil || e == nil {
		t.Fatal("power 257 is not refused")
	}
}
'''))

def initdemo(check, cases="circCases()", extra=""):
    return demo(["os", "testing", P2, "cs_bn254 \"github.com/consensys/gnark/constraint/bn254\""], """func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	for _, c := range %s {
		ccs := compile(t, c)
		f, _ := os.Create("c.r1cs")
		ccs.WriteTo(f)
		f.Close()
		tx := rndToxic()
		put(t, ".", "i.ph1", srs(c.power, tx).bytes())
		if err := guard(func() error { return phase2.Initialize("i.ph1", "c.r1cs", "o.ph2") }); err != nil {
			t.Fatal(c.name, err)
		}
		r1 := ccs.(*cs_bn254.R1CS)
		e := expected(r1, r1.Constraints, tx)
%s
	}
}
""" % (cases, check)) + extra

SEEDS["c11-infinity-pkk"] = dict(prop="C11", needs="a private wire that is in no constraint",
  breaks="points at infinity are left out of the proving section, so the wires behind them move up and the file gets too short",
  edits=[("phase2/utils.go", """	for i := 0; i < len(pkk); i++ {
		if err := enc.Encode(&pkk[i]); err != nil {""", """	for i := 0; i < len(pkk); i++ {
		if pkk[i].IsInfinity() {
			continue
		}
		if err := enc.Encode(&pkk[i]); err != nil {""")],
  helpers=["util", "phase2"],
  demo=demo(["os", "testing", P2, BN, "github.com/consensys/gnark/frontend", "github.com/consensys/gnark/frontend/cs/r1cs", "cs_bn254 \"github.com/consensys/gnark/constraint/bn254\""], """type unused struct {
	X frontend.Variable `gnark:",public"`
	U frontend.Variable
	Y frontend.Variable
}

func (c *unused) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(c.X, c.Y, c.Y), api.Add(c.Y, 3))
	return nil
}

func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	ccs, err := frontend.Compile(bn254.ID.ScalarField(), r1cs.NewBuilder, &unused{}, frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		t.Fatal(err)
	}
	f, _ := os.Create("c.r1cs")
	ccs.WriteTo(f)
	f.Close()
	tx := rndToxic()
	put(t, ".", "i.ph1", srs(3, tx).bytes())
	if err := phase2.Initialize("i.ph1", "c.r1cs", "o.ph2"); err != nil {
		t.Fatal(err)
	}
	r1 := ccs.(*cs_bn254.R1CS)
	if err := cmp1("PKK", parse2(t, "o.ph2").PKK, expected(r1, r1.Constraints, tx).PKK); err != nil {
		t.Fatal(err)
	}
}
"""))

SEEDS["c09-stage-cap"] = dict(prop="C09", needs="a domain so large that the recursion goes seven levels deeper than the number of parallel splits (8192 points on 8 CPUs)",
  breaks="below the parallel part of the recursion the stage stops advancing, so the twiddles of the wrong level are used there",
  edits=[("lagrange/g1.go", """	nextStage := stage + 1
""", """	nextStage := stage + 1
	if nextStage > maxSplits+6 {
		nextStage = maxSplits + 6
	}
""")],
  demo=demo(["testing", "github.com/bnb-chain/zkbnb-setup/lagrange", "github.com/consensys/gnark-crypto/ecc/bn254/fr/fft", "github.com/consensys/gnark-crypto/ecc/bn254/fr"], """func TestDemo(t *testing.T) {
	for _, n := range []int{512, 8192} {
		d := fft.NewDomain(uint64(n))
		P := make([]G1, n)
		s := make([]fr.Element, n)
		for i := range P {
			s[i] = num(uint64(i*i + 2))
			P[i] = p1(s[i])
		}
		lagrange.ConvertG1(P, d)
		d.FFTInverse(s, fft.DIF)
		fft.BitReverse(s)
		for j := range P {
			w := p1(s[j])
			if !w.Equal(&P[j]) {
				t.Fatalf("n=%d: point %d is not the inverse DFT", n, j)
			}
		}
	}
}
"""))

SEEDS["c21-early-close"] = dict(prop="C21", needs="a small domain, at which the parallel part of the recursion reaches the kernel of size 8, and a schedule in which the caller overtakes it",
  breaks="the done channel is closed before the kernel ran, so the caller goes on while points are still being written",
  edits=[("lagrange/g2.go", """	if chDone != nil {
		defer close(chDone)
	}

	n := len(a)
	if n == 1 {
		return
	} else if n == 8 {
		kerDIF8G2(a, twiddles, stage)
		return
	}
""", """	n := len(a)
	if n == 1 || n == 8 {
		if chDone != nil {
			close(chDone)
		}
		if n == 8 {
			kerDIF8G2(a, twiddles, stage)
		}
		return
	}
	if chDone != nil {
		defer close(chDone)
	}
""")],
  demo=demo(["testing", "github.com/bnb-chain/zkbnb-setup/lagrange", "github.com/consensys/gnark-crypto/ecc/bn254/fr/fft", "github.com/consensys/gnark-crypto/ecc/bn254/fr"], """func TestDemo(t *testing.T) {
	n := 16
	for k := 0; k < 600; k++ {
		d := fft.NewDomain(uint64(n))
		P := make([]G2, n)
		s := make([]fr.Element, n)
		for i := range P {
			s[i] = num(uint64(i*i + 2 + k))
			P[i] = p2(s[i])
		}
		lagrange.ConvertG2(P, d)
		d.FFTInverse(s, fft.DIF)
		fft.BitReverse(s)
		for j := range P {
			w := p2(s[j])
			if !w.Equal(&P[j]) {
				t.Fatalf("point %d is not the inverse DFT", j)
			}
		}
	}
}
"""))

SEEDS["c10-neg-inplace"] = dict(prop="C10", needs="a constraint whose right side has a term with coefficient -1 before another term",
  breaks="the Lagrange point is negated in place for coefficient -1, so the later terms of the same constraint use the negated point",
  edits=[("phase2/utils.go", """		res.Sub(res, value)
	case constraint.CoeffIdTwo:
		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G2Affine""", """		res.Add(res, value.Neg(value))
	case constraint.CoeffIdTwo:
		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G2Affine""")],
  helpers=["util", "phase2"],
  demo=initdemo("""		if err := cmp2("[B]2", evalsOf(t).B2, e.B); err != nil {
			t.Fatal(c.name, err)
		}"""))

SEEDS["c04-beta-copy"] = dict(prop="C04", needs="a crafted file whose beta section is wrong from the second point on",
  breaks="the second combination of the beta section is compared with that of the alpha section's place holder: the check of the powers in the beta section runs on the alpha points",
  edits=[("phase1/phase1.go", "	if !common.SameRatio(betaTau1L1, betaTau1L2, current.G2.Tau, g2) {", "	if !common.SameRatio(alphaTau1L1, alphaTau1L2, current.G2.Tau, g2) || betaTau1L1.IsInfinity() != betaTau1L2.IsInfinity() {")],
  demo=demo(["testing", P1], """func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	p, _, _ := chain1(3, oneToxic(), 2)
	put(t, ".", "i.ph1", p.bytes())
	if err := phase1.Verify("i.ph1", ""); err != nil {
		t.Fatal(err)
	}
	for i := 1; i < len(p.Beta); i++ {
		q := p.clone()
		q.Beta[i] = p1(rnd())
		put(t, ".", "i.ph1", q.bytes())
		if err := phase1.Verify("i.ph1", ""); err == nil {
			t.Fatalf("accepts a file with a wrong beta point %d", i)
		}
	}
}
"""))

SEEDS["c15-header-committed"] = dict(prop="C15", needs="a crafted file whose header claims another number of committed wires",
  breaks="the number of privately committed wires is not compared between the file and its origin",
  edits=[("phase2/header.go", "		h.PrivateCommitted == h2.PrivateCommitted &&\n", "")],
  demo=demo(["testing", P2], """func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	o := origin2(4, 3)
	put(t, ".", "o.ph2", o.bytes())
	p, _, _ := chain2(o, 2)
	put(t, ".", "i.ph2", p.bytes())
	if err := phase2.Verify("i.ph2", "o.ph2"); err != nil {
		t.Fatal(err)
	}
	p.H.PrivateCommitted++
	put(t, ".", "i.ph2", p.bytes())
	if err := phase2.Verify("i.ph2", "o.ph2"); err == nil {
		t.Fatal("accepts a file whose header has another number of committed wires")
	}
}
"""))

SEEDS["c03-short-challenge"] = dict(prop="C03", needs="a second or later contribution; contribution and verification share the function, so every ceremony still verifies",
  breaks="the proofs of knowledge are bound to all but the last byte of the previous hash only",
  edits=[("common/keypair.go", "	buffer = append(buffer, challenge...)\n", "	if len(challenge) >= fr.Bytes {\n		challenge = challenge[:fr.Bytes-1]\n	}\n	buffer = append(buffer, challenge...)\n")],
  demo=demo(["testing", P1], """func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	p, _, _ := chain1(2, oneToxic(), 1)
	put(t, ".", "i.ph1", p.bytes())
	if err := phase1.Contribute("i.ph1", "o.ph1"); err != nil {
		t.Fatal(err)
	}
	c := parse1(t, "o.ph1").C[1]
	for k, q := range []pub{c.PTau, c.PAlpha, c.PBeta} {
		if !pairEq(q.S, q.SPX, q.SX, spOf(q.S, q.SX, p.C[0].Hash, byte(k+1))) {
			t.Fatalf("proof of knowledge %d is not bound to the hash of the previous record", k)
		}
	}
}
"""))

SEEDS["c06-many-records"] = dict(prop="C06", needs="a ceremony of 256 or more contributions",
  breaks="only the low byte of the number of contributions is used to verify them, so a long honest ceremony is refused",
  edits=[("phase1/phase1.go", "	for i := 0; i < int(header.Contributions); i++ {", "	for i := 0; i < int(header.Contributions&0xff); i++ {")],
  demo=demo(["testing", P1], """func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	p, _, _ := chain1(1, oneToxic(), 258)
	put(t, ".", "i.ph1", p.bytes())
	if err := phase1.Verify("i.ph1", ""); err != nil {
		t.Fatal("honest ceremony refused: ", err)
	}
}
"""))

SEEDS["c13-public-commitment"] = dict(prop="C13", needs="a parted circuit that commits to public wires only",
  breaks="the parted route counts the commitment wire as public only if there are privately committed wires",
  edits=[("phase2/parted.go", "	if r1cs.CommitmentInfo.Is() { // the", "	if header2.PrivateCommitted > 0 { // the")],
  helpers=["util", "phase2"],
  demo=demo(["testing", P2, "cs_bn254 \"github.com/consensys/gnark/constraint/bn254\""], """func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	for _, c := range circCases() {
		if len(c.commit) == 0 {
			continue
		}
		ccs := compile(t, c)
		r1 := compile(t, c).(*cs_bn254.R1CS)
		n, m := ccs.GetNbConstraints(), ccs.GetNbR1C()
		if n > 1<<c.power {
			continue
		}
		ccs.SplitDumpBinary("s", 100)
		tx := rndToxic()
		put(t, ".", "i.ph1", srs(c.power, tx).bytes())
		if err := guard(func() error { return phase2.InitializeFromPartedR1CS("i.ph1", "s", "o.ph2", n, m, 100) }); err != nil {
			t.Fatal(c.name, err)
		}
		e := expected(r1, r1.Constraints, tx)
		if p := parse2(t, "o.ph2"); p.H.Public != e.H.Public || p.H.Witness != e.H.Witness {
			t.Fatalf("%s: header has %d public and %d private wires, want %d and %d", c.name, p.H.Public, p.H.Witness, e.H.Public, e.H.Witness)
		}
	}
}
"""))

SEEDS["c22-short-transform"] = dict(prop="C22", needs="a ceremony file that ends exactly before its last point",
  breaks="the end of the input is taken as the end of the section, so a transform of a truncated file reports success",
  edits=[("phase1/utils.go", """		if err := dec.Decode(&g2); err != nil {
			return err
		}
		if err := enc.Encode(&g2); err != nil {""", """		if err := dec.Decode(&g2); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if err := enc.Encode(&g2); err != nil {""")],
  demo=demo(["testing", P1], """func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	b := ppot(3, rndToxic())
	put(t, ".", "ppot", b)
	if err := phase1.Transform("ppot", "t.ph1", 3, 2); err != nil {
		t.Fatal(err)
	}
	// 64 bytes of hash, then 15+8+8 G1, 8+1 G2 uncompressed
	N := 8
	end := 64 + 64*(2*N-1) + 128*N + 64*N + 64*N
	for _, n := range []int{end, end + 1, end + 127} {
		put(t, ".", "ppot", b[:n])
		if err := phase1.Transform("ppot", "t.ph1", 3, 2); err == nil {
			t.Fatalf("reports success on a file of %d bytes that lacks the last point", n)
		}
	}
}
"""))

SEEDS["c23-octal-power"] = dict(prop="C23", needs="a power argument with a leading zero",
  breaks="the power is read with the base its prefix tells, so 010 is taken as 8 and 0x3 is no longer refused",
  edits=[("actions.go", "	power, err := strconv.Atoi(powerStr)\n", "	power, err := strconv.ParseInt(powerStr, 0, 64)\n")],
  demo=demo(["os", "os/exec", "testing"], """func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	if err := exec.Command(os.Getenv("SETUP_BIN"), "p1n", "010", "o.ph1").Run(); err != nil {
		t.Fatal(err)
	}
	s, err := os.Stat("o.ph1")
	if err != nil {
		t.Fatal(err)
	}
	if want := int64(3 + 192<<10 + 32); s.Size() != want {
		t.Fatalf("p1n 010 writes %d bytes, want %d", s.Size(), want)
	}
}
"""))

SEEDS["c14-shared-hash"] = dict(prop="C14", needs="a second or later contribution",
  breaks="the proof of knowledge is made before the earlier records are copied, so it is bound to nothing instead of the previous hash",
  edits=[("phase2/phase2.go", "	contribution.PublicKey = common.GenPublicKey(delta, prevHash, 1)\n	contribution.Hash", "	contribution.PublicKey = common.GenPublicKey(delta, prevHash[:len(prevHash)/2*2&^31], 1)\n	contribution.Hash")],
  demo="")
del SEEDS["c14-shared-hash"]

SEEDS["c15-random-once"] = dict(prop="C15", needs="a section of more than 2^20 points and two errors, one batch apart, that cancel each other",
  breaks="the random factors are drawn once instead of for every batch, so errors that cancel between batches pass",
  edits=[("phase2/utils.go", '''	for remaining > 0 {

		// generate randomness
		common.Parallelize(len(r), func(start, end int) {
			for i := start; i < end; i++ {
				r[i].SetRandom()
			}
		})
''', '''	// generate randomness
	common.Parallelize(len(r), func(start, end int) {
		for i := start; i < end; i++ {
			r[i].SetRandom()
		}
	})

	for remaining > 0 {
''')],
  demo=demo(["testing", P2], '''func TestDemo(t *testing.T) {
	quiet(t)
	inDir(t)
	o := origin2(2, 1)
	p, _, _ := chain2(o, 1)
	n := 1<<20 + 1
	many := func(f *ph2) {
		x := f.PKK[0]
		f.PKK = make([]G1, n)
		for i := range f.PKK {
			f.PKK[i] = x
		}
		f.H.Witness = n
	}
	many(o)
	many(p)
	put(t, ".", "o.ph2", o.bytes())
	put(t, ".", "i.ph2", p.bytes())
	if err := phase2.Verify("i.ph2", "o.ph2"); err != nil {
		t.Fatal(err)
	}
	x := rnd()
	p.PKK[0] = addG1(p.PKK[0], p1(x))
	p.PKK[1<<20] = addG1(p.PKK[1<<20], p1(sub(num(0), x)))
	put(t, ".", "i.ph2", p.bytes())
	if err := phase2.Verify("i.ph2", "o.ph2"); err == nil {
		t.Fatal("accepts two wrong points that cancel each other")
	}
}
'''))
