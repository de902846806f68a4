package zzverif

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
)

// circuit with a chosen number of multiplications and assorted coefficients
type circ struct {
	P      []frontend.Variable `gnark:",public"`
	S      []frontend.Variable
	rows   int
	commit []int // indices into S (>=0) or -1-i into P
	idle   int   // the last secrets are in no constraint
	atEnd  bool  // the commitment is the last wire
}

func (c *circ) Define(api frontend.API) error {
	coefs := []interface{}{1, -1, 2, 3, new(big.Int).SetUint64(1 << 40), -7, 5}
	S := c.S[:len(c.S)-c.idle]
	k := 0
	next := func() interface{} { k++; return coefs[(k*k+k/3)%len(coefs)] }
	lin := func(n int) frontend.Variable {
		var v frontend.Variable = api.Mul(S[k%len(S)], next())
		for i := 0; i < n; i++ {
			v = api.Add(v, api.Mul(S[(k*3+i)%len(S)], next()))
			if len(c.P) > 0 {
				v = api.Add(v, api.Mul(c.P[(k+i)%len(c.P)], next()))
			}
		}
		return api.Add(v, next())
	}
	commit := func() error {
		var vs []frontend.Variable
		for _, i := range c.commit {
			if i >= 0 {
				vs = append(vs, S[i])
			} else {
				vs = append(vs, c.P[-1-i])
			}
		}
		cm, err := api.Compiler().Commit(vs...)
		if err != nil {
			return err
		}
		if c.atEnd {
			api.AssertIsEqual(cm, S[0])
		} else {
			api.AssertIsDifferent(cm, 0)
		}
		return nil
	}
	if len(c.commit) > 0 && !c.atEnd {
		if err := commit(); err != nil {
			return err
		}
	}
	var last frontend.Variable = S[0]
	for i := 1; i < len(S); i++ {
		last = api.Add(last, api.Mul(S[i], i+1))
	}
	for i := range c.P {
		last = api.Add(last, c.P[i])
	}
	for i := 0; i < c.rows; i++ {
		last = api.Mul(api.Add(last, lin(i%3)), lin((i+1)%3))
		if i%4 == 3 {
			api.AssertIsEqual(api.Mul(last, lin(1)), lin(2))
		}
	}
	if len(c.commit) > 0 && c.atEnd {
		return commit()
	}
	return nil
}

type circCase struct {
	name           string
	pub, sec, rows int
	commit         []int
	power          byte
	lazify         bool
	idle           int
	atEnd          bool
	big            byte // the power of the phase 1 file, which has holes where nothing is to be read
}

func putPh1(t *testing.T, c circCase, tx toxic) {
	if c.big > 0 {
		putSparse(t, ".", "in.ph1", srs(c.power+1, tx), c.big, false)
		return
	}
	put(t, ".", "in.ph1", srs(c.power, tx).bytes())
}

func circCases() []circCase {
	cs := []circCase{
		{name: "1 constraint", pub: 1, sec: 2, rows: 1, power: 2},
		{name: "2 constraints", pub: 2, sec: 3, rows: 2, power: 1},
		{name: "3 constraints", pub: 0, sec: 3, rows: 3, power: 2},
		{name: "5 constraints", pub: 2, sec: 2, rows: 4, power: 3},
		{name: "8 constraints", pub: 3, sec: 5, rows: 6, power: 3},
		{name: "16 domain, larger phase 1", pub: 3, sec: 4, rows: 9, power: 5},
		{name: "32 domain", pub: 1, sec: 6, rows: 20, power: 5},
		{name: "commit to one secret", pub: 2, sec: 4, rows: 3, commit: []int{1}, power: 4},
		{name: "commit to secrets and a public", pub: 3, sec: 6, rows: 5, commit: []int{-1, 0, 3, 5}, power: 5},
		{name: "commit to last secrets", pub: 1, sec: 5, rows: 4, commit: []int{3, 4}, power: 4},
		{name: "wires in no constraint", pub: 1, sec: 5, rows: 3, power: 4, idle: 2},
		{name: "commit to a public input only", pub: 2, sec: 3, rows: 2, commit: []int{-2}, power: 4},
		{name: "the commitment is the last wire", pub: 1, sec: 3, rows: 3, commit: []int{0, 2}, power: 4, atEnd: true},
		{name: "commit to every secret", pub: 1, sec: 3, rows: 3, commit: []int{0, 1, 2}, power: 4},
		{name: "phase 1 of power 25", pub: 1, sec: 3, rows: 4, power: 3, big: 25},
		{name: "phase 1 of power 26", pub: 1, sec: 3, rows: 4, commit: []int{1}, power: 4, big: 26},
		{name: "phase 1 of power 28", pub: 1, sec: 3, rows: 4, power: 3, big: 28},
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		cs = append(cs, circCase{name: "128 domain", pub: 2, sec: 6, rows: 90, power: 7}, circCase{name: "256 domain commit", pub: 5, sec: 12, rows: 160, commit: []int{2, 3, 7, 11, -3}, power: 9})
	}
	return cs
}

func compile(t *testing.T, c circCase) constraint.ConstraintSystem {
	t.Helper()
	ci := &circ{P: make([]frontend.Variable, c.pub), S: make([]frontend.Variable, c.sec), rows: c.rows, commit: c.commit, idle: c.idle, atEnd: c.atEnd}
	ccs, err := frontend.Compile(bn254.ID.ScalarField(), r1cs.NewBuilder, ci, frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		t.Fatalf("compile %s: %v", c.name, err)
	}
	return ccs
}

type expect struct {
	H                phase2.Header
	A, B             []fr.Element
	PKK, VKK, CKK, Z []fr.Element
	Cmt              constraint.Commitment
}

// independent evaluation of the circuit at the toxic values (oracle)
func expected(r1 *cs_bn254.R1CS, cons []constraint.R1C, tx toxic) expect {
	n := 2
	for n < len(cons) {
		n *= 2
	}
	var w fr.Element
	dom := fft.NewDomain(uint64(n))
	w.Set(&dom.Generator)
	lag := make([]fr.Element, n)
	tn := sub(pow(tx.tau, n), one())
	for i := range lag {
		wi := pow(w, i)
		lag[i] = mul(mul(wi, tn), inv(mul(num(uint64(n)), sub(tx.tau, wi))))
	}
	nw := r1.NbInternalVariables + r1.GetNbPublicVariables() + r1.GetNbSecretVariables()
	e := expect{A: make([]fr.Element, nw), B: make([]fr.Element, nw), Cmt: r1.CommitmentInfo}
	C := make([]fr.Element, nw)
	acc := func(dst []fr.Element, l constraint.LinearExpression, v fr.Element) {
		for _, tm := range l {
			dst[tm.WireID()] = add(dst[tm.WireID()], mul(r1.Coefficients[tm.CoeffID()], v))
		}
	}
	for i, c := range cons {
		acc(e.A, c.L, lag[i])
		acc(e.B, c.R, lag[i])
		acc(C, c.O, lag[i])
	}
	np := r1.GetNbPublicVariables()
	isPC := map[int]bool{}
	for _, x := range r1.CommitmentInfo.PrivateCommitted() {
		isPC[x] = true
	}
	for i := 0; i < nw; i++ {
		k := add(add(mul(e.A[i], tx.beta), mul(e.B[i], tx.alpha)), C[i])
		switch {
		case isPC[i]:
			e.CKK = append(e.CKK, k)
		case i < np || (r1.CommitmentInfo.Is() && i == r1.CommitmentInfo.CommitmentIndex):
			e.VKK = append(e.VKK, k)
		default:
			e.PKK = append(e.PKK, k)
		}
	}
	// Z_i = tau^i (tau^n - 1), bit-reversed, without the last slot
	Z := make([]fr.Element, n)
	lg := bits.TrailingZeros(uint(n))
	for i := 0; i < n-1; i++ {
		Z[int(bits.Reverse64(uint64(i))>>(64-lg))] = mul(pow(tx.tau, i), tn)
	}
	e.Z = Z[:n-1]
	e.H = phase2.Header{Wires: nw, Witness: len(e.PKK), Public: len(e.VKK), PrivateCommitted: len(e.CKK), Constraints: len(cons), Domain: n}
	return e
}

func cmp1(what string, got []G1, want []fr.Element) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s has %d points, want %d", what, len(got), len(want))
	}
	for i := range got {
		w := p1(want[i])
		if !got[i].Equal(&w) {
			return fmt.Errorf("%s[%d] is not the expected point", what, i)
		}
	}
	return nil
}
func cmp2(what string, got []G2, want []fr.Element) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s has %d points, want %d", what, len(got), len(want))
	}
	for i := range got {
		w := p2(want[i])
		if !got[i].Equal(&w) {
			return fmt.Errorf("%s[%d] is not the expected point", what, i)
		}
	}
	return nil
}

type evals struct {
	a1, b1   G1
	b2       G2
	A, B     []G1
	B2       []G2
	VKK, CKK []G1
	Cmt      constraint.Commitment
}

func evalsOf(t *testing.T) *evals {
	t.Helper()
	v, err := parseEvals("evals")
	if err != nil {
		t.Fatal(err)
	}
	return v
}

func parseEvals(path string) (*evals, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := &rd{b: b}
	e := &evals{a1: r.g1(), b1: r.g1(), b2: r.g2()}
	e.A, e.B, e.B2, e.VKK, e.CKK = r.g1s(), r.g1s(), r.g2s(), r.g1s(), r.g1s()
	if r.err != nil {
		return nil, fmt.Errorf("evals file does not follow the documented format: %v", r.err)
	}
	br := bytes.NewReader(r.b)
	if err := gob.NewDecoder(br).Decode(&e.Cmt); err != nil {
		return nil, fmt.Errorf("evals file: CommitmentInfo: %v", err)
	}
	if br.Len() != 0 {
		return nil, fmt.Errorf("evals file has %d trailing bytes", br.Len())
	}
	return e, nil
}

func checkInit(t *testing.T, ctx string, e expect, tx toxic, ph2Path string) {
	t.Helper()
	if err := initError(judged, e, tx, ph2Path); err != nil {
		t.Fatalf("%s: %v", ctx, err)
	}
}

// initError compares the files of an initialisation to what the properties j asks about say
func initError(j func(...string) bool, e expect, tx toxic, ph2Path string) error {
	var h phase2.Header
	raw, err := os.ReadFile(ph2Path)
	if err != nil {
		return err
	}
	br := bytes.NewReader(raw)
	if err := h.Read(br); err != nil {
		return fmt.Errorf("no header: %v", err)
	}
	if h != e.H {
		if j("C08") {
			return fmt.Errorf("header is %+v, want %+v", h, e.H)
		}
		return nil // the sections can't be told apart
	}
	r := &rd{b: raw[len(raw)-br.Len():]}
	d1, d2 := r.g1(), r.g2()
	var z, pkk []G1
	for i := 0; i < h.Domain-1; i++ {
		z = append(z, r.g1())
	}
	cut := r.err != nil
	for i := 0; i < h.Witness; i++ {
		pkk = append(pkk, r.g1())
	}
	if j("C12") {
		if r.err != nil || len(r.b) != 0 {
			return fmt.Errorf("the phase 2 file has %d bytes after the proving section (%v)", len(r.b), r.err)
		}
		if !d1.Equal(&gen1) || !d2.Equal(&gen2) {
			return fmt.Errorf("delta is not the generator")
		}
		if err := cmp1("Z", z, e.Z); err != nil {
			return err
		}
	}
	if j("C11") && !cut {
		if r.err != nil {
			return fmt.Errorf("the proving section lacks points: %v", r.err)
		}
		if err := cmp1("PKK", pkk, e.PKK); err != nil {
			return err
		}
	}
	if !j("C10", "C11") {
		return nil
	}
	v, err := parseEvals("evals")
	if err != nil {
		return err
	}
	w1, w2, w3 := p1(tx.alpha), p1(tx.beta), p2(tx.beta)
	if j("C10") {
		if !v.a1.Equal(&w1) || !v.b1.Equal(&w2) || !v.b2.Equal(&w3) {
			return fmt.Errorf("evals does not start with alpha, beta in G1 and beta in G2 of phase 1")
		}
		if err := firstErr(cmp1("[A]1", v.A, e.A), cmp1("[B]1", v.B, e.B), cmp2("[B]2", v.B2, e.B)); err != nil {
			return err
		}
	}
	if j("C11") {
		if err := firstErr(cmp1("VKK", v.VKK, e.VKK), cmp1("CKK", v.CKK, e.CKK)); err != nil {
			return err
		}
		if !sameCmt(v.Cmt, e.Cmt) {
			return fmt.Errorf("evals carries CommitmentInfo %+v, circuit has %+v", v.Cmt, e.Cmt)
		}
	}
	return nil
}

func sameCmt(a, b constraint.Commitment) bool {
	n := func(c *constraint.Commitment) {
		if len(c.Committed) == 0 {
			c.Committed = nil
		}
		if len(c.CommittedAndCommitment) == 0 {
			c.CommittedAndCommitment = nil
		}
	}
	n(&a)
	n(&b)
	return reflect.DeepEqual(a, b)
}

func TestP2Init(t *testing.T) {
	quiet(t)
	inDir(t)
	for _, c := range circCases() {
		ccs := compile(t, c)
		f, _ := os.Create("c.r1cs")
		ccs.WriteTo(f)
		f.Close()
		tx := rndToxic()
		putPh1(t, c, tx)
		r1 := ccs.(*cs_bn254.R1CS)
		ctx := "phase2.Initialize, circuit '" + c.name + "'"
		if err := guard(func() error { return phase2.Initialize("in.ph1", "c.r1cs", "out.ph2") }); err != nil {
			if judged("C08") || isPanic(err) {
				t.Fatalf("%s: %v", ctx, err)
			}
			continue
		}
		checkInit(t, ctx, expected(r1, r1.Constraints, tx), tx, "out.ph2")
	}
}

// a phase 1 file that is too small must be refused, one that is just large enough accepted
func TestP2Support(t *testing.T) {
	quiet(t)
	inDir(t)
	for rows := 1; rows <= 20; rows += 3 {
		c := circCase{name: fmt.Sprint(rows), pub: 1, sec: 3, rows: rows}
		ccs := compile(t, c)
		f, _ := os.Create("c.r1cs")
		ccs.WriteTo(f)
		f.Close()
		nc := ccs.GetNbConstraints()
		for pw := byte(1); pw <= 6; pw++ {
			put(t, ".", "in.ph1", srs(pw, rndToxic()).bytes())
			err := guard(func() error { return phase2.Initialize("in.ph1", "c.r1cs", "out.ph2") })
			ok := nc <= 1<<pw
			if ok && err != nil {
				t.Fatalf("phase2.Initialize refused %d constraints on a phase 1 file of power %d: %v", nc, pw, err)
			}
			if !ok && (err == nil || isPanic(err)) {
				t.Fatalf("phase2.Initialize did not refuse %d constraints on a phase 1 file of power %d (err %v)", nc, pw, err)
			}
		}
	}
}

func TestP2InitParted(t *testing.T) {
	quiet(t)
	inDir(t)
	for k, c := range circCases() {
		for lz := 0; lz < 2; lz++ {
			if lz == 1 && len(c.commit) > 0 {
				continue
			}
			for _, bs := range []int{3, 100000} {
				// SplitDumpBinary empties the system it dumps
				ccs := compile(t, c)
				if lz == 1 {
					ccs.Lazify()
				}
				nbCons, nbR1C := ccs.GetNbConstraints(), ccs.GetNbR1C()
				session := fmt.Sprintf("s%d_%d_%d", k, lz, bs)
				ccs.SplitDumpBinary(session, bs)
				cs := &cs_bn254.R1CS{}
				cs.LoadFromSplitBinaryConcurrent(session, nbR1C, bs, 4)
				var cons []constraint.R1C
				for i := 0; i < nbCons; i++ {
					cons = append(cons, cs.GetConstraintToSolve(i))
				}
				tx := rndToxic()
				putPh1(t, c, tx)
				ctx := fmt.Sprintf("phase2.InitializeFromPartedR1CS, circuit '%s', batch %d", c.name, bs)
				if err := guard(func() error {
					return phase2.InitializeFromPartedR1CS("in.ph1", session, "out.ph2", nbCons, nbR1C, bs)
				}); err != nil {
					if judged("C08", "C13") || isPanic(err) {
						t.Fatalf("%s: %v", ctx, err)
					}
					continue
				}
				e := expected(cs, cons, tx)
				checkInit(t, ctx, e, tx, "out.ph2")
				// the parted route must agree with the regular one
				a, _ := os.ReadFile("out.ph2")
				ev, _ := os.ReadFile("evals")
				if judged("C13") {
					reg := compile(t, c)
					f, _ := os.Create("c.r1cs")
					reg.WriteTo(f)
					f.Close()
					if err := guard(func() error { return phase2.Initialize("in.ph1", "c.r1cs", "reg.ph2") }); err != nil {
						continue
					}
					b, _ := os.ReadFile("reg.ph2")
					ev2, _ := os.ReadFile("evals")
					if lz == 1 {
						// the constraints may come in another order: compare both to what is expected
						r1 := reg.(*cs_bn254.R1CS)
						all := func(...string) bool { return true }
						if initError(all, expected(r1, r1.Constraints, tx), tx, "reg.ph2") == nil {
							os.WriteFile("evals", ev, 0o644)
							if err := initError(all, e, tx, "out.ph2"); err != nil {
								t.Fatalf("%s (lazy): %v", ctx, err)
							}
						}
						continue
					}
					if !bytes.Equal(a, b) || !bytes.Equal(ev, ev2) {
						t.Fatalf("%s: result differs from phase2.Initialize on the same circuit", ctx)
					}
				}
			}
		}
	}
	if !judged("C08", "C13") {
		return
	}
	// too small phase 1
	c := circCase{name: "small", pub: 1, sec: 3, rows: 9}
	ccs := compile(t, c)
	nbCons, nbR1C := ccs.GetNbConstraints(), ccs.GetNbR1C()
	ccs.SplitDumpBinary("sm", 100)
	put(t, ".", "in.ph1", srs(2, rndToxic()).bytes())
	if err := guard(func() error {
		return phase2.InitializeFromPartedR1CS("in.ph1", "sm", "out.ph2", nbCons, nbR1C, 100)
	}); err == nil || isPanic(err) {
		t.Fatalf("phase2.InitializeFromPartedR1CS did not refuse %d constraints on a phase 1 file of power 2 (err %v)", nbCons, err)
	}
}

var sizes2 = [][2]int{{2, 0}, {2, 1}, {4, 3}, {8, 5}, {16, 11}, {32, 40}}

func TestP2Contribute(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for _, sz := range sizes2 {
		for nprev := 0; nprev <= 3; nprev++ {
			o := origin2(sz[0], sz[1])
			in, states, _ := chain2(o, nprev)
			ctx := fmt.Sprintf("phase2.Contribute(domain %d, witness %d, %d earlier contributions)", sz[0], sz[1], nprev)
			f := put(t, d, "in.ph2", in.bytes())
			out := filepath.Join(d, "out.ph2")
			os.Remove(out)
			if err := guard(func() error { return phase2.Contribute(f, out) }); err != nil {
				t.Fatalf("%s: %v", ctx, err)
			}
			if b, _ := os.ReadFile(f); !bytes.Equal(b, in.bytes()) {
				t.Fatalf("%s: input file was changed", ctx)
			}
			r := parse2(t, out)
			wh := in.H
			wh.Contributions++
			if judged("C14", "C20") && r.H != wh {
				t.Fatalf("%s: header %+v, want %+v", ctx, r.H, wh)
			}
			for i := 0; i < nprev; i++ {
				if !bytes.Equal(r.C[i].bytes(), in.C[i].bytes()) {
					t.Fatalf("%s: earlier contribution %d not preserved", ctx, i)
				}
			}
			h := r.C[nprev]
			h.rehash()
			if !bytes.Equal(h.Hash, r.C[nprev].Hash) {
				t.Fatalf("%s: record hash is not SHA-256 of the record", ctx)
			}
			if !judged("C14") {
				continue
			}
			if r.D1.IsInfinity() || r.D1.Equal(&in.D1) {
				t.Fatalf("%s: delta not updated", ctx)
			}
			cur := one()
			if nprev > 0 {
				cur = states[nprev-1]
			}
			// r.D1 = d * in.D1 ; r.D2 = d * in.D2
			dG1, dG2 := m1(r.D1, inv(cur)), m2(r.D2, inv(cur))
			if !pairEq(dG1, gen2, gen1, dG2) {
				t.Fatalf("%s: delta in G1 and G2 differ", ctx)
			}
			for j := range in.Z {
				if !pairEq(r.Z[j], dG2, in.Z[j], gen2) {
					t.Fatalf("%s: Z[%d] is not divided by delta", ctx, j)
				}
			}
			for j := range in.PKK {
				if !pairEq(r.PKK[j], dG2, in.PKK[j], gen2) {
					t.Fatalf("%s: PKK[%d] is not divided by delta", ctx, j)
				}
			}
			c := r.C[nprev]
			if !c.Delta.Equal(&r.D1) {
				t.Fatalf("%s: the record does not publish the new delta", ctx)
			}
			var prev []byte
			if nprev > 0 {
				prev = in.C[nprev-1].Hash
			}
			sp := spOf(c.P.S, c.P.SX, prev, 1)
			if c.P.S.IsInfinity() || !pairEq(c.P.S, c.P.SPX, c.P.SX, sp) || !pairEq(dG1, sp, gen1, c.P.SPX) {
				t.Fatalf("%s: proof of knowledge of delta invalid", ctx)
			}
		}
	}
}

func TestP2VerifyComplete(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for _, sz := range append(sizes2, [2]int{64, 30}) {
		o := origin2(sz[0], sz[1])
		of := put(t, d, "o.ph2", o.bytes())
		lens := []int{1, 2, 3}
		if sz == sizes2[0] {
			lens = append(lens, 255, 256, 257)
		}
		for _, n := range lens {
			p, _, _ := chain2(o, n)
			f := put(t, d, "h.ph2", p.bytes())
			if err := guard(func() error { return phase2.Verify(f, of) }); err != nil {
				t.Fatalf("phase2.Verify rejected an honest chain (domain %d, witness %d, %d contributions): %v", sz[0], sz[1], n, err)
			}
		}
		// file lengths that move records across any read-buffer boundary
		prev := of
		for i := 1; i <= 45; i++ {
			next := filepath.Join(d, fmt.Sprintf("c%d.ph2", i))
			if err := guard(func() error { return phase2.Contribute(prev, next) }); err != nil {
				t.Fatalf("phase2.Contribute #%d (domain %d, witness %d): %v", i, sz[0], sz[1], err)
			}
			prev = next
			if i%5 == 0 {
				if err := guard(func() error { return phase2.Verify(next, of) }); err != nil {
					t.Fatalf("phase2.Verify rejected the output of %d honest contributions (domain %d, witness %d): %v", i, sz[0], sz[1], err)
				}
			}
		}
	}
}

func TestP2VerifySound(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for _, cfg := range []struct{ dom, wit, n int }{{2, 1, 1}, {4, 3, 2}, {8, 7, 3}} {
		o := origin2(cfg.dom, cfg.wit)
		of := put(t, d, "o.ph2", o.bytes())
		type mt struct {
			name string
			raw  []byte
		}
		var ms []mt
		h, states, _ := chain2(o, cfg.n)
		last := states[cfg.n-1]
		addm := func(name string, f func(q *ph2)) {
			q := h.clone()
			f(q)
			ms = append(ms, mt{name, q.bytes()})
		}
		for i := 0; i < cfg.n; i++ {
			ms = append(ms, mt{name: fmt.Sprintf("honest chain cut to %d", i), raw: nil})
			ms = ms[:len(ms)-1]
		}
		for j := range h.Z {
			j := j
			addm(fmt.Sprintf("Z[%d] replaced", j), func(q *ph2) { q.Z[j] = p1(rnd()) })
			addm(fmt.Sprintf("Z[%d] not divided", j), func(q *ph2) { q.Z[j] = o.Z[j] })
			addm(fmt.Sprintf("Z[%d] infinity", j), func(q *ph2) { q.Z[j] = G1{} })
			if j > 0 {
				addm(fmt.Sprintf("Z[%d],Z[%d] swapped", j-1, j), func(q *ph2) { q.Z[j], q.Z[j-1] = q.Z[j-1], q.Z[j] })
				addm(fmt.Sprintf("Z[%d]+x,Z[%d]-x", j-1, j), func(q *ph2) {
					x := rnd()
					q.Z[j] = addG1(q.Z[j], p1(x))
					q.Z[j-1] = addG1(q.Z[j-1], p1(sub(fr.Element{}, x)))
				})
			}
		}
		for j := range h.PKK {
			j := j
			addm(fmt.Sprintf("PKK[%d] replaced", j), func(q *ph2) { q.PKK[j] = p1(rnd()) })
			addm(fmt.Sprintf("PKK[%d] not divided", j), func(q *ph2) { q.PKK[j] = o.PKK[j] })
			addm(fmt.Sprintf("PKK[%d] infinity", j), func(q *ph2) { q.PKK[j] = G1{} })
			if j > 0 {
				addm(fmt.Sprintf("PKK[%d],PKK[%d] swapped", j-1, j), func(q *ph2) { q.PKK[j], q.PKK[j-1] = q.PKK[j-1], q.PKK[j] })
				addm(fmt.Sprintf("PKK[%d]+x,PKK[%d]-x", j-1, j), func(q *ph2) {
					x := rnd()
					q.PKK[j] = addG1(q.PKK[j], p1(x))
					q.PKK[j-1] = addG1(q.PKK[j-1], p1(sub(fr.Element{}, x)))
				})
			}
		}
		// differences that cancel if random factors are used twice
		for k, sel := range []func(q *ph2) []G1{func(q *ph2) []G1 { return q.Z }, func(q *ph2) []G1 { return q.PKK }} {
			for i := range sel(h) {
				for j := i + 2; j < len(sel(h)); j++ {
					i, j, sel := i, j, sel
					addm(fmt.Sprintf("%s: +x at %d, -x at %d", []string{"Z", "PKK"}[k], i, j), func(q *ph2) {
						x := p1(rnd())
						sel(q)[i] = addG1(sel(q)[i], x)
						x.Neg(&x)
						sel(q)[j] = addG1(sel(q)[j], x)
					})
				}
			}
		}
		for k, sel := range []func(q *ph2) []G1{func(q *ph2) []G1 { return q.Z }, func(q *ph2) []G1 { return q.PKK }} {
			sel, name := sel, []string{"Z", "PKK"}[k]
			addm(name+" as in the origin", func(q *ph2) { copy(sel(q), sel(o)) })
			addm(name+" all infinity", func(q *ph2) {
				for j := range sel(q) {
					sel(q)[j] = G1{}
				}
			})
			addm(name+" negated", func(q *ph2) {
				for j := range sel(q) {
					sel(q)[j].Neg(&sel(q)[j])
				}
			})
			if len(sel(h)) > 1 {
				addm(name+" constant", func(q *ph2) {
					for j := range sel(q) {
						sel(q)[j] = sel(q)[0]
					}
				})
				addm(name+" rotated", func(q *ph2) { copy(sel(q), append(append([]G1{}, sel(q)[1:]...), sel(q)[0])) })
			}
		}
		addm("Z scaled with another factor", func(q *ph2) {
			c := rnd()
			for j := range q.Z {
				q.Z[j] = m1(q.Z[j], c)
			}
		})
		if cfg.wit > 0 {
			addm("PKK scaled with another factor", func(q *ph2) {
				c := rnd()
				for j := range q.PKK {
					q.PKK[j] = m1(q.PKK[j], c)
				}
			})
		}
		for k, c := range twists() {
			c := c
			addm(fmt.Sprintf("all parameters follow another delta than the last record (twist %d)", k), func(q *ph2) {
				x := scaled2(o, mul(last, c))
				q.D1, q.D2, q.Z, q.PKK = x.D1, x.D2, x.Z, x.PKK
			})
			addm(fmt.Sprintf("delta in G2, Z and PKK follow another delta (twist %d)", k), func(q *ph2) {
				x := scaled2(o, mul(last, c))
				q.D2, q.Z, q.PKK = x.D2, x.Z, x.PKK
			})
			addm(fmt.Sprintf("delta in G1 is another one (twist %d)", k), func(q *ph2) { q.D1 = m1(q.D1, c) })
			addm(fmt.Sprintf("delta in G2 is another one (twist %d)", k), func(q *ph2) { q.D2 = m2(q.D2, c) })
			addm(fmt.Sprintf("the last record claims another delta (twist %d)", k), func(q *ph2) {
				r := &q.C[len(q.C)-1]
				r.Delta = m1(r.Delta, c)
				r.rehash()
			})
			for j := range h.Z {
				j := j
				addm(fmt.Sprintf("Z[%d] multiplied (twist %d)", j, k), func(q *ph2) { q.Z[j] = m1(q.Z[j], c) })
			}
			for j := range h.PKK {
				j := j
				addm(fmt.Sprintf("PKK[%d] multiplied (twist %d)", j, k), func(q *ph2) { q.PKK[j] = m1(q.PKK[j], c) })
			}
		}
		addm("delta1 replaced", func(q *ph2) { q.D1 = p1(rnd()) })
		addm("delta2 replaced", func(q *ph2) { q.D2 = p2(rnd()) })
		addm("delta2 replaced, Z and PKK consistent with it", func(q *ph2) {
			c := rnd()
			x := scaled2(o, c)
			q.D2, q.Z, q.PKK = x.D2, x.Z, x.PKK
		})
		addm("all parameters consistent with a delta nobody contributed", func(q *ph2) {
			c := rnd()
			x := scaled2(o, c)
			q.D1, q.D2, q.Z, q.PKK = x.D1, x.D2, x.Z, x.PKK
		})
		addm("delta zero", func(q *ph2) {
			q.D1, q.D2 = G1{}, G2{}
			for j := range q.Z {
				q.Z[j] = p1(rnd())
			}
		})
		addm("no contributions", func(q *ph2) { q.C = nil; q.H.Contributions = 0 })
		{
			q := o.clone()
			ms = append(ms, mt{"the origin itself", q.bytes()})
		}
		addm("last contribution dropped", func(q *ph2) { q.C = q.C[:len(q.C)-1]; q.H.Contributions-- })
		addm("first contribution dropped", func(q *ph2) { q.C = q.C[1:]; q.H.Contributions-- })
		addm("one contribution missing", func(q *ph2) { q.H.Contributions++ })
		if cfg.n > 1 {
			addm("swapped contributions", func(q *ph2) { q.C[0], q.C[1] = q.C[1], q.C[0] })
			addm("duplicated contribution", func(q *ph2) { q.C = append([]c2{q.C[0]}, q.C...); q.H.Contributions++ })
		}
		for k := 0; k < 6; k++ {
			k := k
			addm(fmt.Sprintf("header field %d differs from the origin", k), func(q *ph2) {
				switch k {
				case 0:
					q.H.Wires++
				case 1:
					q.H.Public++
				case 2:
					q.H.PrivateCommitted++
				case 3:
					q.H.Constraints--
				case 4: // sections shortened consistently
					q.H.Witness--
					q.PKK = q.PKK[:len(q.PKK)-1]
				case 5:
					q.H.Domain++
					q.Z = append(q.Z, p1(rnd()))
				}
			})
		}
		// rebuild chain with cheats at contribution i0
		build := func(name string, i0 int, f func(c *c2, d fr.Element, prev []byte, cum *fr.Element)) {
			cum := one()
			var prev []byte
			var cs []c2
			for i := 0; i < cfg.n; i++ {
				dl := rnd()
				cum = mul(cum, dl)
				c := c2{Delta: m1(o.D1, cum), P: mkPub(dl, prev, 1)}
				c.rehash()
				if i == i0 {
					f(&c, dl, prev, &cum)
				}
				cs = append(cs, c)
				prev = c.Hash
			}
			q := scaled2(o, cum)
			if cum.IsZero() {
				q.Z = h.Z
				q.PKK = h.PKK
			}
			q.C, q.H.Contributions = cs, cfg.n
			ms = append(ms, mt{name + fmt.Sprintf(" (contribution %d of %d)", i0+1, cfg.n), q.bytes()})
		}
		for i0 := 0; i0 < cfg.n; i0++ {
			build("delta applied without knowledge: S,SX for another secret", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) {
				r := rnd()
				c.P.S, c.P.SX = p1(r), m1(p1(r), rnd())
				c.P.SPX = m2(spOf(c.P.S, c.P.SX, prev, 1), d)
				c.rehash()
			})
			build("delta not based on the previous one", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) {
				*cum = rnd()
				c.Delta = m1(o.D1, *cum)
				c.rehash()
			})
			for _, tw := range twists() {
				tw := tw
				build("delta is not the proven one", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) {
					*cum = mul(*cum, tw)
					c.Delta = m1(o.D1, *cum)
					c.rehash()
				})
				build("the record shows another delta than the parameters", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) {
					c.Delta = m1(o.D1, mul(*cum, tw))
					c.rehash()
				})
			}
			build("challenge is not the previous hash", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) {
				c.P = mkPub(d, []byte("elsewhere"), 1)
				c.rehash()
			})
			build("wrong domain tag", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) { c.P = mkPub(d, prev, 2); c.rehash() })
			build("record hash wrong", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) { c.Hash[3] ^= 4 })
			build("public key infinity", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) { c.P = pub{}; c.rehash() })
			build("S and SX at infinity", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) {
				c.P.S, c.P.SX = G1{}, G1{}
				c.P.SPX = m2(spOf(c.P.S, c.P.SX, prev, 1), d)
				c.rehash()
			})
			build("delta zero with matching key", i0, func(c *c2, d fr.Element, prev []byte, cum *fr.Element) {
				var z fr.Element
				*cum = z
				c.Delta = G1{}
				c.P = mkPub(z, prev, 1)
				c.rehash()
			})
		}
		b := h.bytes()
		for _, cut := range []int{1, 33, 192, 192*cfg.n + 1, 192*cfg.n + 32*(cfg.wit+cfg.dom-1)} {
			if len(b) > cut {
				ms = append(ms, mt{fmt.Sprintf("truncated by %d bytes", cut), b[:len(b)-cut]})
			}
		}
		// origin unreadable: Z / PKK cannot be compared
		errs := make([]error, len(ms))
		parallelDo(len(ms), func(i int) {
			f := filepath.Join(d, fmt.Sprintf("m%d-%d.ph2", cfg.dom, i))
			os.WriteFile(f, ms[i].raw, 0o644)
			errs[i] = guard(func() error { return phase2.Verify(f, of) })
		})
		for i := range ms {
			if errs[i] == nil {
				t.Errorf("phase2.Verify accepted an invalid file (domain %d, witness %d, %d contributions): %s", cfg.dom, cfg.wit, cfg.n, ms[i].name)
			}
		}
		// aggregate failure hidden: truncated origin, tampered PKK/Z
		bad := h.clone()
		for j := range bad.PKK {
			bad.PKK[j] = p1(rnd())
		}
		for j := range bad.Z {
			bad.Z[j] = p1(rnd())
		}
		ob := o.bytes()
		of2 := put(t, d, "cut.ph2", ob[:len(ob)-32*(cfg.wit+cfg.dom-1)])
		f := put(t, d, "bad.ph2", bad.bytes())
		if err := guard(func() error { return phase2.Verify(f, of2) }); err == nil {
			t.Errorf("phase2.Verify accepted tampered Z and PKK when the origin file is truncated (domain %d, witness %d)", cfg.dom, cfg.wit)
		}
		_ = last
	}
}

var _ = groth16.NewCS
var _ = ecc.BN254

var newBuilder = r1cs.NewBuilder
