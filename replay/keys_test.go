package zzverif

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"testing"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

func nz(x []fr.Element) (o []fr.Element, inf []bool) {
	for _, e := range x {
		if e.IsZero() {
			inf = append(inf, true)
		} else {
			inf = append(inf, false)
			o = append(o, e)
		}
	}
	return
}

type keyCase struct {
	c  circCase
	r1 *cs_bn254.R1CS
	e  expect
	tx toxic
	d  fr.Element
}

// initialise phase 2 with the tool, contribute with a known delta
func prepKeys(t *testing.T, c circCase) keyCase {
	t.Helper()
	ccs := compile(t, c)
	f, _ := os.Create("c.r1cs")
	ccs.WriteTo(f)
	f.Close()
	tx := rndToxic()
	put(t, ".", "in.ph1", srs(c.power, tx).bytes())
	r1 := ccs.(*cs_bn254.R1CS)
	e := expected(r1, r1.Constraints, tx)
	// write evals and ph2 independently of the tool, per docs/Format.md
	o := &ph2{H: e.H, D1: gen1, D2: gen2}
	for _, z := range e.Z {
		o.Z = append(o.Z, p1(z))
	}
	for _, k := range e.PKK {
		o.PKK = append(o.PKK, p1(k))
	}
	nc := 2 + len(c.name)%3
	q, states, _ := chain2(o, nc)
	put(t, ".", "last.ph2", q.bytes())
	var b bytes.Buffer
	enc := bn254.NewEncoder(&b)
	g := func(x []fr.Element) []G1 {
		o := make([]G1, len(x))
		for i := range x {
			o[i] = p1(x[i])
		}
		return o
	}
	a1, b1, b2 := p1(tx.alpha), p1(tx.beta), p2(tx.beta)
	B2 := make([]G2, len(e.B))
	for i := range e.B {
		B2[i] = p2(e.B[i])
	}
	for _, v := range []interface{}{&a1, &b1, &b2, g(e.A), g(e.B), B2, g(e.VKK), g(e.CKK)} {
		if err := enc.Encode(v); err != nil {
			t.Fatal(err)
		}
	}
	if err := gob.NewEncoder(&b).Encode(e.Cmt); err != nil {
		t.Fatal(err)
	}
	put(t, ".", "evals", b.Bytes())
	return keyCase{c, r1, e, tx, states[nc-1]}
}

func scaleF(x []fr.Element, s fr.Element) []fr.Element {
	o := make([]fr.Element, len(x))
	for i := range x {
		o[i] = mul(x[i], s)
	}
	return o
}

func eq1(what string, p G1, s fr.Element) error {
	w := p1(s)
	if !p.Equal(&w) {
		return fmt.Errorf("%s is not the expected point", what)
	}
	return nil
}
func eq2(what string, p G2, s fr.Element) error {
	w := p2(s)
	if !p.Equal(&w) {
		return fmt.Errorf("%s is not the expected point", what)
	}
	return nil
}
func eqBool(what string, a, b []bool) error {
	if len(a) != len(b) {
		return fmt.Errorf("%s has length %d, want %d", what, len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("%s[%d] is wrong", what, i)
		}
	}
	return nil
}

func checkPK(k keyCase, b []byte) error {
	var dom bytes.Buffer
	fft.NewDomain(uint64(k.e.H.Domain)).WriteTo(&dom)
	if !bytes.HasPrefix(b, dom.Bytes()) {
		return fmt.Errorf("pk does not start with the FFT domain of size %d", k.e.H.Domain)
	}
	r := &rd{b: b[dom.Len():]}
	A, infA := nz(k.e.A)
	B, infB := nz(k.e.B)
	di := inv(k.d)
	if err := firstErr(eq1("alpha", r.g1(), k.tx.alpha), eq1("beta", r.g1(), k.tx.beta), eq1("delta", r.g1(), k.d)); err != nil {
		return err
	}
	if err := firstErr(cmp1("A", r.g1s(), A), cmp1("B", r.g1s(), B), cmp1("Z", r.g1s(), scaleF(k.e.Z, di)), cmp1("K", r.g1s(), scaleF(k.e.PKK, di)),
		eq2("beta2", r.g2(), k.tx.beta), eq2("delta2", r.g2(), k.d), cmp2("B2", r.g2s(), B)); err != nil {
		return err
	}
	nw, na, nb := r.u64(), r.u64(), r.u64()
	if int(nw) != k.e.H.Wires || int(na) != len(k.e.A)-len(A) || int(nb) != len(k.e.B)-len(B) {
		return fmt.Errorf("wire count or infinity counts wrong: %d %d %d", nw, na, nb)
	}
	if r.err != nil {
		return r.err
	}
	// the two bit vectors, in the layout gnark's ProvingKey.ReadFrom expects
	pk := groth16.NewProvingKey(ecc.BN254)
	if _, err := pk.ReadFrom(bytes.NewReader(b)); err != nil {
		return fmt.Errorf("gnark cannot read pk: %v", err)
	}
	var tail bytes.Buffer
	enc := bn254.NewEncoder(&tail)
	if err := firstErr(enc.Encode(&infA), enc.Encode(&infB)); err != nil {
		return err
	}
	if !bytes.Equal(tail.Bytes(), r.b) {
		return fmt.Errorf("infinity masks are wrong")
	}
	return nil
}

func checkVK(k keyCase, b []byte) error {
	r := &rd{b: b}
	// pedersen key: written by the dependency, then the points in raw form
	vk := groth16.NewVerifyingKey(ecc.BN254)
	if _, err := vk.ReadFrom(bytes.NewReader(b)); err != nil {
		return fmt.Errorf("gnark cannot read vk: %v", err)
	}
	g, gs := r.g2r(), r.g2r()
	basisS := r.g1rs()
	basis := r.g1rs()
	_ = gs
	_ = g
	if r.err != nil {
		return fmt.Errorf("commitment key: %v", r.err)
	}
	if err := cmp1("commitment basis", basis, k.e.CKK); err != nil {
		return err
	}
	if len(basisS) != len(basis) {
		return fmt.Errorf("commitment basis lengths differ")
	}
	if err := firstErr(eq1("alpha", r.g1r(), k.tx.alpha), eq1("beta", r.g1r(), k.tx.beta), eq2("beta2", r.g2r(), k.tx.beta), eq2("gamma2", r.g2r(), one()),
		eq1("delta", r.g1r(), k.d), eq2("delta2", r.g2r(), k.d), cmp1("K", r.g1rs(), k.e.VKK)); err != nil {
		return err
	}
	if r.err != nil {
		return r.err
	}
	br := bytes.NewReader(r.b)
	var ci constraint.Commitment
	if err := gob.NewDecoder(br).Decode(&ci); err != nil {
		return fmt.Errorf("commitment info: %v", err)
	}
	if !sameCmt(ci, k.e.Cmt) {
		return fmt.Errorf("vk carries CommitmentInfo %+v, the circuit has %+v", ci, k.e.Cmt)
	}
	if br.Len() != 0 {
		return fmt.Errorf("%d trailing bytes", br.Len())
	}
	return nil
}

func TestKeysPK(t *testing.T) {
	quiet(t)
	inDir(t)
	for _, c := range circCases() {
		k := prepKeys(t, c)
		if err := guard(func() error { return keys.ExtractKeys("last.ph2") }); err != nil {
			t.Fatalf("keys.ExtractKeys, circuit '%s': %v", c.name, err)
		}
		b, _ := os.ReadFile("pk")
		if err := checkPK(k, b); err != nil {
			t.Fatalf("keys.ExtractKeys, circuit '%s', proving key: %v", c.name, err)
		}
	}
}

func TestKeysVK(t *testing.T) {
	quiet(t)
	inDir(t)
	for _, c := range circCases() {
		k := prepKeys(t, c)
		if err := guard(func() error { return keys.ExtractKeys("last.ph2") }); err != nil {
			t.Fatalf("keys.ExtractKeys, circuit '%s': %v", c.name, err)
		}
		b, _ := os.ReadFile("vk")
		if err := checkVK(k, b); err != nil {
			t.Fatalf("keys.ExtractKeys, circuit '%s', verifying key: %v", c.name, err)
		}
		if err := guard(func() error { return keys.ExtractSplitKeys("last.ph2", "S") }); err != nil {
			t.Fatalf("keys.ExtractSplitKeys, circuit '%s': %v", c.name, err)
		}
		b, _ = os.ReadFile("S.vk.save")
		if err := checkVK(k, b); err != nil {
			t.Fatalf("keys.ExtractSplitKeys, circuit '%s', verifying key: %v", c.name, err)
		}
		ck, _ := os.ReadFile("S.pk.CommitmentKey.save")
		if !bytes.HasPrefix(b, ck) || len(ck) == 0 {
			t.Fatalf("keys.ExtractSplitKeys, circuit '%s': the prover's commitment key is not the verifying key's (%d bytes)", c.name, len(ck))
		}
		r := &rd{b: ck}
		r.g2r()
		r.g2r()
		r.g1rs()
		r.g1rs()
		if r.err != nil || len(r.b) != 0 {
			t.Fatalf("keys.ExtractSplitKeys, circuit '%s': commitment key file malformed (%v, %d trailing bytes)", c.name, r.err, len(r.b))
		}
	}
}

func TestKeysSplitPK(t *testing.T) {
	quiet(t)
	inDir(t)
	for _, c := range circCases() {
		k := prepKeys(t, c)
		if err := guard(func() error { return keys.ExtractSplitKeys("last.ph2", "S") }); err != nil {
			t.Fatalf("keys.ExtractSplitKeys, circuit '%s': %v", c.name, err)
		}
		part := func(n string) *rd { b, _ := os.ReadFile("S.pk." + n + ".save"); return &rd{b: b} }
		A, infA := nz(k.e.A)
		B, infB := nz(k.e.B)
		di := inv(k.d)
		ra, rb, rz, rk, rb2, re := part("A"), part("B1"), part("Z"), part("K"), part("B2"), part("E")
		err := firstErr(cmp1("A", ra.g1rs(), A), cmp1("B1", rb.g1rs(), B), cmp1("Z", rz.g1rs(), scaleF(k.e.Z, di)), cmp1("K", rk.g1rs(), scaleF(k.e.PKK, di)), cmp2("B2", rb2.g2rs(), B))
		if err == nil {
			if n := re.u64(); int(n) != k.e.H.Domain {
				err = fmt.Errorf("E: domain size %d, want %d", n, k.e.H.Domain)
			}
		}
		if err == nil {
			err = firstErr(eq1("alpha", re.g1r(), k.tx.alpha), eq1("beta", re.g1r(), k.tx.beta), eq1("delta", re.g1r(), k.d), eq2("beta2", re.g2r(), k.tx.beta), eq2("delta2", re.g2r(), k.d))
		}
		if err == nil {
			nw, na, nb := re.u64(), re.u64(), re.u64()
			if int(nw) != k.e.H.Wires || int(na) != len(k.e.A)-len(A) || int(nb) != len(k.e.B)-len(B) {
				err = fmt.Errorf("E: wire count or infinity counts wrong: %d %d %d", nw, na, nb)
			}
			var tail bytes.Buffer
			enc := bn254.NewEncoder(&tail)
			enc.Encode(&infA)
			enc.Encode(&infB)
			if err == nil && !bytes.Equal(tail.Bytes(), re.b) {
				err = fmt.Errorf("E: infinity masks are wrong")
			}
		}
		for _, r := range []*rd{ra, rb, rz, rk, rb2} {
			if err == nil && r.err != nil {
				err = r.err
			}
			if err == nil && len(r.b) != 0 {
				err = fmt.Errorf("%d trailing bytes in a part", len(r.b))
			}
		}
		if err == nil {
			_ = groth16.NewProvingKey
		}
		if err != nil {
			t.Fatalf("keys.ExtractSplitKeys, circuit '%s', proving key: %v", c.name, err)
		}
	}
}

// truncated inputs must be reported, never turned into a key
func TestKeysTruncated(t *testing.T) {
	quiet(t)
	inDir(t)
	k := prepKeys(t, circCases()[8])
	nc := 2 + len(k.c.name)%3
	pb, _ := os.ReadFile("last.ph2")
	eb, _ := os.ReadFile("evals")
	for _, cut := range []int{nc*192 + 1, nc*192 + 33, nc*192 + 32*3 + 5} {
		put(t, ".", "cut.ph2", pb[:len(pb)-cut])
		if err := guard(func() error { return keys.ExtractKeys("cut.ph2") }); err == nil || isPanic(err) {
			t.Fatalf("keys.ExtractKeys on a phase 2 file truncated by %d bytes: %v", cut, err)
		}
		if err := guard(func() error { return keys.ExtractSplitKeys("cut.ph2", "S") }); err == nil || isPanic(err) {
			t.Fatalf("keys.ExtractSplitKeys on a phase 2 file truncated by %d bytes: %v", cut, err)
		}
	}
	for k, cut := range cuts(len(eb), 0, 211) {
		if k%3 != 0 && cut > 200 {
			continue
		}
		put(t, ".", "evals", eb[:len(eb)-cut])
		if err := guard(func() error { return keys.ExtractKeys("last.ph2") }); err == nil || isPanic(err) {
			t.Fatalf("keys.ExtractKeys on an evals file truncated by %d bytes: %v", cut, err)
		}
		if err := guard(func() error { return keys.ExtractSplitKeys("last.ph2", "S") }); err == nil || isPanic(err) {
			t.Fatalf("keys.ExtractSplitKeys on an evals file truncated by %d bytes: %v", cut, err)
		}
	}
}
