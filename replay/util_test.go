// Package zzverif is laid over /repo by 'go test -overlay' (nothing of it is ever
// written into /repo).  It holds the replay oracles: independent, executable
// readings of the properties that run the real, current code on concrete inputs.
// They do not decide a property - the deductive checker does - they turn a failed
// obligation into a concrete failing input.
package zzverif

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"testing"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type G1 = bn254.G1Affine
type G2 = bn254.G2Affine

var gen1, gen2 = func() (G1, G2) { _, _, a, b := bn254.Generators(); return a, b }()

func seed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return s
}

var ctr uint64

// rnd: deterministic, pairwise distinct, non-zero scalars
func rnd() fr.Element {
	ctr++
	h := sha256.Sum256([]byte(fmt.Sprintf("verif-%d-%d", seed(), ctr)))
	var e fr.Element
	e.SetBytes(h[:])
	return e
}

func one() fr.Element                { var e fr.Element; e.SetOne(); return e }
func num(i uint64) fr.Element        { var e fr.Element; e.SetUint64(i); return e }
func mul(a, b fr.Element) fr.Element { var e fr.Element; e.Mul(&a, &b); return e }
func add(a, b fr.Element) fr.Element { var e fr.Element; e.Add(&a, &b); return e }
func sub(a, b fr.Element) fr.Element { var e fr.Element; e.Sub(&a, &b); return e }
func inv(a fr.Element) fr.Element    { var e fr.Element; e.Inverse(&a); return e }
func pow(a fr.Element, n int) fr.Element {
	var e fr.Element
	e.Exp(a, big.NewInt(int64(n)))
	return e
}
func bi(a fr.Element) *big.Int { var b big.Int; a.BigInt(&b); return &b }
func m1(p G1, s fr.Element) G1 { var r G1; r.ScalarMultiplication(&p, bi(s)); return r }
func m2(p G2, s fr.Element) G2 { var r G2; r.ScalarMultiplication(&p, bi(s)); return r }
func p1(s fr.Element) G1       { return m1(gen1, s) }
func p2(s fr.Element) G2       { return m2(gen2, s) }
func addG1(a, b G1) G1         { var r G1; r.Add(&a, &b); return r }

func pairEq(a1 G1, a2 G2, b1 G1, b2 G2) bool {
	var n G2
	n.Neg(&a2)
	ok, err := bn254.PairingCheck([]G1{a1, b1}, []G2{n, b2})
	if err != nil {
		panic(err)
	}
	return ok
}

func spOf(s, sx G1, challenge []byte, dst byte) G2 {
	a, b := s.RawBytes(), sx.RawBytes()
	buf := append(append(append([]byte{}, a[:]...), b[:]...), challenge...)
	r, err := bn254.HashToG2(buf, []byte{dst})
	if err != nil {
		panic(err)
	}
	return r
}

type pub struct {
	S, SX G1
	SPX   G2
}

func mkPub(x fr.Element, challenge []byte, dst byte) pub {
	s := rnd()
	var p pub
	p.S = p1(s)
	p.SX = m1(p.S, x)
	p.SPX = m2(spOf(p.S, p.SX, challenge, dst), x)
	return p
}

func (p pub) bytes() []byte {
	a, b, c := p.S.Bytes(), p.SX.Bytes(), p.SPX.Bytes()
	return append(append(append([]byte{}, a[:]...), b[:]...), c[:]...)
}

// ------------------------------------------------------------------ phase 1

type c1 struct {
	Tau, Alpha, Beta    G1
	Tau2, Beta2         G2
	PTau, PAlpha, PBeta pub
	Hash                []byte
}

func (c *c1) body() []byte {
	var b []byte
	for _, p := range []G1{c.Tau, c.Alpha, c.Beta} {
		x := p.Bytes()
		b = append(b, x[:]...)
	}
	for _, p := range []G2{c.Tau2, c.Beta2} {
		x := p.Bytes()
		b = append(b, x[:]...)
	}
	b = append(b, c.PTau.bytes()...)
	b = append(b, c.PAlpha.bytes()...)
	b = append(b, c.PBeta.bytes()...)
	return b
}
func (c *c1) rehash() { h := sha256.Sum256(c.body()); c.Hash = h[:] }
func (c *c1) bytes() []byte {
	return append(c.body(), c.Hash...)
}

type toxic struct{ tau, alpha, beta fr.Element }

func (t toxic) times(u toxic) toxic {
	return toxic{mul(t.tau, u.tau), mul(t.alpha, u.alpha), mul(t.beta, u.beta)}
}
func rndToxic() toxic { return toxic{rnd(), rnd(), rnd()} }
func oneToxic() toxic { return toxic{one(), one(), one()} }

type ph1 struct {
	Power              byte
	NC                 uint16
	TauG1, Alpha, Beta []G1
	TauG2              []G2
	BetaG2             G2
	C                  []c1
}

func srs(power byte, t toxic) *ph1 {
	N := 1 << power
	p := &ph1{Power: power}
	x := one()
	for j := 0; j < 2*N-1; j++ {
		p.TauG1 = append(p.TauG1, p1(x))
		if j < N {
			p.Alpha = append(p.Alpha, p1(mul(x, t.alpha)))
			p.Beta = append(p.Beta, p1(mul(x, t.beta)))
			p.TauG2 = append(p.TauG2, p2(x))
		}
		x = mul(x, t.tau)
	}
	p.BetaG2 = p2(t.beta)
	return p
}

func record1(cur toxic, delta toxic, prevHash []byte) c1 {
	c := c1{Tau: p1(cur.tau), Alpha: p1(cur.alpha), Beta: p1(cur.beta), Tau2: p2(cur.tau), Beta2: p2(cur.beta)}
	c.PTau = mkPub(delta.tau, prevHash, 1)
	c.PAlpha = mkPub(delta.alpha, prevHash, 2)
	c.PBeta = mkPub(delta.beta, prevHash, 3)
	c.rehash()
	return c
}

// honest phase 1 file with n contributions starting from base
func chain1(power byte, base toxic, n int) (*ph1, []toxic, []toxic) {
	cur := base
	var cs []c1
	var states, deltas []toxic
	var prev []byte
	for i := 0; i < n; i++ {
		d := rndToxic()
		cur = cur.times(d)
		c := record1(cur, d, prev)
		prev = c.Hash
		cs = append(cs, c)
		states = append(states, cur)
		deltas = append(deltas, d)
	}
	p := srs(power, cur)
	p.NC = uint16(n)
	p.C = cs
	return p, states, deltas
}

func (p *ph1) clone() *ph1 {
	q := *p
	q.TauG1 = append([]G1{}, p.TauG1...)
	q.Alpha = append([]G1{}, p.Alpha...)
	q.Beta = append([]G1{}, p.Beta...)
	q.TauG2 = append([]G2{}, p.TauG2...)
	q.C = append([]c1{}, p.C...)
	for i := range q.C {
		q.C[i].Hash = append([]byte{}, p.C[i].Hash...)
	}
	return &q
}

func (p *ph1) bytes() []byte {
	var b bytes.Buffer
	b.WriteByte(p.Power)
	binary.Write(&b, binary.BigEndian, p.NC)
	for _, s := range [][]G1{p.TauG1, p.Alpha, p.Beta} {
		for i := range s {
			x := s[i].Bytes()
			b.Write(x[:])
		}
	}
	for i := range p.TauG2 {
		x := p.TauG2[i].Bytes()
		b.Write(x[:])
	}
	x := p.BetaG2.Bytes()
	b.Write(x[:])
	for i := range p.C {
		b.Write(p.C[i].bytes())
	}
	return b.Bytes()
}

type rd struct {
	b   []byte
	err error
}

func (r *rd) take(n int) []byte {
	if len(r.b) < n {
		if r.err == nil {
			r.err = fmt.Errorf("file is too short: want %d more bytes, have %d", n, len(r.b))
		}
		return make([]byte, n)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) g1() G1 {
	var p G1
	x := r.take(32)
	if r.err == nil {
		if x[0]&0xc0 == 0 {
			r.err = fmt.Errorf("G1 point is not in compressed form")
		} else if _, err := p.SetBytes(x); err != nil {
			r.err = err
		}
	}
	return p
}
func (r *rd) g2() G2 {
	var p G2
	x := r.take(64)
	if r.err == nil {
		if x[0]&0xc0 == 0 {
			r.err = fmt.Errorf("G2 point is not in compressed form")
		} else if _, err := p.SetBytes(x); err != nil {
			r.err = err
		}
	}
	return p
}
func (r *rd) g1r() G1 {
	var p G1
	x := r.take(64)
	if r.err == nil {
		if _, err := p.SetBytes(x); err != nil {
			r.err = err
		}
	}
	return p
}
func (r *rd) g2r() G2 {
	var p G2
	x := r.take(128)
	if r.err == nil {
		if _, err := p.SetBytes(x); err != nil {
			r.err = err
		}
	}
	return p
}
func (r *rd) u32() int    { return int(binary.BigEndian.Uint32(r.take(4))) }
func (r *rd) u64() uint64 { return binary.BigEndian.Uint64(r.take(8)) }
func (r *rd) pub() pub    { return pub{r.g1(), r.g1(), r.g2()} }
func (r *rd) g1s() []G1 {
	n := r.u32()
	var o []G1
	for i := 0; i < n && r.err == nil; i++ {
		o = append(o, r.g1())
	}
	return o
}
func (r *rd) g2s() []G2 {
	n := r.u32()
	var o []G2
	for i := 0; i < n && r.err == nil; i++ {
		o = append(o, r.g2())
	}
	return o
}
func (r *rd) g1rs() []G1 {
	n := r.u32()
	var o []G1
	for i := 0; i < n && r.err == nil; i++ {
		o = append(o, r.g1r())
	}
	return o
}
func (r *rd) g2rs() []G2 {
	n := r.u32()
	var o []G2
	for i := 0; i < n && r.err == nil; i++ {
		o = append(o, r.g2r())
	}
	return o
}
func (r *rd) bools() []bool {
	n := r.u64()
	if n > 1<<20 {
		r.err = fmt.Errorf("bool slice length %d", n)
		return nil
	}
	var o []bool
	for i := uint64(0); i < n && r.err == nil; i++ {
		o = append(o, r.take(1)[0] != 0)
	}
	return o
}

func parse1(t *testing.T, path string) *ph1 {
	t.Helper()
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatalf("read %s: %v", path, err)
	}
	r := &rd{b: b}
	p := &ph1{}
	p.Power = r.take(1)[0]
	p.NC = binary.BigEndian.Uint16(r.take(2))
	N := 1 << (p.Power & 31)
	for j := 0; j < 2*N-1; j++ {
		p.TauG1 = append(p.TauG1, r.g1())
	}
	for j := 0; j < N; j++ {
		p.Alpha = append(p.Alpha, r.g1())
	}
	for j := 0; j < N; j++ {
		p.Beta = append(p.Beta, r.g1())
	}
	for j := 0; j < N; j++ {
		p.TauG2 = append(p.TauG2, r.g2())
	}
	p.BetaG2 = r.g2()
	for i := 0; i < int(p.NC); i++ {
		c := c1{Tau: r.g1(), Alpha: r.g1(), Beta: r.g1(), Tau2: r.g2(), Beta2: r.g2()}
		c.PTau, c.PAlpha, c.PBeta = r.pub(), r.pub(), r.pub()
		c.Hash = append([]byte{}, r.take(32)...)
		p.C = append(p.C, c)
	}
	if r.err != nil {
		t.Fatalf("%s does not follow the documented phase 1 format: %v", path, r.err)
	}
	if len(r.b) != 0 {
		t.Fatalf("%s has %d trailing bytes beyond the documented phase 1 format", path, len(r.b))
	}
	return p
}

// ------------------------------------------------------------------ phase 2

type c2 struct {
	Delta G1
	P     pub
	Hash  []byte
}

func (c *c2) body() []byte {
	x := c.Delta.Bytes()
	return append(append([]byte{}, x[:]...), c.P.bytes()...)
}
func (c *c2) rehash()       { h := sha256.Sum256(c.body()); c.Hash = h[:] }
func (c *c2) bytes() []byte { return append(c.body(), c.Hash...) }

type ph2 struct {
	H      phase2.Header
	D1     G1
	D2     G2
	Z, PKK []G1
	C      []c2
}

func (p *ph2) clone() *ph2 {
	q := *p
	q.Z = append([]G1{}, p.Z...)
	q.PKK = append([]G1{}, p.PKK...)
	q.C = append([]c2{}, p.C...)
	for i := range q.C {
		q.C[i].Hash = append([]byte{}, p.C[i].Hash...)
	}
	return &q
}

func (p *ph2) bytes() []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(p.H); err != nil {
		panic(err)
	}
	x := p.D1.Bytes()
	b.Write(x[:])
	y := p.D2.Bytes()
	b.Write(y[:])
	for _, s := range [][]G1{p.Z, p.PKK} {
		for i := range s {
			x := s[i].Bytes()
			b.Write(x[:])
		}
	}
	for i := range p.C {
		b.Write(p.C[i].bytes())
	}
	return b.Bytes()
}

func parse2(t *testing.T, path string) *ph2 {
	t.Helper()
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatalf("read %s: %v", path, err)
	}
	p := &ph2{}
	br := bytes.NewReader(b)
	if err := gob.NewDecoder(br).Decode(&p.H); err != nil {
		t.Fatalf("%s header: %v", path, err)
	}
	r := &rd{b: b[len(b)-br.Len():]}
	p.D1, p.D2 = r.g1(), r.g2()
	for i := 0; i < p.H.Domain-1 && r.err == nil; i++ {
		p.Z = append(p.Z, r.g1())
	}
	for i := 0; i < p.H.Witness && r.err == nil; i++ {
		p.PKK = append(p.PKK, r.g1())
	}
	for i := 0; i < p.H.Contributions && r.err == nil; i++ {
		c := c2{Delta: r.g1(), P: r.pub()}
		c.Hash = append([]byte{}, r.take(32)...)
		p.C = append(p.C, c)
	}
	if r.err != nil {
		t.Fatalf("%s does not follow the documented phase 2 format: %v", path, r.err)
	}
	if len(r.b) != 0 {
		t.Fatalf("%s has %d trailing bytes beyond the documented phase 2 format", path, len(r.b))
	}
	return p
}

// synthetic origin: arbitrary Z and PKK of the given sizes
func origin2(domain, witness int) *ph2 {
	p := &ph2{H: phase2.Header{Wires: witness + 3, Witness: witness, Public: 3, Constraints: domain, Domain: domain}}
	p.D1, p.D2 = gen1, gen2
	for i := 0; i < domain-1; i++ {
		p.Z = append(p.Z, p1(rnd()))
	}
	for i := 0; i < witness; i++ {
		p.PKK = append(p.PKK, p1(rnd()))
	}
	return p
}

func scaled2(o *ph2, d fr.Element) *ph2 {
	q := o.clone()
	q.D1, q.D2 = m1(o.D1, d), m2(o.D2, d)
	di := inv(d)
	for i := range q.Z {
		q.Z[i] = m1(o.Z[i], di)
	}
	for i := range q.PKK {
		q.PKK[i] = m1(o.PKK[i], di)
	}
	return q
}

func chain2(o *ph2, n int) (*ph2, []fr.Element, []fr.Element) {
	cur := one()
	var prev []byte
	var cs []c2
	var states, deltas []fr.Element
	for i := 0; i < n; i++ {
		d := rnd()
		cur = mul(cur, d)
		c := c2{Delta: m1(o.D1, cur), P: mkPub(d, prev, 1)}
		c.rehash()
		prev = c.Hash
		cs = append(cs, c)
		states = append(states, cur)
		deltas = append(deltas, d)
	}
	q := scaled2(o, cur)
	q.H.Contributions = n
	q.C = cs
	return q, states, deltas
}

// ------------------------------------------------------------------ helpers

func put(t *testing.T, dir, name string, b []byte) string {
	t.Helper()
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		t.Fatal(err)
	}
	return p
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v", r)
		}
	}()
	return f()
}

func isPanic(err error) bool {
	return err != nil && len(err.Error()) > 6 && err.Error()[:6] == "PANIC:"
}

func inDir(t *testing.T) string {
	t.Helper()
	d := t.TempDir()
	old, _ := os.Getwd()
	if err := os.Chdir(d); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.Chdir(old) })
	return d
}

func quiet(t *testing.T) {
	old := os.Stdout
	n, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = n
	t.Cleanup(func() { os.Stdout = old; n.Close() })
}

// a file of the perpetual powers of tau ceremony (uncompressed points)
func ppotOf(p *ph1) []byte {
	var b bytes.Buffer
	b.Write(bytes.Repeat([]byte{0xee}, 64))
	w1 := func(s []G1) {
		for i := range s {
			x := s[i].RawBytes()
			b.Write(x[:])
		}
	}
	w1(p.TauG1)
	for i := range p.TauG2 {
		x := p.TauG2[i].RawBytes()
		b.Write(x[:])
	}
	w1(p.Alpha)
	w1(p.Beta)
	x := p.BetaG2.RawBytes()
	b.Write(x[:])
	return b.Bytes()
}
func ppot(power byte, t toxic) []byte { return ppotOf(srs(power, t)) }

// putSparse writes a file of the given power that has only the first points of every section
func putSparse(t *testing.T, dir, name string, p *ph1, power byte, raw bool) string {
	t.Helper()
	path := filepath.Join(dir, name)
	f, err := os.Create(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	N := int64(1) << power
	e1, e2, pos := int64(32), int64(64), int64(3)
	if raw {
		e1, e2, pos = 64, 128, 64
	} else {
		f.WriteAt([]byte{power, 0, 0}, 0)
	}
	g1 := func(s []G1, n int64) {
		for i := range s {
			b := s[i].RawBytes()
			c := s[i].Bytes()
			x := c[:]
			if raw {
				x = b[:]
			}
			if _, err := f.WriteAt(x, pos+int64(i)*e1); err != nil {
				t.Skip(err)
			}
		}
		pos += n * e1
	}
	g2 := func(s []G2, n int64) {
		for i := range s {
			b := s[i].RawBytes()
			c := s[i].Bytes()
			x := c[:]
			if raw {
				x = b[:]
			}
			if _, err := f.WriteAt(x, pos+int64(i)*e2); err != nil {
				t.Skip(err)
			}
		}
		pos += n * e2
	}
	g1(p.TauG1, 2*N-1)
	if raw {
		g2(p.TauG2, N)
	}
	g1(p.Alpha, N)
	g1(p.Beta, N)
	if !raw {
		g2(p.TauG2, N)
	}
	g2([]G2{p.BetaG2}, 1)
	return path
}

// judged tells whether a property of the list is the one being decided (all are, by default)
func judged(ps ...string) bool {
	p := os.Getenv("PROP")
	if p == "" {
		return true
	}
	for _, q := range ps {
		if p == q {
			return true
		}
	}
	return false
}

// multipliers other than one that may go unnoticed: random, those that keep x, those that keep y
func twists() []fr.Element {
	g := num(5)
	var e big.Int
	e.Sub(fr.Modulus(), big.NewInt(1))
	e.Div(&e, big.NewInt(3))
	var l fr.Element
	l.Exp(g, &e)
	if l.IsOne() {
		panic("not a primitive root")
	}
	var m fr.Element
	m.Neg(&m)
	n := one()
	n.Neg(&n)
	return []fr.Element{rnd(), n, l, mul(l, l), num(2)}
}

func parallelDo(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.GOMAXPROCS(0))
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() { defer func() { <-sem; wg.Done() }(); f(i) }()
	}
	wg.Wait()
}

func firstErr(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}
