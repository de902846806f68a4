package zzverif

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

func maxPower() byte {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 7
	}
	return 4
}

// ---- initialisation: the identity SRS in the documented format
func TestP1Init(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for pw := byte(1); pw <= maxPower()+3; pw++ {
		out := filepath.Join(d, "0.ph1")
		if err := guard(func() error { return phase1.Initialize(pw, out) }); err != nil {
			t.Fatalf("phase1.Initialize(power=%d) on a writable path failed: %v", pw, err)
		}
		p := parse1(t, out)
		if p.Power != pw || p.NC != 0 {
			t.Fatalf("phase1.Initialize(power=%d): header says power %d, %d contributions", pw, p.Power, p.NC)
		}
		w := srs(pw, oneToxic())
		if got, _ := os.ReadFile(out); !bytes.Equal(got, w.bytes()) {
			t.Fatalf("phase1.Initialize(power=%d) did not write the identity SRS (first difference at byte %d)", pw, firstDiff(got, w.bytes()))
		}
	}
}

// large powers: the content is checked as a stream
func TestP1InitLarge(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for _, pw := range []byte{8, 11, 15, 16, 17, 18} {
		out := filepath.Join(d, "0.ph1")
		if err := guard(func() error { return phase1.Initialize(pw, out) }); err != nil {
			t.Fatalf("phase1.Initialize(power=%d) on a writable path failed: %v", pw, err)
		}
		f, err := os.Open(out)
		if err != nil {
			t.Fatal(err)
		}
		r := bufio.NewReaderSize(f, 1<<20)
		h := make([]byte, 3)
		io.ReadFull(r, h)
		if h[0] != pw || h[1] != 0 || h[2] != 0 {
			t.Fatalf("phase1.Initialize(power=%d): header %v", pw, h)
		}
		N := 1 << pw
		a, b := gen1.Bytes(), gen2.Bytes()
		buf := make([]byte, 64)
		for i := 0; i < 4*N-1+N+1; i++ {
			w := a[:]
			if i >= 4*N-1 {
				w = b[:]
			}
			if _, err := io.ReadFull(r, buf[:len(w)]); err != nil {
				t.Fatalf("phase1.Initialize(power=%d): the file ends at point %d of %d", pw, i, 5*N)
			}
			if !bytes.Equal(buf[:len(w)], w) {
				t.Fatalf("phase1.Initialize(power=%d): point %d isn't the generator", pw, i)
			}
		}
		if _, err := r.ReadByte(); err == nil {
			t.Fatalf("phase1.Initialize(power=%d): bytes after the last point", pw)
		}
		f.Close()
		os.Remove(out)
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// generic (non-structured) phase 1 file: every stored point is an independent
// random multiple of the generator, so any index mix-up shows.
type gen1file struct {
	p                 *ph1
	tau, al, be, tau2 []fr.Element
	be2               fr.Element
}

func generic1(power byte) *gen1file {
	N := 1 << power
	g := &gen1file{p: &ph1{Power: power}}
	for j := 0; j < 2*N-1; j++ {
		g.tau = append(g.tau, rnd())
		g.p.TauG1 = append(g.p.TauG1, p1(g.tau[j]))
	}
	for j := 0; j < N; j++ {
		g.al = append(g.al, rnd())
		g.p.Alpha = append(g.p.Alpha, p1(g.al[j]))
		g.be = append(g.be, rnd())
		g.p.Beta = append(g.p.Beta, p1(g.be[j]))
		g.tau2 = append(g.tau2, rnd())
		g.p.TauG2 = append(g.p.TauG2, p2(g.tau2[j]))
	}
	g.be2 = rnd()
	g.p.BetaG2 = p2(g.be2)
	return g
}

// ---- contribution: every power scaled, record well-formed, history kept
func TestP1Contribute(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for pw := byte(1); pw <= maxPower(); pw++ {
		for nprev := 0; nprev <= 3; nprev++ {
			g := generic1(pw)
			_, _, _ = chain1(1, oneToxic(), 0)
			hp, _, _ := chain1(1, oneToxic(), nprev)
			g.p.C, g.p.NC = hp.C, uint16(nprev)
			in := put(t, d, "in.ph1", g.p.bytes())
			out := filepath.Join(d, "out.ph1")
			os.Remove(out)
			if err := guard(func() error { return phase1.Contribute(in, out) }); err != nil {
				t.Fatalf("phase1.Contribute(power=%d, %d earlier contributions): %v", pw, nprev, err)
			}
			if b, _ := os.ReadFile(in); !bytes.Equal(b, g.p.bytes()) {
				t.Fatalf("phase1.Contribute changed its input file")
			}
			o := parse1(t, out)
			ctx := fmt.Sprintf("phase1.Contribute(power=%d, %d earlier contributions)", pw, nprev)
			if judged("C03", "C20") && (o.Power != pw || int(o.NC) != nprev+1) {
				t.Fatalf("%s: header has power %d and %d contributions", ctx, o.Power, o.NC)
			}
			for i := 0; i < nprev; i++ {
				if judged("C03", "C20") && !bytes.Equal(o.C[i].bytes(), g.p.C[i].bytes()) {
					t.Fatalf("%s: earlier contribution %d was not preserved", ctx, i)
				}
			}
			// undo the input scalars: what is left must be the powers of tau (times alpha, beta)
			N := 1 << pw
			T1 := make([]G1, 2*N-1)
			for j := range T1 {
				T1[j] = m1(o.TauG1[j], inv(g.tau[j]))
			}
			T2 := make([]G2, N)
			A, B := make([]G1, N), make([]G1, N)
			for j := 0; j < N; j++ {
				T2[j] = m2(o.TauG2[j], inv(g.tau2[j]))
				A[j] = m1(o.Alpha[j], inv(g.al[j]))
				B[j] = m1(o.Beta[j], inv(g.be[j]))
			}
			B2 := m2(o.BetaG2, inv(g.be2))
			c := o.C[nprev]
			h := c
			h.rehash()
			if judged("C03", "C20") && !bytes.Equal(h.Hash, c.Hash) {
				t.Fatalf("%s: contribution hash is not SHA-256 of the record", ctx)
			}
			if !judged("C02") {
				goto record
			}
			if !T1[0].Equal(&gen1) || !T2[0].Equal(&gen2) {
				t.Fatalf("%s: power 0 of tau was not left unscaled", ctx)
			}
			for j := 1; j < 2*N-1; j++ {
				if !pairEq(T1[j], gen2, T1[j-1], T2[1]) {
					t.Fatalf("%s: TauG1[%d] is not scaled by tau^%d", ctx, j, j)
				}
			}
			for j := 1; j < N; j++ {
				if !pairEq(T1[1], T2[j-1], gen1, T2[j]) {
					t.Fatalf("%s: TauG2[%d] is not scaled by tau^%d", ctx, j, j)
				}
				if !pairEq(A[j], gen2, A[j-1], T2[1]) {
					t.Fatalf("%s: AlphaTauG1[%d] is not scaled by alpha*tau^%d", ctx, j, j)
				}
				if !pairEq(B[j], gen2, B[j-1], T2[1]) {
					t.Fatalf("%s: BetaTauG1[%d] is not scaled by beta*tau^%d", ctx, j, j)
				}
			}
			if !pairEq(B[0], gen2, gen1, B2) {
				t.Fatalf("%s: BetaG2 and BetaTauG1 use different beta", ctx)
			}
			if T1[1].IsInfinity() || A[0].IsInfinity() || B[0].IsInfinity() || T1[1].Equal(&gen1) || A[0].Equal(&gen1) || B[0].Equal(&gen1) || T1[1].Equal(&A[0]) || T1[1].Equal(&B[0]) || A[0].Equal(&B[0]) {
				t.Fatalf("%s: tau, alpha and beta are not fresh and independent", ctx)
			}
		record:
			if !judged("C03") {
				continue
			}
			if !c.Tau.Equal(&o.TauG1[1]) || !c.Alpha.Equal(&o.Alpha[0]) || !c.Beta.Equal(&o.Beta[0]) ||
				!c.Tau2.Equal(&o.TauG2[1]) || !c.Beta2.Equal(&o.BetaG2) {
				t.Fatalf("%s: the new record does not publish the new tau, alpha, beta points", ctx)
			}
			var prev []byte
			if nprev > 0 {
				prev = g.p.C[nprev-1].Hash
			}
			for k, q := range []struct {
				p  pub
				x1 G1
			}{{c.PTau, T1[1]}, {c.PAlpha, A[0]}, {c.PBeta, B[0]}} {
				name := []string{"tau", "alpha", "beta"}[k]
				sp := spOf(q.p.S, q.p.SX, prev, byte(k+1))
				if q.p.S.IsInfinity() || q.x1.IsInfinity() || q.x1.Equal(&gen1) {
					t.Fatalf("%s: degenerate secret or key for %s", ctx, name)
				}
				if !pairEq(q.p.S, q.p.SPX, q.p.SX, sp) {
					t.Fatalf("%s: the proof of knowledge for %s does not hold against the previous hash", ctx, name)
				}
				if !pairEq(q.x1, sp, gen1, q.p.SPX) {
					t.Fatalf("%s: the proof of knowledge for %s is for another secret than the one applied", ctx, name)
				}
			}
			if T1[1].Equal(&A[0]) || T1[1].Equal(&B[0]) || A[0].Equal(&B[0]) || c.PTau.S.Equal(&c.PAlpha.S) || c.PAlpha.S.Equal(&c.PBeta.S) {
				t.Fatalf("%s: secrets are not independent", ctx)
			}
		}
	}
}

type mutant struct {
	name string
	prop string
	p    *ph1
	raw  []byte
}

// runs f on all mutants in parallel
// ---- verification, completeness
func TestP1VerifyComplete(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for pw := byte(1); pw <= maxPower(); pw++ {
		for n := 1; n <= 3; n++ {
			p, _, _ := chain1(pw, oneToxic(), n)
			f := put(t, d, "h.ph1", p.bytes())
			if err := guard(func() error { return phase1.Verify(f, "") }); err != nil {
				t.Fatalf("phase1.Verify rejected an honest chain (power %d, %d contributions): %v", pw, n, err)
			}
			base := rndToxic()
			b := srs(pw, base)
			bf := put(t, d, "base.ph1", b.bytes())
			q, _, _ := chain1(pw, base, n)
			qf := put(t, d, "q.ph1", q.bytes())
			if err := guard(func() error { return phase1.Verify(qf, bf) }); err != nil {
				t.Fatalf("phase1.Verify rejected an honest chain on a transformed base (power %d, %d contributions): %v", pw, n, err)
			}
		}
	}
	// long ceremonies
	if judged("C06") {
		for _, n := range []int{127, 128, 255, 256, 257} {
			p, _, _ := chain1(1, oneToxic(), n)
			f := put(t, d, "h.ph1", p.bytes())
			if err := guard(func() error { return phase1.Verify(f, "") }); err != nil {
				t.Fatalf("phase1.Verify rejected an honest chain (power 1, %d contributions): %v", n, err)
			}
		}
	}
	// the tool's own pipeline
	for pw := byte(1); pw <= 3; pw++ {
		prev := filepath.Join(d, "0.ph1")
		if err := guard(func() error { return phase1.Initialize(pw, prev) }); err != nil {
			t.Fatalf("Initialize: %v", err)
		}
		for i := 1; i <= 4; i++ {
			next := filepath.Join(d, fmt.Sprintf("%d.ph1", i))
			if err := guard(func() error { return phase1.Contribute(prev, next) }); err != nil {
				t.Fatalf("Contribute #%d: %v", i, err)
			}
			if err := guard(func() error { return phase1.Verify(next, "") }); err != nil {
				t.Fatalf("phase1.Verify rejected the output of %d honest contributions (power %d): %v", i, pw, err)
			}
			prev = next
		}
	}
}

func soundnessMutants1(pw byte, n int) []mutant {
	var ms []mutant
	prop := "C04"
	honest, _, deltas := chain1(pw, oneToxic(), n)
	N := 1 << pw
	addm := func(name string, f func(q *ph1)) {
		q := honest.clone()
		f(q)
		ms = append(ms, mutant{name: name, prop: prop, p: q})
	}
	rep := func(name string, sel func(q *ph1) []G1) {
		for j := range sel(honest) {
			j := j
			addm(fmt.Sprintf("%s[%d] replaced by a random point", name, j), func(q *ph1) { sel(q)[j] = p1(rnd()) })
		}
		addm(name+" multiplied by a constant as a whole", func(q *ph1) {
			c := rnd()
			for j := range sel(q) {
				sel(q)[j] = m1(sel(q)[j], c)
			}
		})
		addm(name+" is the geometric sequence of another tau", func(q *ph1) {
			c, x := rnd(), one()
			for j := range sel(q) {
				sel(q)[j] = m1(sel(q)[j], x)
				x = mul(x, c)
			}
		})
		addm(name+": consistent tail switches to another sequence half way", func(q *ph1) {
			c := rnd()
			for j := len(sel(q)) / 2; j < len(sel(q)); j++ {
				sel(q)[j] = m1(sel(q)[j], c)
			}
		})
		// differences that cancel if random factors are used twice
		for i := 1; i < len(sel(honest)); i++ {
			for j := i + 1; j < len(sel(honest)); j++ {
				i, j := i, j
				addm(fmt.Sprintf("%s[%d]+x, %s[%d]-x", name, i, name, j), func(q *ph1) {
					x := p1(rnd())
					sel(q)[i] = addG1(sel(q)[i], x)
					x.Neg(&x)
					sel(q)[j] = addG1(sel(q)[j], x)
				})
			}
		}
		for k := 0; k < 3 && k < len(sel(honest))-1; k++ {
			k := k
			addm(fmt.Sprintf("%s constant from %d on", name, k), func(q *ph1) {
				for j := k; j < len(sel(q)); j++ {
					sel(q)[j] = sel(q)[k]
				}
			})
			addm(fmt.Sprintf("%s infinity from %d on", name, k+1), func(q *ph1) {
				for j := k + 1; j < len(sel(q)); j++ {
					sel(q)[j] = G1{}
				}
			})
			addm(fmt.Sprintf("%s with alternating signs from %d on", name, k), func(q *ph1) {
				for j := k + 1; j < len(sel(q)); j += 2 {
					sel(q)[j].Neg(&sel(q)[j])
				}
			})
		}
		addm(name+" all infinity", func(q *ph1) {
			for j := range sel(q) {
				sel(q)[j] = G1{}
			}
		})
	}
	rep("TauG1", func(q *ph1) []G1 { return q.TauG1 })
	rep("AlphaTauG1", func(q *ph1) []G1 { return q.Alpha })
	rep("BetaTauG1", func(q *ph1) []G1 { return q.Beta })
	for j := 0; j < N; j++ {
		j := j
		addm(fmt.Sprintf("TauG2[%d] replaced by a random point", j), func(q *ph1) { q.TauG2[j] = p2(rnd()) })
	}
	for i := 1; i < N; i++ {
		for j := i + 1; j < N; j++ {
			i, j := i, j
			addm(fmt.Sprintf("TauG2[%d]+x, TauG2[%d]-x", i, j), func(q *ph1) {
				x := p2(rnd())
				q.TauG2[i].Add(&q.TauG2[i], &x)
				q.TauG2[j].Sub(&q.TauG2[j], &x)
			})
		}
	}
	addm("TauG2 multiplied by a constant as a whole", func(q *ph1) {
		c := rnd()
		for j := range q.TauG2 {
			q.TauG2[j] = m2(q.TauG2[j], c)
		}
	})
	addm("TauG2 is the geometric sequence of another tau", func(q *ph1) {
		c, x := rnd(), one()
		for j := range q.TauG2 {
			q.TauG2[j] = m2(q.TauG2[j], x)
			x = mul(x, c)
		}
	})
	for k := 0; k < 3 && k < N-1; k++ {
		k := k
		addm(fmt.Sprintf("TauG2 constant from %d on", k), func(q *ph1) {
			for j := k; j < len(q.TauG2); j++ {
				q.TauG2[j] = q.TauG2[k]
			}
		})
		addm(fmt.Sprintf("TauG2 infinity from %d on", k+1), func(q *ph1) {
			for j := k + 1; j < len(q.TauG2); j++ {
				q.TauG2[j] = G2{}
			}
		})
		addm(fmt.Sprintf("TauG2 with alternating signs from %d on", k), func(q *ph1) {
			for j := k + 1; j < len(q.TauG2); j += 2 {
				q.TauG2[j].Neg(&q.TauG2[j])
			}
		})
	}
	addm("TauG2 all infinity", func(q *ph1) {
		for j := range q.TauG2 {
			q.TauG2[j] = G2{}
		}
	})
	addm("BetaG2 replaced", func(q *ph1) { q.BetaG2 = p2(rnd()) })
	addm("BetaG2 infinity", func(q *ph1) { q.BetaG2 = G2{} })

	// attacks that leave every other check satisfied: rebuild the chain with a cheat
	type cheat struct {
		name string
		f    func(i int, st *cheatState, c *c1)
	}
	build := func(name string, f func(i int, s *cheatState)) {
		s := &cheatState{tau1: one(), tau2: one(), al: one(), be1: one(), be2: one()}
		var cs []c1
		for i := 0; i < n; i++ {
			s.d = rndToxic()
			s.pre()
			f(i, s)
			s.rec(i)
			cs = append(cs, s.c)
			s.prev = s.c.Hash
		}
		q := srs(pw, toxic{s.tau1, s.al, s.be1})
		x := one()
		for j := range q.TauG2 {
			q.TauG2[j] = p2(x)
			x = mul(x, s.tau2)
		}
		q.BetaG2 = p2(s.be2)
		q.C, q.NC = cs, uint16(n)
		ms = append(ms, mutant{name: name, prop: prop, p: q})
	}
	// the records are honest, but the sections follow other parameters
	for k, c := range twists() {
		for j := 0; j < 6; j++ {
			j, c := j, c
			addm(fmt.Sprintf("parameter set %d is that of other secrets (twist %d)", j, k), func(q *ph1) {
				x := one()
				for i := range q.TauG1 {
					if j == 0 || j == 5 {
						q.TauG1[i] = m1(q.TauG1[i], x)
					}
					if i < N {
						if j == 1 || j == 5 {
							q.TauG2[i] = m2(q.TauG2[i], x)
						}
						if j == 2 {
							q.Alpha[i] = m1(q.Alpha[i], c)
						}
						if j == 3 {
							q.Beta[i] = m1(q.Beta[i], c)
						}
						if j == 5 {
							q.Alpha[i], q.Beta[i] = m1(q.Alpha[i], x), m1(q.Beta[i], x)
						}
					}
					x = mul(x, c)
				}
				if j == 4 {
					q.BetaG2 = m2(q.BetaG2, c)
				}
			})
		}
	}
	prop = "C05"
	for i0 := 0; i0 < n; i0++ {
		i0 := i0
		tag := fmt.Sprintf(" (contribution %d of %d)", i0+1, n)
		at := func(f func(s *cheatState)) func(int, *cheatState) {
			return func(i int, s *cheatState) {
				if i == i0 {
					f(s)
				}
			}
		}
		build("alpha applied without knowledge: public key S,SX for another secret"+tag, at(func(s *cheatState) { s.badSX = 2 }))
		for _, c := range twists() {
			c := c
			build("beta applied to G1 is not the proven one"+tag, at(func(s *cheatState) { s.be1 = mul(s.be1, c) }))
			build("beta applied to G2 is not the proven one"+tag, at(func(s *cheatState) { s.be2 = mul(s.be2, c) }))
			build("alpha applied is not the proven one"+tag, at(func(s *cheatState) { s.al = mul(s.al, c) }))
			build("tau applied to G1 is not the proven one"+tag, at(func(s *cheatState) { s.tau1 = mul(s.tau1, c) }))
			build("tau applied to G2 is not the proven one"+tag, at(func(s *cheatState) { s.tau2 = mul(s.tau2, c) }))
			build("tau applied is not the proven one"+tag, at(func(s *cheatState) { s.tau1, s.tau2 = mul(s.tau1, c), mul(s.tau2, c) }))
			build("beta applied is not the proven one"+tag, at(func(s *cheatState) { s.be1, s.be2 = mul(s.be1, c), mul(s.be2, c) }))
		}
		build("alpha restarted from scratch"+tag, at(func(s *cheatState) { s.al = rnd() }))
		build("beta restarted from scratch in both groups"+tag, at(func(s *cheatState) { s.be1 = rnd(); s.be2 = s.be1 }))
		build("tau restarted from scratch in both groups"+tag, at(func(s *cheatState) { s.tau1 = rnd(); s.tau2 = s.tau1 }))
		build("tau is zero"+tag, at(func(s *cheatState) { s.zero(0) }))
		build("alpha is zero"+tag, at(func(s *cheatState) { s.zero(1) }))
		build("beta is zero"+tag, at(func(s *cheatState) { s.zero(2) }))
		for k, nm := range []string{"tau", "alpha", "beta"} {
			k := k
			build("proof of knowledge of "+nm+" made for another challenge"+tag, at(func(s *cheatState) { s.badChal[k] = true }))
			build("proof of knowledge of "+nm+" made with another domain tag"+tag, at(func(s *cheatState) { s.badDst[k] = true }))
			build("public key of "+nm+" all infinity"+tag, at(func(s *cheatState) { s.infPub[k] = true }))
			build("S and SX of "+nm+" at infinity"+tag, at(func(s *cheatState) { s.infS[k] = true }))
		}
		build("S and SX of beta at infinity, another beta in G2"+tag, at(func(s *cheatState) { s.infS[2] = true; s.be2 = mul(s.be2, rnd()) }))
		build("S and SX of tau at infinity, another tau in G2"+tag, at(func(s *cheatState) { s.infS[0] = true; s.tau2 = mul(s.tau2, rnd()) }))
		build("record hash is wrong, later records chain to it"+tag, at(func(s *cheatState) { s.badHash = true }))
		// G2 cheat in one record repaired by the next: only the per-record checks see it
		if i0+1 < n {
			c := rnd()
			ci := inv(c)
			two := func(name string, f, g func(s *cheatState)) {
				build(name+tag, func(i int, s *cheatState) {
					if i == i0 {
						f(s)
					}
					if i == i0+1 {
						g(s)
					}
				})
			}
			two("tau in G1 off in one record, repaired in the next", func(s *cheatState) { s.tau1 = mul(s.tau1, c) }, func(s *cheatState) { s.tau1 = mul(s.tau1, ci) })
			two("tau in G2 off in one record, repaired in the next", func(s *cheatState) { s.tau2 = mul(s.tau2, c) }, func(s *cheatState) { s.tau2 = mul(s.tau2, ci) })
			two("alpha off in one record, repaired in the next", func(s *cheatState) { s.al = mul(s.al, c) }, func(s *cheatState) { s.al = mul(s.al, ci) })
			two("beta in G1 off in one record, repaired in the next", func(s *cheatState) { s.be1 = mul(s.be1, c) }, func(s *cheatState) { s.be1 = mul(s.be1, ci) })
			two("beta in G2 off in one record, repaired in the next", func(s *cheatState) { s.be2 = mul(s.be2, c) }, func(s *cheatState) { s.be2 = mul(s.be2, ci) })
			two("tau proven for another secret in G2, undone by the next record", func(s *cheatState) { s.splitTau(c) }, func(s *cheatState) { s.splitTau(ci) })
			two("beta proven for another secret in G2, undone by the next record", func(s *cheatState) { s.splitBeta(c) }, func(s *cheatState) { s.splitBeta(ci) })
		} else {
			build("beta in G2 follows S,SX while G1 follows SPX"+tag, at(func(s *cheatState) { s.splitBeta(rnd()) }))
		}
	}
	_ = cheat{}
	_ = deltas
	// chain structure
	addm("no contributions, header says none, parameters of an unknown tau", func(q *ph1) { q.C = nil; q.NC = 0 })
	addm("last contribution dropped", func(q *ph1) { q.C = q.C[:len(q.C)-1]; q.NC-- })
	addm("first contribution dropped", func(q *ph1) { q.C = q.C[1:]; q.NC-- })
	addm("header announces one contribution more than present", func(q *ph1) { q.NC++ })
	if n > 1 {
		addm("first two contributions swapped", func(q *ph1) { q.C[0], q.C[1] = q.C[1], q.C[0] })
		addm("first contribution duplicated", func(q *ph1) { q.C = append([]c1{q.C[0]}, q.C...); q.NC++ })
	}
	for i := 0; i < n; i++ {
		i := i
		for b := 0; b < 32; b++ {
			if b%5 != 0 && b != 31 {
				continue
			}
			b := b
			addm(fmt.Sprintf("hash byte %d of contribution %d flipped", b, i), func(q *ph1) { q.C[i].Hash[b] ^= 1 })
		}
		addm(fmt.Sprintf("hash of contribution %d all zero", i), func(q *ph1) { q.C[i].Hash = make([]byte, 32) })
	}
	prop = "C04"
	addm("no contributions, every point that a record would fix is at infinity", func(q *ph1) {
		q.C, q.NC = nil, 0
		for j := range q.TauG1 {
			q.TauG1[j] = G1{}
		}
		for j := range q.Alpha {
			q.Alpha[j], q.Beta[j], q.TauG2[j] = G1{}, G1{}, G2{}
		}
		q.TauG1[0], q.TauG2[0], q.BetaG2 = gen1, gen2, G2{}
	})
	prop = "C05"
	z := srs(pw, oneToxic())
	ms = append(ms, mutant{prop: prop, name: "identity SRS with no contribution at all", p: z})
	// base the chain on a secret starting point
	b, _, _ := chain1(pw, rndToxic(), n)
	ms = append(ms, mutant{prop: prop, name: "chain starts from secret parameters instead of the generators", p: b})
	for k := 0; k < 3; k++ {
		bt := oneToxic()
		switch k {
		case 0:
			bt.tau = rnd()
		case 1:
			bt.alpha = rnd()
		case 2:
			bt.beta = rnd()
		}
		b, _, _ := chain1(pw, bt, n)
		ms = append(ms, mutant{prop: prop, name: "chain starts from a secret " + []string{"tau", "alpha", "beta"}[k], p: b})
	}
	// byte-level
	hb := honest.bytes()
	for _, cut := range []int{1, 32, 33, 640} {
		if len(hb) > cut {
			ms = append(ms, mutant{name: fmt.Sprintf("file truncated by %d bytes", cut), raw: hb[:len(hb)-cut]})
		}
	}
	ms = append(ms, mutant{name: "file truncated in the parameters", raw: hb[:3+32*N]})
	for k := 0; k < 5; k++ {
		ms = append(ms, mutant{name: "uncompressed point inside section " + []string{"TauG1", "AlphaTauG1", "BetaTauG1", "TauG2", "BetaG2"}[k] + " shifts everything after it", raw: uncompress(honest, k)})
	}
	return ms
}

// the same parameters, but one point of section k stored uncompressed: positions
// after it no longer follow the documented format
func uncompress(p *ph1, k int) []byte {
	b := p.bytes()
	N := 1 << p.Power
	offs := []int{3 + 32, 3 + 32*(2*N-1), 3 + 32*(3*N-1), 3 + 32*(4*N-1), 3 + 32*(4*N-1) + 64*N}
	o := offs[k]
	var raw []byte
	w := 32
	switch k {
	case 0:
		x := p.TauG1[1].RawBytes()
		raw = x[:]
	case 1:
		x := p.Alpha[0].RawBytes()
		raw = x[:]
	case 2:
		x := p.Beta[0].RawBytes()
		raw = x[:]
	case 3:
		x := p.TauG2[0].RawBytes()
		raw, w = x[:], 64
	case 4:
		x := p.BetaG2.RawBytes()
		raw, w = x[:], 64
	}
	return append(append(append([]byte{}, b[:o]...), raw...), b[o+w:]...)
}

type cheatState struct {
	tau1, tau2, al, be1, be2      fr.Element
	d                             toxic
	sTau, sBe                     fr.Element // secret used for S,SX (and G2) when split
	split                         [3]bool
	badSX                         int
	badChal, badDst, infPub, infS [3]bool
	badHash                       bool
	prev                          []byte
	c                             c1
}

func (s *cheatState) pre() {
	s.tau1, s.tau2 = mul(s.tau1, s.d.tau), mul(s.tau2, s.d.tau)
	s.al = mul(s.al, s.d.alpha)
	s.be1, s.be2 = mul(s.be1, s.d.beta), mul(s.be2, s.d.beta)
	s.badSX, s.badHash = 0, false
	s.badChal, s.badDst, s.infPub, s.split, s.infS = [3]bool{}, [3]bool{}, [3]bool{}, [3]bool{}, [3]bool{}
	s.sTau, s.sBe = s.d.tau, s.d.beta
}
func (s *cheatState) zero(k int) {
	var z fr.Element
	switch k {
	case 0:
		s.d.tau, s.tau1, s.tau2, s.sTau = z, z, z, z
	case 1:
		s.d.alpha, s.al = z, z
	case 2:
		s.d.beta, s.be1, s.be2, s.sBe = z, z, z, z
	}
}
func (s *cheatState) splitTau(c fr.Element) {
	s.split[0] = true
	s.sTau = mul(s.d.tau, c)
	s.tau2 = mul(s.tau2, c)
}
func (s *cheatState) splitBeta(c fr.Element) {
	s.split[2] = true
	s.sBe = mul(s.d.beta, c)
	s.be2 = mul(s.be2, c)
}
func (s *cheatState) rec(i int) {
	s.c = c1{Tau: p1(s.tau1), Alpha: p1(s.al), Beta: p1(s.be1), Tau2: p2(s.tau2), Beta2: p2(s.be2)}
	mk := func(k int, x, sx fr.Element) pub {
		ch, dst := s.prev, byte(k+1)
		if s.badChal[k] {
			ch = []byte("another challenge")
		}
		if s.badDst[k] {
			dst = byte(k+1)%3 + 1
		}
		if s.infPub[k] {
			return pub{}
		}
		r := rnd()
		var p pub
		p.S = p1(r)
		p.SX = m1(p.S, sx)
		if s.infS[k] {
			p.S, p.SX = G1{}, G1{}
		}
		p.SPX = m2(spOf(p.S, p.SX, ch, dst), x)
		return p
	}
	s.c.PTau = mk(0, s.d.tau, s.sTau)
	sa := s.d.alpha
	if s.badSX == 2 {
		sa = rnd()
	}
	s.c.PAlpha = mk(1, s.d.alpha, sa)
	s.c.PBeta = mk(2, s.d.beta, s.sBe)
	s.c.rehash()
	if s.badHash {
		s.c.Hash[7] ^= 0x40
	}
}

// ---- verification, soundness: every one of these files must be rejected
func TestP1VerifySound(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for _, cfg := range []struct {
		pw byte
		n  int
	}{{1, 1}, {1, 3}, {2, 2}, {3, 2}} {
		ms := soundnessMutants1(cfg.pw, cfg.n)
		errs := make([]error, len(ms))
		for i := range ms {
			if ms[i].raw == nil {
				ms[i].raw = ms[i].p.bytes()
			}
		}
		parallelDo(len(ms), func(i int) {
			f := filepath.Join(d, fmt.Sprintf("m%d-%d-%d.ph1", cfg.pw, cfg.n, i))
			os.WriteFile(f, ms[i].raw, 0o644)
			errs[i] = guard(func() error { return phase1.Verify(f, "") })
			os.Remove(f)
		})
		for i := range ms {
			if errs[i] == nil && (ms[i].prop == "" || judged(ms[i].prop)) {
				t.Errorf("phase1.Verify accepted an invalid file (power %d, %d contributions): %s", cfg.pw, cfg.n, ms[i].name)
			}
		}
	}
	// transformed base
	if !judged("C05") {
		return
	}
	base := rndToxic()
	q, _, _ := chain1(2, base, 2)
	qf := put(t, d, "q.ph1", q.bytes())
	for k, other := range []toxic{{rnd(), base.alpha, base.beta}, {base.tau, rnd(), base.beta}, {base.tau, base.alpha, rnd()}, oneToxic()} {
		bf := put(t, d, "b.ph1", srs(2, other).bytes())
		if err := guard(func() error { return phase1.Verify(qf, bf) }); err == nil {
			t.Errorf("phase1.Verify accepted a chain against a transformed base with other parameters (case %d)", k)
		}
	}
	for k := 0; k < 2; k++ {
		b := srs(2, base)
		if k == 0 {
			b.TauG2[1] = p2(rnd())
		} else {
			b.BetaG2 = p2(rnd())
		}
		bf := put(t, d, "b.ph1", b.bytes())
		if err := guard(func() error { return phase1.Verify(qf, bf) }); err == nil {
			t.Errorf("phase1.Verify ignores the G2 point of the transformed base (case %d)", k)
		}
	}
	if err := guard(func() error { return phase1.Verify(qf, filepath.Join(d, "missing")) }); err == nil {
		t.Errorf("phase1.Verify accepted with a missing transformed file")
	}
	if err := guard(func() error { return phase1.Verify(qf, "") }); err == nil {
		t.Errorf("phase1.Verify accepted a chain on a secret base as if it started from the generators")
	}
}

// ---- transformation of a PPoT file
func TestP1Transform(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	for inP := byte(1); inP <= maxPower(); inP++ {
		N := 1 << inP
		g := generic1(inP)
		var b bytes.Buffer
		b.Write(bytes.Repeat([]byte{0xee}, 64))
		for i := range g.p.TauG1 {
			x := g.p.TauG1[i].RawBytes()
			b.Write(x[:])
		}
		for i := range g.p.TauG2 {
			x := g.p.TauG2[i].RawBytes()
			b.Write(x[:])
		}
		for i := range g.p.Alpha {
			x := g.p.Alpha[i].RawBytes()
			b.Write(x[:])
		}
		for i := range g.p.Beta {
			x := g.p.Beta[i].RawBytes()
			b.Write(x[:])
		}
		x := g.p.BetaG2.RawBytes()
		b.Write(x[:])
		in := put(t, d, "ppot", b.Bytes())
		for outP := byte(1); outP <= inP; outP++ {
			M := 1 << outP
			out := filepath.Join(d, "out.ph1")
			if err := guard(func() error { return phase1.Transform(in, out, inP, outP) }); err != nil {
				t.Fatalf("phase1.Transform(%d -> %d): %v", inP, outP, err)
			}
			w := &ph1{Power: outP, TauG1: g.p.TauG1[:2*M-1], Alpha: g.p.Alpha[:M], Beta: g.p.Beta[:M], TauG2: g.p.TauG2[:M], BetaG2: g.p.BetaG2}
			got, _ := os.ReadFile(out)
			if !bytes.Equal(got, w.bytes()) {
				t.Fatalf("phase1.Transform(%d -> %d) wrote a wrong file (length %d, want %d, first difference at byte %d)", inP, outP, len(got), len(w.bytes()), firstDiff(got, w.bytes()))
			}
		}
		for _, cut := range []int{1, 128, 128 + 64*N} {
			f := put(t, d, "cut", b.Bytes()[:b.Len()-cut])
			if err := guard(func() error { return phase1.Transform(f, filepath.Join(d, "o"), inP, inP) }); err == nil || isPanic(err) {
				t.Fatalf("phase1.Transform on a truncated file: %v", err)
			}
		}
	}
	// the largest files, with holes where nothing is to be read
	for inP := byte(22); inP <= 28; inP++ {
		p := srs(2, rndToxic())
		in := putSparse(t, d, "big", p, inP, true)
		out := filepath.Join(d, "out.ph1")
		if err := guard(func() error { return phase1.Transform(in, out, inP, 2) }); err != nil {
			t.Fatalf("phase1.Transform(%d -> 2): %v", inP, err)
		}
		if got, _ := os.ReadFile(out); !bytes.Equal(got, p.bytes()) {
			t.Fatalf("phase1.Transform(%d -> 2) wrote a wrong file", inP)
		}
		os.Remove(in)
	}
}

// ---- record codec through the public ReadFrom
type oneByte struct{ r *bytes.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

func TestP1Codec(t *testing.T) {
	quiet(t)
	p, _, _ := chain1(1, oneToxic(), 1)
	b := p.C[0].bytes()
	for k, f := range []func() error{
		func() error {
			var c phase1.Contribution
			_, err := c.ReadFrom(bytes.NewReader(b))
			return chk1(err, &c, &p.C[0])
		},
		func() error {
			var c phase1.Contribution
			_, err := c.ReadFrom(oneByte{bytes.NewReader(b)})
			return chk1(err, &c, &p.C[0])
		},
	} {
		if err := guard(f); err != nil {
			t.Fatalf("phase 1 record does not read back what was written (reader variant %d): %v", k, err)
		}
	}
	for cut := 1; cut <= len(b); cut += 31 {
		var c phase1.Contribution
		if err := guard(func() error { _, e := c.ReadFrom(bytes.NewReader(b[:len(b)-cut])); return e }); err == nil {
			t.Fatalf("phase 1 record truncated by %d bytes was accepted", cut)
		}
	}
	for _, pw := range []byte{1, 2, 17, 26} {
		for _, nc := range []uint16{0, 1, 255, 256, 65535} {
			hb := []byte{pw, 0, 0}
			binary.BigEndian.PutUint16(hb[1:], nc)
			for k := 0; k < 2; k++ {
				var h phase1.Header
				err := guard(func() error {
					if k == 0 {
						return h.ReadFrom(bytes.NewReader(hb))
					}
					return h.ReadFrom(oneByte{bytes.NewReader(hb)})
				})
				if err != nil || h.Power != pw || h.Contributions != nc {
					t.Fatalf("phase 1 header (%d,%d) read as (%d,%d), err %v", pw, nc, h.Power, h.Contributions, err)
				}
			}
		}
	}
	for cut := 1; cut <= 3; cut++ {
		var h phase1.Header
		hb := []byte{3, 0, 0}
		if err := guard(func() error { return h.ReadFrom(bytes.NewReader(hb[:3-cut])) }); err == nil {
			t.Fatalf("phase 1 header truncated by %d bytes was accepted", cut)
		}
	}
}

func chk1(err error, c *phase1.Contribution, w *c1) error {
	if err != nil {
		return err
	}
	pe := func(a pub, S, SX G1, SPX G2) bool { return a.S.Equal(&S) && a.SX.Equal(&SX) && a.SPX.Equal(&SPX) }
	if !c.G1.Tau.Equal(&w.Tau) || !c.G1.Alpha.Equal(&w.Alpha) || !c.G1.Beta.Equal(&w.Beta) || !c.G2.Tau.Equal(&w.Tau2) || !c.G2.Beta.Equal(&w.Beta2) ||
		!pe(w.PTau, c.PublicKeys.Tau.S, c.PublicKeys.Tau.SX, c.PublicKeys.Tau.SPX) ||
		!pe(w.PAlpha, c.PublicKeys.Alpha.S, c.PublicKeys.Alpha.SX, c.PublicKeys.Alpha.SPX) ||
		!pe(w.PBeta, c.PublicKeys.Beta.S, c.PublicKeys.Beta.SX, c.PublicKeys.Beta.SPX) || !bytes.Equal(c.Hash, w.Hash) {
		return fmt.Errorf("a field differs from what was encoded")
	}
	return nil
}

// counter must not wrap
func TestP1CounterWrap(t *testing.T) {
	quiet(t)
	d := t.TempDir()
	p := srs(1, oneToxic())
	p.NC = 65535
	c := record1(oneToxic(), oneToxic(), nil)
	cb := c.bytes()
	b := p.bytes()
	var buf bytes.Buffer
	buf.Write(b)
	for i := 0; i < 65535; i++ {
		buf.Write(cb)
	}
	in := put(t, d, "in.ph1", buf.Bytes())
	out := filepath.Join(d, "out.ph1")
	err := guard(func() error { return phase1.Contribute(in, out) })
	if err == nil {
		o, _ := os.ReadFile(out)
		if len(o) >= 3 && binary.BigEndian.Uint16(o[1:3]) == 0 {
			t.Fatalf("phase1.Contribute on a file with 65535 contributions reported success with a contribution counter of 0")
		}
	}
}
