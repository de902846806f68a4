package main

import (
	"fmt"
	"strings"
)

func init() { specs["C04"] = specC04; specs["C05"] = specC05; specs["C06"] = specC06 }

// ---------------------------------------------------------------- facts of an accepting path

// same: d = 0 and e = 0 say the same
func same(pc *PC, d, e *Term) bool {
	return d.sort == e.sort && (d == e || pc.zero(Sub(d, e)) || pc.zero(Add(d, e)))
}

// knows: the accepting path established fact
func knows(pc *PC, fact *Term) bool {
	if pc.has(fact) {
		return true
	}
	neg := fact.op == ONot
	a := fact
	if neg {
		a = fact.args[0]
	}
	if a.op == OEq0 && a.args[0].sort != SInt {
		if !neg && pc.zero(a.args[0]) {
			return true
		}
		for _, f := range pc.facts() {
			b := f
			if neg != (f.op == ONot) {
				continue
			}
			if neg {
				b = f.args[0]
			}
			if b.op == OEq0 && b.args[0].sort == a.args[0].sort && same(pc, a.args[0], b.args[0]) {
				return true
			}
		}
		return false
	}
	if a.op == OEq && !neg {
		if pc.equal(a.args[0], a.args[1]) {
			return true
		}
		for _, f := range pc.facts() {
			if f.op != OEq || f.args[0].sort != a.args[0].sort {
				continue
			}
			if pc.equal(f.args[0], a.args[0]) && pc.equal(f.args[1], a.args[1]) || pc.equal(f.args[1], a.args[0]) && pc.equal(f.args[0], a.args[1]) {
				return true
			}
		}
		return false
	}
	return pc.implied(fact)
}

// at gives pc plus everything its quantified facts say about index j in [lo,hi)
func (p *PC) at(j *Term) *PC {
	q := p
	for _, f := range p.qfacts() {
		if q.implied(Le(f.lo, j)) && q.implied(Lt(j, f.hi)) {
			for _, b := range f.body {
				q = q.and(Subst(b, f.x, j))
			}
		}
	}
	return q
}

// cases splits on whether j lies in the ranges of the facts established by loops, and adds what they established for j
func (p *PC) cases(j *Term) []*PC {
	out := []*PC{p}
	for _, f := range p.qfacts() {
		in := Lt(j, f.hi)
		var next []*PC
		for _, q := range out {
			if !q.implied(Le(f.lo, j)) || q.implied(in) || q.implied(Not(in)) {
				next = append(next, q)
				continue
			}
			for _, c := range []*Term{in, Not(in)} {
				if r := q.and(c); !r.inconsistent() {
					next = append(next, r)
				}
			}
		}
		out = next
	}
	for i := range out {
		out[i] = out[i].at(j)
	}
	return out
}

// batched: the path established sum_x r(x)*body(x) = 0 over x in [0,n) with fresh independent random r(x), which gives
// body(x) = 0 for every x in [0,n) but with negligible probability
func batched(pc *PC, n *Term, body func(x *Term) *Term) bool {
	for _, f := range pc.facts() {
		if f.op != OEq0 || f.args[0].sort == SInt {
			continue
		}
		d := f.args[0]
		for s := range rhos(d) {
			x := Fresh("x", SInt)
			args := append([]*Term{}, s.args...)
			args[len(args)-1] = x
			r := UF(s.name, SF, args...)
			b := body(x)
			var e *Term
			if b.sort == SF {
				e = Mul(r, b)
			} else {
				e = Scale(r, b)
			}
			if same(pc, d, SumR(zero, n, x, e)) {
				return true
			}
			if debugLoop {
				fmt.Println("BATCH", d, "\n   VS", SumR(zero, n, x, e))
			}
		}
	}
	return false
}

// rhos: applications of sequences of random field elements whose last argument is the bound index
func rhos(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OUF && t.sort == SF && (strings.HasPrefix(t.name, "rho!") || strings.HasPrefix(t.name, "rnd!")) && len(t.args) > 0 && hasBV(t.args[len(t.args)-1]) {
			ok := true
			for _, a := range t.args[:len(t.args)-1] {
				ok = ok && !hasBV(a)
			}
			if ok {
				out[t] = true
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a)
			}
		}
		for _, l := range t.lin {
			rec(l.c)
			rec(l.p)
		}
	}
	rec(t)
	return out
}

// ---------------------------------------------------------------- phase 1 verification

type start1 struct{ T, A, B, U, V *Term }

// verify1 runs Verify for both kinds of start point
func verify1(c *Ctx, each func(w *world, f *p1, s start1, i int, o Out), mod func(w *world, f *p1)) {
	for _, kind := range []string{"generators", "transformed"} {
		w := c.world()
		f := w.p1file("in", 0, 65535)
		if mod != nil {
			mod(w, f)
		}
		s := start1{G1gen, G1gen, G1gen, G2gen, G2gen}
		tr := StrLit("")
		if kind == "transformed" {
			g := w.p1file("tr", 0, 65535)
			tr = g.path
			w.st.assume(Not(Eq(tr, StrLit(""))))
			s = start1{g.T(one), g.A(zero), g.B(zero), g.U(one), g.V()}
		}
		outs := w.run("/phase1", "Verify", f.path, tr)
		oks, _ := w.split("Verify/"+kind, outs)
		c.ob(len(oks) > 0, "Verify/"+kind+"/can-accept", "no accepting outcome")
		for i, o := range oks {
			w.clean("Verify/"+kind, i, o)
			each(w, f, s, i, o)
		}
	}
}

func specC04(c *Ctx) {
	verify1(c, func(w *world, f *p1, s start1, i int, o Out) {
		pc := o.st.pc
		n := fmt.Sprintf("accept%d/", i)
		want := func(nm string, fact *Term) { c.ob(knows(pc, fact), n+nm, "accepted without establishing %s", fact) }
		last := Sub(f.cnt, one)
		c.ob(pc.implied(Ge0(last)), n+"contributions", "a file without contributions is accepted")
		fld := func(x string) *Term { return f.field(x, last) }
		// the points decoded above are the ones at the documented positions only if none of them came uncompressed
		want("compressed", Eq0(UF("slack", SInt, f.path)))
		want("first-TauG1", Eq0(Sub(f.T(zero), G1gen)))
		want("first-TauG2", Eq0(Sub(f.U(zero), G2gen)))
		want("first-AlphaG1", Eq0(Sub(f.A(zero), fld("G1.Alpha"))))
		want("first-BetaG1", Eq0(Sub(f.B(zero), fld("G1.Beta"))))
		want("BetaG2", Eq0(Sub(f.V(), fld("G2.Beta"))))
		g1sec := func(nm string, k *Term, P func(i *Term) *Term) {
			ok := batched(pc, Sub(k, one), func(x *Term) *Term {
				return Sub(pairTerm(P(x), fld("G2.Tau")), pairTerm(P(Add(x, one)), G2gen))
			})
			c.ob(ok, n+"ratio-"+nm, "the ratio of consecutive points isn't checked for all of the %s points of %s", k, nm)
		}
		g1sec("TauG1", Sub(MulC(2, f.N), one), f.T)
		g1sec("AlphaTauG1", f.N, f.A)
		g1sec("BetaTauG1", f.N, f.B)
		ok := batched(pc, Sub(f.N, one), func(x *Term) *Term {
			return Sub(pairTerm(fld("G1.Tau"), f.U(x)), pairTerm(G1gen, f.U(Add(x, one))))
		})
		c.ob(ok, n+"ratio-TauG2", "the ratio of consecutive points isn't checked for all of the points of TauG2")
	}, nil)
}

func specC05(c *Ctx) {
	verify1(c, func(w *world, f *p1, s start1, i int, o Out) {
		n := fmt.Sprintf("accept%d/", i)
		c.ob(o.st.pc.implied(Ge0(Sub(f.cnt, one))), n+"contributions", "a file without contributions is accepted")
		j := Fresh("j", SInt)
		for _, first := range []bool{true, false} {
			pc := o.st.pc
			idx := zero
			m := n + "record0/"
			if !first {
				idx = j
				m = n + "record/"
				pc = pc.and(Le(one, j)).and(Lt(j, f.cnt))
			}
			pcs := pc.cases(idx)
			want := func(nm string, fact *Term) {
				ok := true
				for _, pc := range pcs {
					ok = ok && knows(pc, fact)
				}
				c.ob(ok, m+nm, "accepted without establishing %s for contribution %s", fact, idx)
			}
			fld := func(x string) *Term { return f.field(x, idx) }
			pv := s
			prevHash := emptyBytes
			if !first {
				pr := Sub(j, one)
				pv = start1{f.field("G1.Tau", pr), f.field("G1.Alpha", pr), f.field("G1.Beta", pr), f.field("G2.Tau", pr), f.field("G2.Beta", pr)}
				prevHash = f.hash(pr)
			}
			for k, nm := range []string{"Tau", "Alpha", "Beta"} {
				S, SX, SPX := fld(nm+".S"), fld(nm+".SX"), fld(nm+".SPX")
				want(nm+"-S-not-infinity", Not(Eq0(S)))
				want(nm+"-SX-not-infinity", Not(Eq0(SX)))
				sp := UF("hashG2", SG2, Cat(UF("g1r", SBytes, S), UF("g1r", SBytes, SX), prevHash), UF("u8", SBytes, I(int64(k+1))))
				want("knowledge-"+nm, Eq0(Sub(pairTerm(S, SPX), pairTerm(SX, sp))))
				want("update-G1-"+nm, Eq0(Sub(pairTerm(fld("G1."+nm), sp), pairTerm([]*Term{pv.T, pv.A, pv.B}[k], SPX))))
			}
			want("update-G2-Tau", Eq0(Sub(pairTerm(fld("Tau.S"), fld("G2.Tau")), pairTerm(fld("Tau.SX"), pv.U))))
			want("update-G2-Beta", Eq0(Sub(pairTerm(fld("Beta.S"), fld("G2.Beta")), pairTerm(fld("Beta.SX"), pv.V))))
			var enc []*Term
			for _, s := range recFields {
				enc = append(enc, UF(s[:3], SBytes, fld(s[4:])))
			}
			want("hash", Eq(f.hash(idx), UF("sha256", SBytes, Cat(enc...))))
		}
	}, nil)
}

// ---------------------------------------------------------------- completeness

func specC06(c *Ctx) {
	for _, kind := range []string{"generators", "transformed"} {
		w := c.world()
		nz := func(nm string, i ...*Term) *Term { return UF("nz!"+nm, SF, i...) }
		s := map[string]*Term{"Tau": F(1), "Alpha": F(1), "Beta": F(1)}
		tr := StrLit("")
		if kind == "transformed" {
			power := w.intVar("tr.power", 1, 28)
			for k := range s {
				s[k] = nz("start" + k)
			}
			N := Pow2(power)
			tr = w.file("tr",
				hdr1(power, w.intVar("tr.cnt", 0, 65535)),
				sq1("g1c", Sub(MulC(2, N), one), func(i *Term) *Term { return Scale(PowF(s["Tau"], i), G1gen) }),
				sq1("g1c", N, func(i *Term) *Term { return Scale(Mul(s["Alpha"], PowF(s["Tau"], i)), G1gen) }),
				sq1("g1c", N, func(i *Term) *Term { return Scale(Mul(s["Beta"], PowF(s["Tau"], i)), G1gen) }),
				sq1("g2c", N, func(i *Term) *Term { return Scale(PowF(s["Tau"], i), G2gen) }),
				one1seg(it("g2c", Scale(s["Beta"], G2gen))))
			w.st.assume(Not(Eq(tr, StrLit(""))))
		}
		power := w.intVar("in.power", 1, 28)
		cnt := w.intVar("in.cnt", 1, 65535)
		N := Pow2(power)
		// the parameters after contribution i; its factor is their ratio
		cum := func(k string, i *Term) *Term { return nz("cum"+k, i) }
		hash := func(i *Term) *Term { return UF("hash32.in", SBytes, i) }
		rec := func(i *Term) []Item {
			prevHash := Ite(Eq0(i), emptyBytes, hash(Sub(i, one)))
			val := map[string]*Term{}
			for _, k := range []string{"Tau", "Alpha", "Beta"} {
				val["G1."+k] = Scale(cum(k, i), G1gen)
				val["G2."+k] = Scale(cum(k, i), G2gen)
			}
			for t, k := range []string{"Tau", "Alpha", "Beta"} {
				prev := Ite(Eq0(i), s[k], cum(k, Sub(i, one)))
				x := Mul(cum(k, i), Add(Mul(Ind(Eq0(i)), Inv(s[k])), Mul(Sub(F(1), Ind(Eq0(i))), Inv(cum(k, Sub(i, one))))))
				_ = prev
				S := Scale(nz("s"+k, i), G1gen)
				SX := Scale(x, S)
				val[k+".S"], val[k+".SX"] = S, SX
				val[k+".SPX"] = Scale(x, UF("hashG2", SG2, Cat(UF("g1r", SBytes, S), UF("g1r", SBytes, SX), prevHash), UF("u8", SBytes, I(int64(t+1)))))
			}
			var out []Item
			for _, f := range recFields {
				out = append(out, it(f[:3], val[f[4:]]))
			}
			return append(out, it("bytes", hash(i)))
		}
		last := Sub(cnt, one)
		t, a, b := cum("Tau", last), cum("Alpha", last), cum("Beta", last)
		w.defs = map[string]func(i *Term) *Term{
			"in.T": func(i *Term) *Term { return Scale(PowF(t, i), G1gen) },
			"in.A": func(i *Term) *Term { return Scale(Mul(a, PowF(t, i)), G1gen) },
			"in.B": func(i *Term) *Term { return Scale(Mul(b, PowF(t, i)), G1gen) },
			"in.U": func(i *Term) *Term { return Scale(PowF(t, i), G2gen) },
		}
		in := w.file("in",
			hdr1(power, cnt),
			sq1("g1c", Sub(MulC(2, N), one), func(i *Term) *Term { return UF("in.T", SG1, i) }),
			sq1("g1c", N, func(i *Term) *Term { return UF("in.A", SG1, i) }),
			sq1("g1c", N, func(i *Term) *Term { return UF("in.B", SG1, i) }),
			sq1("g2c", N, func(i *Term) *Term { return UF("in.U", SG2, i) }),
			one1seg(it("g2c", Scale(b, G2gen))),
			sq(cnt, rec))
		w.st.assume(Eq0(UF("slack", SInt, in))) // written by Initialize, Transform, Contribute: compressed
		hashes = map[string]func(i *Term) *Term{"hash32.in": func(i *Term) *Term {
			var enc []*Term
			for _, it := range rec(i)[:len(recFields)] {
				enc = append(enc, UF(it.kind, SBytes, it.t))
			}
			return UF("sha256", SBytes, Cat(enc...))
		}}
		outs := w.run("/phase1", "Verify", in, tr)
		hashes = nil
		oks, errs := w.split("Verify/"+kind, outs)
		c.ob(len(oks) > 0, "Verify/"+kind+"/can-accept", "no accepting outcome")
		for i, o := range oks {
			w.clean("Verify/"+kind, i, o)
		}
		for i, o := range errs {
			w.progress("Verify/"+kind, i, o)
		}
	}
}

// hashes: byte strings that are, by definition, the hash of a known text
var hashes map[string]func(i *Term) *Term
