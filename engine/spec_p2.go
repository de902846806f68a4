package main

import (
	"fmt"
	"go/types"
)

func init() { specs["C14"] = specC14; specs["C15"] = specC15; specs["C16"] = specC16 }

// p2 is a phase 2 file in the documented format
type p2 struct {
	path *Term
	h    map[string]*Term
	cnt  *Term
	nm   string
}

func (f *p2) Z(i *Term) *Term    { return UF(f.nm+".Z", SG1, i) }
func (f *p2) K(i *Term) *Term    { return UF(f.nm+".PKK", SG1, i) }
func (f *p2) hash(i *Term) *Term { return UF("hash32."+f.nm, SBytes, i) }

var rec2Fields = []string{"g1c Delta", "g1c S", "g1c SX", "g2c SPX"}

func (f *p2) field(n string, i *Term) *Term {
	for _, s := range rec2Fields {
		if s[4:] == n {
			return UF(f.nm+".rec."+n, fieldSort(s), i)
		}
	}
	panic("no field " + n)
}
func (f *p2) rec(i *Term) []Item {
	var out []Item
	for _, s := range rec2Fields {
		out = append(out, it(s[:3], f.field(s[4:], i)))
	}
	return append(out, it("bytes", f.hash(i)))
}

func (w *world) typ(pkg, name string) types.Type { return w.c.prog.typ(pkg, name) }

// gob makes the item for a structure written with gob; fields by name
func (w *world) gob(t types.Type, f map[string]*Term) Item {
	k := w.gobT(t, f)
	return Item{"gob", k, UF("gobsz", SInt, k)}
}
func (w *world) gobT(t types.Type, f map[string]*Term) *Term {
	v := zeroVal(t).(*StructV)
	s := t.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if x := f[s.Field(i).Name()]; x != nil {
			v.f[i] = x
			n++
		}
	}
	w.c.ob(n == len(f) && n == s.NumFields(), "header/fields", "the header of phase 2 has other fields than documented")
	return gobTerm(v, t)
}

var hdr2Fields = []string{"Wires", "Witness", "Public", "PrivateCommitted", "Constraints", "Domain", "Contributions"}

func (w *world) header2(nm string) map[string]*Term {
	h := map[string]*Term{}
	for _, n := range hdr2Fields {
		lo := int64(0)
		if n == "Domain" {
			lo = 2
		}
		h[n] = w.intVar(nm+"."+n, lo, 1<<40)
	}
	return h
}

func (w *world) p2file(nm string) *p2 {
	f := &p2{nm: nm, h: w.header2(nm)}
	f.cnt = f.h["Contributions"]
	f.path = w.file(nm,
		one1seg(w.gob(w.typ("/phase2", "Header"), f.h)),
		one1seg(it("g1c", Var(nm+".D1", SG1)), it("g2c", Var(nm+".D2", SG2))),
		sq1("g1c", Sub(f.h["Domain"], one), f.Z),
		sq1("g1c", f.h["Witness"], f.K),
		sq(f.cnt, f.rec))
	return f
}

func sp2(S, SX, prev *Term, dst int64) *Term {
	return UF("hashG2", SG2, Cat(UF("g1r", SBytes, S), UF("g1r", SBytes, SX), prev), UF("u8", SBytes, I(dst)))
}

func specC14(c *Ctx) {
	w := c.world()
	f := w.p2file("in")
	D1, D2 := Var("in.D1", SG1), Var("in.D2", SG2)
	w.st.assume(Not(Eq0(D1)))
	out := Var("out", SStr)
	outs := w.run("/phase2", "Contribute", f.path, out)
	oks, _ := w.split("Contribute", outs)
	c.ob(len(oks) > 0, "Contribute/can-succeed", "no successful outcome")
	for i, o := range oks {
		w.clean("Contribute", i, o)
		w.ioSound("Contribute", i, o)
		pc := o.st.pc
		h := map[string]*Term{}
		for k, v := range f.h {
			h[k] = v
		}
		h["Contributions"] = Add(f.cnt, one)
		q := w.cursor(o.st, out)
		hk := w.gobT(w.typ("/phase2", "Header"), h)
		q.take("header", one, func(*Term) []Item { return []Item{{"gob", hk, UF("gobsz", SInt, hk)}} })
		ds := q.popRecord("delta", 2)
		if !c.ob(q.bad == "" && ds[0].kind == "g1c" && ds[1].kind == "g2c", "Contribute/header-and-delta", "%s", q.bad) {
			continue
		}
		d := factor(pc.simp(ds[0].t), D1)
		if !c.ob(d != nil && atomF(d) != nil && len(rnds(d)) == 1 && rnds(d)[0] == atomF(d), "Contribute/random-delta", "delta in G1 becomes %s", ds[0].t) {
			continue
		}
		c.ob(pc.equal(ds[1].t, Scale(d, D2)), "Contribute/delta-G2", "delta in G2 becomes %s", ds[1].t)
		q.seq("Z", "g1c", Sub(f.h["Domain"], one), func(i *Term) *Term { return Scale(Inv(d), f.Z(i)) })
		q.seq("PKK", "g1c", f.h["Witness"], func(i *Term) *Term { return Scale(Inv(d), f.K(i)) })
		q.take("old records", f.cnt, f.rec)
		rec := q.popRecord("new record", 5)
		if !c.ob(q.end() == "", "Contribute/file", "%s", q.bad) {
			continue
		}
		prev := pc.simp(Ite(Eq(f.cnt, zero), emptyBytes, f.hash(Sub(f.cnt, one))))
		okKinds := rec[4].t.sort == SBytes
		var enc []*Term
		for k, s := range rec2Fields {
			okKinds = okKinds && rec[k].kind == s[:3]
			enc = append(enc, UF(s[:3], SBytes, rec[k].t))
		}
		c.ob(okKinds, "record/format", "the new record isn't in the documented format")
		c.ob(pc.equal(rec[0].t, Scale(d, D1)), "record/Delta", "%s", rec[0].t)
		s := factor(pc.simp(rec[1].t), G1gen)
		c.ob(s != nil && atomF(s) != nil && len(rnds(s)) == 1 && s != d, "record/S", "%s isn't a random multiple of the generator", rec[1].t)
		c.ob(pc.equal(rec[2].t, Scale(d, rec[1].t)), "record/SX", "%s", rec[2].t)
		want := Scale(d, sp2(rec[1].t, rec[2].t, prev, 1))
		c.ob(pc.equal(rec[3].t, want), "record/SPX", "%s instead of %s", pc.simp(rec[3].t), pc.simp(want))
		c.ob(pc.eqBytes(rec[4].t, UF("sha256", SBytes, Cat(enc...)), 3), "record/hash", "%s instead of the hash of the other fields", rec[4].t)
	}
}

func specC15(c *Ctx) {
	w := c.world()
	in, or := w.p2file("in"), w.p2file("or")
	d1, d2, g1, g2 := Var("in.D1", SG1), Var("in.D2", SG2), Var("or.D1", SG1), Var("or.D2", SG2)
	outs := w.run("/phase2", "Verify", in.path, or.path)
	oks, _ := w.split("Verify", outs)
	c.ob(len(oks) > 0, "Verify/can-accept", "no accepting outcome")
	for i, o := range oks {
		w.clean("Verify", i, o)
		pc := o.st.pc
		n := fmt.Sprintf("accept%d/", i)
		want := func(nm string, fact *Term) { c.ob(knows(pc, fact), n+nm, "accepted without establishing %s", fact) }
		c.ob(pc.implied(Ge0(Sub(in.cnt, one))), n+"contributions", "a file without contributions is accepted")
		for _, k := range hdr2Fields[:6] {
			c.ob(pc.implied(Eq(in.h[k], or.h[k])), n+"same-"+k, "files with different %s are accepted", k)
		}
		want("delta-G1-G2", Eq0(Sub(pairTerm(g1, d2), pairTerm(d1, g2))))
		upd := func(nm string, k *Term, P, Q func(i *Term) *Term) {
			c.ob(batched(pc, k, func(x *Term) *Term { return Sub(pairTerm(P(x), d2), pairTerm(Q(x), g2)) }), n+"update-"+nm,
				"the update isn't checked for all of the %s points of %s", k, nm)
		}
		upd("Z", Sub(in.h["Domain"], one), in.Z, or.Z)
		upd("PKK", in.h["Witness"], in.K, or.K)
		want("last-Delta", Eq0(Sub(d1, in.field("Delta", Sub(in.cnt, one)))))
		j := Fresh("j", SInt)
		for _, first := range []bool{true, false} {
			pc := o.st.pc
			idx, m := zero, n+"record0/"
			pv, prevHash := g1, emptyBytes
			if !first {
				idx, m = j, n+"record/"
				pc = pc.and(Le(one, j)).and(Lt(j, in.cnt))
				pv, prevHash = in.field("Delta", Sub(j, one)), in.hash(Sub(j, one))
			}
			pcs := pc.cases(idx)
			want := func(nm string, fact *Term) {
				ok := true
				for _, pc := range pcs {
					ok = ok && knows(pc, fact)
				}
				c.ob(ok, m+nm, "accepted without establishing %s for contribution %s", fact, idx)
			}
			D, S, SX, SPX := in.field("Delta", idx), in.field("S", idx), in.field("SX", idx), in.field("SPX", idx)
			sp := sp2(S, SX, prevHash, 1)
			want("S-not-infinity", Not(Eq0(S)))
			want("SX-not-infinity", Not(Eq0(SX)))
			want("knowledge", Eq0(Sub(pairTerm(S, SPX), pairTerm(SX, sp))))
			want("update", Eq0(Sub(pairTerm(D, sp), pairTerm(pv, SPX))))
			want("hash", Eq(in.hash(idx), UF("sha256", SBytes, Cat(UF("g1c", SBytes, D), UF("g1c", SBytes, S), UF("g1c", SBytes, SX), UF("g2c", SBytes, SPX)))))
		}
	}
}

func specC16(c *Ctx) {
	w := c.world()
	or := w.p2file("or")
	nz := func(nm string, i ...*Term) *Term { return UF("nz!"+nm, SF, i...) }
	h := map[string]*Term{}
	for k, v := range or.h {
		h[k] = v
	}
	cnt := w.intVar("in.Contributions", 1, 1<<40)
	h["Contributions"] = cnt
	// the origin's delta is the same factor of both generators
	d0 := nz("d0")
	ct := w.st.fs[or.path]
	ct.segs[1] = one1seg(it("g1c", Scale(d0, G1gen)), it("g2c", Scale(d0, G2gen)))
	cum := func(i *Term) *Term { return nz("cum", i) }
	hash := func(i *Term) *Term { return UF("hash32.in", SBytes, i) }
	rec := func(i *Term) []Item {
		prevHash := Ite(Eq0(i), emptyBytes, hash(Sub(i, one)))
		x := Mul(cum(i), Add(Mul(Ind(Eq0(i)), Inv(d0)), Mul(Sub(F(1), Ind(Eq0(i))), Inv(cum(Sub(i, one))))))
		S := Scale(nz("s", i), G1gen)
		SX := Scale(x, S)
		return []Item{it("g1c", Scale(cum(i), G1gen)), it("g1c", S), it("g1c", SX), it("g2c", Scale(x, sp2(S, SX, prevHash, 1))), it("bytes", hash(i))}
	}
	last := Sub(cnt, one)
	d := cum(last)
	// Z and PKK are divided by all of the factors of the contributions
	k := Mul(d0, Inv(d))
	w.defs = map[string]func(i *Term) *Term{
		"in.Z":   func(i *Term) *Term { return Scale(k, or.Z(i)) },
		"in.PKK": func(i *Term) *Term { return Scale(k, or.K(i)) },
	}
	in := w.file("in",
		one1seg(w.gob(w.typ("/phase2", "Header"), h)),
		one1seg(it("g1c", Scale(d, G1gen)), it("g2c", Scale(d, G2gen))),
		sq1("g1c", Sub(h["Domain"], one), func(i *Term) *Term { return UF("in.Z", SG1, i) }),
		sq1("g1c", h["Witness"], func(i *Term) *Term { return UF("in.PKK", SG1, i) }),
		sq(cnt, rec))
	hashes = map[string]func(i *Term) *Term{"hash32.in": func(i *Term) *Term {
		var enc []*Term
		for _, it := range rec(i)[:4] {
			enc = append(enc, UF(it.kind, SBytes, it.t))
		}
		return UF("sha256", SBytes, Cat(enc...))
	}}
	outs := w.run("/phase2", "Verify", in, or.path)
	hashes = nil
	oks, errs := w.split("Verify", outs)
	c.ob(len(oks) > 0, "Verify/can-accept", "no accepting outcome")
	for i, o := range oks {
		w.clean("Verify", i, o)
	}
	for i, o := range errs {
		w.progress("Verify", i, o)
	}
}
