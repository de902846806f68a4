package main

import (
	"sort"
	"strings"
)

func init() {
	specs["C01"] = specC01
}

func hdr1(power, n *Term) Seg { return one1seg(it("u8", power), it("be16", n)) }

func specC01(c *Ctx) {
	w := c.world()
	power := w.intVar("power", 0, 27)
	out := Var("outputPath", SStr)
	outs := w.run("/phase1", "Initialize", power, out)
	oks, errs := w.split("Initialize", outs)
	c.ob(len(oks) > 0, "Initialize/can-succeed", "no successful outcome")
	for i, o := range oks {
		w.clean("Initialize", i, o)
		w.ioSound("Initialize", i, o)
		q := w.cursor(o.st, out)
		q.one("power", "u8", power)
		q.one("#contributions", "be16", zero)
		N := Pow2(power)
		q.seq("TauG1", "g1c", Sub(MulC(2, N), one), func(*Term) *Term { return G1gen })
		q.seq("AlphaTauG1", "g1c", N, func(*Term) *Term { return G1gen })
		q.seq("BetaTauG1", "g1c", N, func(*Term) *Term { return G1gen })
		q.seq("TauG2", "g2c", N, func(*Term) *Term { return G2gen })
		q.one("BetaG2", "g2c", G2gen)
		c.ob(q.end() == "", "Initialize/file", "%s", q.bad)
	}
	for i, o := range errs {
		w.progress("Initialize", i, o)
	}
}

func init() { specs["C07"] = specC07 }

func transformWorld(w *world) (in, inP, outP *Term) {
	inP = w.intVar("inPower", 1, 28)
	outP = w.intVar("outPower", 1, 28)
	w.st.assume(Le(outP, inP))
	n, m := Pow2(inP), Pow2(outP)
	w.st.assume(Le(m, n)) // monotonicity of 2^x
	f1 := func(nm string) func(i *Term) *Term { return func(i *Term) *Term { return UF(nm, SG1, i) } }
	f2 := func(nm string) func(i *Term) *Term { return func(i *Term) *Term { return UF(nm, SG2, i) } }
	in = w.file("inputPath",
		one1seg(Item{"hash64", Var("oldHash", SAny), I(64)}),
		sq1("g1r", Sub(MulC(2, n), one), f1("in.T")),
		sq1("g2r", n, f2("in.U")),
		sq1("g1r", n, f1("in.A")),
		sq1("g1r", n, f1("in.B")),
		one1seg(it("g2r", Var("in.V", SG2))))
	return
}

func specC07(c *Ctx) {
	w := c.world()
	in, inP, outP := transformWorld(w)
	m := Pow2(outP)
	f1 := func(nm string) func(i *Term) *Term { return func(i *Term) *Term { return UF(nm, SG1, i) } }
	f2 := func(nm string) func(i *Term) *Term { return func(i *Term) *Term { return UF(nm, SG2, i) } }
	out := Var("outputPath", SStr)
	outs := w.run("/phase1", "Transform", in, out, inP, outP)
	oks, errs := w.split("Transform", outs)
	c.ob(len(oks) > 0, "Transform/can-succeed", "no successful outcome")
	for i, o := range oks {
		w.clean("Transform", i, o)
		w.ioSound("Transform", i, o)
		q := w.cursor(o.st, out)
		q.one("power", "u8", outP)
		q.one("#contributions", "be16", zero)
		q.seq("TauG1", "g1c", Sub(MulC(2, m), one), f1("in.T"))
		q.seq("AlphaTauG1", "g1c", m, f1("in.A"))
		q.seq("BetaTauG1", "g1c", m, f1("in.B"))
		q.seq("TauG2", "g2c", m, f2("in.U"))
		q.one("BetaG2", "g2c", Var("in.V", SG2))
		c.ob(q.end() == "", "Transform/file", "%s", q.bad)
	}
	for i, o := range errs {
		w.progress("Transform", i, o)
	}
}

// p1 is a phase 1 file in the documented format
type p1 struct {
	path, power, cnt, N *Term
	nm                  string
}

func (f *p1) T(i *Term) *Term { return UF(f.nm+".T", SG1, i) }
func (f *p1) A(i *Term) *Term { return UF(f.nm+".A", SG1, i) }
func (f *p1) B(i *Term) *Term { return UF(f.nm+".B", SG1, i) }
func (f *p1) U(i *Term) *Term { return UF(f.nm+".U", SG2, i) }
func (f *p1) V() *Term        { return Var(f.nm+".V", SG2) }
func (f *p1) hash(i *Term) *Term {
	return UF("hash32."+f.nm, SBytes, i)
}

var recFields = []string{"g1c G1.Tau", "g1c G1.Alpha", "g1c G1.Beta", "g2c G2.Tau", "g2c G2.Beta",
	"g1c Tau.S", "g1c Tau.SX", "g2c Tau.SPX", "g1c Alpha.S", "g1c Alpha.SX", "g2c Alpha.SPX", "g1c Beta.S", "g1c Beta.SX", "g2c Beta.SPX"}

func fieldSort(kind string) Sort {
	if kind[:2] == "g1" {
		return SG1
	}
	return SG2
}

func (f *p1) rec(i *Term) []Item {
	var out []Item
	for _, s := range recFields {
		out = append(out, it(s[:3], UF(f.nm+".rec."+s[4:], fieldSort(s), i)))
	}
	return append(out, it("bytes", f.hash(i)))
}
func (f *p1) field(n string, i *Term) *Term {
	for _, s := range recFields {
		if s[4:] == n {
			return UF(f.nm+".rec."+n, fieldSort(s), i)
		}
	}
	panic("no field " + n)
}

func (w *world) p1file(nm string, minCnt, maxCnt int64) *p1 {
	f := &p1{nm: nm}
	f.power = w.intVar(nm+".power", 1, 28)
	f.cnt = w.intVar(nm+".cnt", minCnt, maxCnt)
	f.N = Pow2(f.power)
	f.path = w.file(nm,
		hdr1(f.power, f.cnt),
		sq1("g1c", Sub(MulC(2, f.N), one), f.T),
		sq1("g1c", f.N, f.A),
		sq1("g1c", f.N, f.B),
		sq1("g2c", f.N, f.U),
		one1seg(it("g2c", f.V())),
		sq(f.cnt, f.rec))
	return f
}

func init() { specs["C02"] = specC02; specs["C03"] = specC03 }

// rnds finds the random scalars drawn by a run
func rnds(ts ...*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		for s := range symsOf(t) {
			if s.op == OUF && strings.HasPrefix(s.name, "rnd!") && !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// factor finds c with out = c*in
func factor(out, in *Term) *Term {
	ls := linOf(out)
	if len(ls) == 1 && ls[0].p == in {
		return ls[0].c
	}
	return nil
}

type p1c struct {
	w           *world
	f           *p1
	out         *Term
	o           Out
	tau, al, be *Term
}

// contribute1 runs Contribute and hands every successful outcome over
func contribute1(c *Ctx, each func(r *p1c, q *cur, i int)) (w *world, errs []Out) {
	w = c.world()
	f := w.p1file("in", 0, 65535)
	// precondition: the parameters are a ceremony's: these points aren't at infinity
	for _, t := range []*Term{f.T(one), f.A(zero), f.B(zero), f.U(one)} {
		w.st.assume(Not(Eq0(t)))
	}
	out := Var("out", SStr)
	outs := w.run("/phase1", "Contribute", f.path, out)
	oks, errs := w.split("Contribute", outs)
	c.ob(len(oks) > 0, "Contribute/can-succeed", "no successful outcome")
	for i, o := range oks {
		w.clean("Contribute", i, o)
		r := &p1c{w: w, f: f, out: out, o: o}
		q := w.cursor(o.st, out)
		// the factors: the first points of the sections give them
		probe := *q
		probe.segs = append([]Seg{}, q.segs...)
		each(r, q, i)
	}
	return w, errs
}

// firstOf gives the value of the item at a position of the written file
func firstOf(st *State, path *Term, pos *Term) *Term {
	it, ok := st.fs[path].find(st.pc, pos)
	if !ok {
		return nil
	}
	return st.pc.simp(it.t)
}

func (r *p1c) factors(c *Ctx) bool {
	N := r.f.N
	st := r.o.st
	t := firstOf(st, r.out, I(3+32))
	a := firstOf(st, r.out, Add(I(3), MulC(32, Sub(MulC(2, N), one))))
	b := firstOf(st, r.out, Add(I(3), MulC(32, Sub(MulC(3, N), one))))
	if !c.ob(t != nil && a != nil && b != nil, "Contribute/sections", "no point at the start of a section") {
		return false
	}
	r.tau, r.al, r.be = factor(t, r.f.T(one)), factor(a, r.f.A(zero)), factor(b, r.f.B(zero))
	isRnd := func(t *Term) bool {
		if t == nil {
			return false
		}
		rs := rnds(t)
		return len(rs) == 1 && rs[0] == atomF(t)
	}
	if !c.ob(isRnd(r.tau) && isRnd(r.al) && isRnd(r.be), "Contribute/random-factors", "point 1 of the first section is %s, points 0 of the next %s, %s", t, a, b) {
		return false
	}
	return c.ob(r.tau != r.al && r.tau != r.be && r.al != r.be, "Contribute/independent-factors", "tau, alpha and beta aren't drawn separately")
}

// atomF gives x if t is the polynomial x
func atomF(t *Term) *Term {
	ms := monosOf(t)
	if len(ms) == 1 && ms[0].c.IsInt64() && ms[0].c.Int64() == 1 && len(ms[0].fs) == 1 && ms[0].fs[0].e == one {
		return ms[0].fs[0].a
	}
	return nil
}

func (r *p1c) sections(q *cur) {
	f, N := r.f, r.f.N
	q.one("power", "u8", f.power)
	q.one("#contributions", "be16", Add(f.cnt, one))
	q.seq("TauG1", "g1c", Sub(MulC(2, N), one), func(i *Term) *Term { return Scale(PowF(r.tau, i), f.T(i)) })
	q.seq("AlphaTauG1", "g1c", N, func(i *Term) *Term { return Scale(Mul(r.al, PowF(r.tau, i)), f.A(i)) })
	q.seq("BetaTauG1", "g1c", N, func(i *Term) *Term { return Scale(Mul(r.be, PowF(r.tau, i)), f.B(i)) })
	q.seq("TauG2", "g2c", N, func(i *Term) *Term { return Scale(PowF(r.tau, i), f.U(i)) })
	q.one("BetaG2", "g2c", Scale(r.be, f.V()))
}

func specC02(c *Ctx) {
	contribute1(c, func(r *p1c, q *cur, i int) {
		if !r.factors(c) {
			return
		}
		r.sections(q)
		c.ob(q.bad == "", "Contribute/parameters", "%s", q.bad)
	})
}

func specC03(c *Ctx) {
	_, errs := contribute1(c, func(r *p1c, q *cur, i int) {
		r.w.ioSound("Contribute", i, r.o)
		if !r.factors(c) {
			return
		}
		f := r.f
		pc := r.o.st.pc
		c.ob(pc.implied(Lt(f.cnt, I(65535))), "Contribute/counter", "the counter wraps")
		// skip the parameters
		q.one("power", "u8", f.power)
		q.one("#contributions", "be16", Add(f.cnt, one))
		q.skip(MulC(32, Sub(MulC(4, f.N), one)), "G1 sections")
		q.skip(MulC(64, Add(f.N, one)), "G2 sections")
		q.take("old records", f.cnt, f.rec)
		// new record
		prev := Ite(Eq(f.cnt, zero), emptyBytes, f.hash(Sub(f.cnt, one)))
		prev = pc.simp(prev)
		rec := q.popRecord("new record", len(recFields)+1)
		c.ob(q.end() == "", "Contribute/history", "%s", q.bad)
		if rec == nil || q.bad != "" {
			return
		}
		get := map[string]*Term{}
		var enc []*Term
		okKinds := true
		for k, s := range recFields {
			okKinds = okKinds && rec[k].kind == s[:3]
			get[s[4:]] = rec[k].t
			enc = append(enc, UF(s[:3], SBytes, rec[k].t))
		}
		c.ob(okKinds && rec[len(recFields)].t.sort == SBytes, "record/format", "the new record isn't in the documented format")
		eq := func(n string, want *Term) {
			c.ob(pc.equal(get[n], want), "record/"+n, "%s instead of %s", pc.simp(get[n]), pc.simp(want))
		}
		eq("G1.Tau", Scale(r.tau, f.T(one)))
		eq("G1.Alpha", Scale(r.al, f.A(zero)))
		eq("G1.Beta", Scale(r.be, f.B(zero)))
		eq("G2.Tau", Scale(r.tau, f.U(one)))
		eq("G2.Beta", Scale(r.be, f.V()))
		for k, n := range []string{"Tau", "Alpha", "Beta"} {
			x := []*Term{r.tau, r.al, r.be}[k]
			s := factor(pc.simp(get[n+".S"]), G1gen)
			c.ob(s != nil && atomF(s) != nil && len(rnds(s)) == 1 && s != x, "record/"+n+".S", "%s isn't a random multiple of the generator", get[n+".S"])
			if s == nil {
				continue
			}
			eq(n+".SX", Scale(x, get[n+".S"]))
			sp := UF("hashG2", SG2, Cat(UF("g1r", SBytes, get[n+".S"]), UF("g1r", SBytes, get[n+".SX"]), prev), UF("u8", SBytes, I(int64(k+1))))
			eq(n+".SPX", Scale(x, sp))
		}
		h := UF("sha256", SBytes, Cat(enc...))
		c.ob(pc.eqBytes(rec[len(recFields)].t, h, 3), "record/hash", "%s instead of the hash of the other fields", rec[len(recFields)].t)
	})
	_ = errs
}
