package main

import (
	"fmt"
	"go/types"
	"math/bits"
)

func init() {
	for _, p := range []string{"C08", "C10", "C11", "C12"} {
		p := p
		specs[p] = func(c *Ctx) { specInit(c, p, "Initialize") }
	}
}

const gnarkCS = "github.com/consensys/gnark/constraint"

// circuit is the R1CS given to the initialisation
type circuit struct {
	w                                *world
	nc, wires                        *Term // constraints, wires
	internal, public, secret         *Term
	committed, privCommitted, cmtIdx *Term
	v                                Val
	com, pub, prv                    *predicate // the sections of the wires
}

func (w *world) circuit() *circuit {
	v := symVal(w.typ2(gnarkCS+"/bn254", "R1CS"), "cs")
	k := &circuit{w: w, v: v}
	k.nc = UF("cs.R1CSCore.Constraints.len", SInt)
	k.internal = Var("cs.R1CSCore.System.NbInternalVariables", SInt)
	k.public = UF("cs.R1CSCore.System.Public.len", SInt)
	k.secret = UF("cs.R1CSCore.System.Secret.len", SInt)
	k.wires = Add(k.internal, Add(k.public, k.secret))
	ci := "cs.R1CSCore.System.CommitmentInfo."
	k.committed = UF(ci+"Committed.len", SInt)
	k.privCommitted = Var(ci+"NbPrivateCommitted", SInt)
	k.cmtIdx = Var(ci+"CommitmentIndex", SInt)
	// the first coefficients are fixed
	foldUF[coefUF] = map[int64]int64{0: 0, 1: 1, 2: 2, 3: -1, 4: -2}
	ufRules[coefUF] = func(a []*Term) *Term {
		if c, ok := a[0].constInt(); ok {
			if v, ok := foldUF[coefUF][c]; ok {
				return F(v)
			}
		}
		return nil
	}
	// the sections: privately committed wires are neither public nor the commitment
	hasC := Not(Eq0(k.committed))
	isPub := Or(Lt(predVar, k.public), And(hasC, Eq(predVar, k.cmtIdx)))
	isCom := And(hasC, UF("cs.committed", SBool, predVar), Not(isPub))
	k.com, _ = predOf(isCom, predVar, "com")
	k.pub, _ = predOf(isPub, predVar, "pub")
	k.prv, _ = predOf(And(Not(isPub), Not(isCom)), predVar, "prv")
	w.c.ob(w.st.pc.implied(partition(k.com, k.pub, k.prv)), "lemma/partition", "the sections of the wires overlap")
	for _, p := range []*predicate{k.com, k.pub, k.prv} {
		p.cand = true
	}
	// they are listed in increasing order at the end of the committed wires
	start := Sub(k.committed, k.privCommitted)
	ufRules[ci+"Committed[]"] = func(a []*Term) *Term {
		i := Sub(a[0], start)
		return Ite(And(Ge0(i), Lt(i, k.privCommitted)), k.com.pos(i), UF("cs.committedPublic", SInt, a[0]))
	}
	w.st.assume(Eq(k.com.cnt(k.wires), k.privCommitted))
	w.st.assume(Eq(k.pub.cnt(k.wires), Add(k.public, Ite(hasC, one, zero))))
	w.st.assume(Le(k.privCommitted, k.committed))
	lim := I(1 << 31)
	for _, t := range []*Term{k.nc, k.internal, k.public, k.secret, k.privCommitted, k.cmtIdx, k.committed} {
		w.st.assume(And(Ge0(t), Le(t, lim)))
	}
	w.st.assume(Le(k.nc, I(1<<28)))
	for _, s := range []string{"L", "R", "O"} {
		n := "cs.R1CSCore.Constraints[]." + s
		wires := k.wires
		ufFacts[n+"[].VID"] = func(t *Term) []*Term { return []*Term{Ge0(t), Lt(t, wires)} }
		ufFacts[n+"[].CID"] = func(t *Term) []*Term {
			return []*Term{Ge0(t), Lt(t, UF("cs.CoeffTable.Coefficients.len", SInt)), Le(t, I(1<<32-1))}
		}
	}
	return k
}

func (k *circuit) term(side string, c, i *Term) (cid, vid *Term) {
	n := "cs.R1CSCore.Constraints[]." + side + "[]"
	return UF(n+".CID", SInt, c, i), UF(n+".VID", SInt, c, i)
}
func (k *circuit) length(side string, c *Term) *Term {
	return UF("cs.R1CSCore.Constraints[]."+side+".len", SInt, c)
}

// coef is the coefficient with a number
func coefOf(cid *Term) *Term { return UF(coefUF, SF, cid) }

const coefUF = "cs.CoeffTable.Coefficients[]"

// eval: the sum over all constraints and terms of wire x in one side, with the Lagrange points p
func (k *circuit) eval(side string, x *Term, p func(c *Term) *Term) *Term {
	c, i := Fresh("c", SInt), Fresh("i", SInt)
	cid, vid := k.term(side, c, i)
	return SumR(zero, k.nc, c, SumR(zero, k.length(side, c), i, Scale(Mul(Ind(Eq(x, vid)), coefOf(cid)), p(c))))
}

// lagr is the inverse DFT of P over n points
func lagr(n *Term, P func(i *Term) *Term) func(j *Term) *Term {
	w := UF("omega", SF, n)
	return func(j *Term) *Term {
		i := Fresh("i", SInt)
		return Scale(Inv(Emb(n)), SumR(zero, n, i, Scale(PowF(w, Neg(Mul(i, j))), P(i))))
	}
}

// convert is the contract of lagrange.ConvertG1/G2 (C09)
func convertContract(s Sort) Contract {
	return func(x *Exec, st *State, a []Val) []Out {
		sl, ok := a[0].(SliceV)
		d, ok2 := a[1].(Ptr)
		if ok && ok2 && sl.o != nil {
			dv, ok := st.load(d).(*StructV)
			if ok && sameVal(dv, domainVal(dv.t, dv.f[0].(*Term))) {
				n := dv.f[0].(*Term)
				if st.pc.equal(n, sl.len) {
					old := st.clone()
					x.fill(st, sl, func(j *Term) Val {
						return lagr(n, func(i *Term) *Term { t, _ := x.elemAt(old, sl, i).(*Term); return t })(j)
					})
					return []Out{{st: st}}
				}
			}
		}
		st.badf("conversion to the Lagrange basis of %s", valString(a[0]))
		return []Out{{st: st}}
	}
}

// fill overwrites the elements of a slice
func (x *Exec) fill(st *State, s SliceV, f func(j *Term) Val) {
	j := Fresh("j", SInt)
	arr, ok := st.loadPath(st.get(s.o), s.path).(*Arr)
	if !ok {
		st.badf("fill of %s", valString(s))
		return
	}
	st.heap[s.o] = st.storePath(st.get(s.o), s.path, arr.write(s.off, Add(s.off, s.len), j, f(Sub(j, s.off))))
}

func init() {
	ufRules["bitrev"] = func(a []*Term) *Term {
		n, ok := a[0].constInt()
		i, ok2 := a[1].constInt()
		if ok && ok2 && n > 0 && n&(n-1) == 0 && i >= 0 && i < n {
			return I(int64(bits.Reverse64(uint64(i)) >> (64 - bits.TrailingZeros64(uint64(n)))))
		}
		if a[1].op == OUF && a[1].name == "bitrev" && a[1].args[0] == a[0] {
			return a[1].args[1] // (indices from n on are kept)
		}
		return nil
	}
	// a permutation of the indices that keeps the last one
	ufFacts["bitrev"] = func(t *Term) []*Term {
		n, i := t.args[0], t.args[1]
		return []*Term{Implies(And(Ge0(i), Lt(i, n)), And(Ge0(t), Lt(t, n))),
			Implies(And(Ge0(i), Lt(i, Sub(n, one))), Lt(t, Sub(n, one))),
			Implies(Eq(i, zero), Eq(t, zero)),
			Implies(And(Lt(zero, n), Eq(i, Sub(n, one))), Eq(t, i))}
	}
}

func bitRev(n, i *Term) *Term { return UF("bitrev", SInt, n, i) }

// reverseContract is the contract of common.BitReverseG1/G2 (C09)
func reverseContract(x *Exec, st *State, a []Val) []Out {
	sl, ok := a[0].(SliceV)
	if !ok || sl.o == nil {
		st.badf("bit reversal of %s", valString(a[0]))
		return []Out{{st: st}}
	}
	old := st.clone()
	x.fill(st, sl, func(j *Term) Val {
		return x.elemAt(old, sl, bitRev(sl.len, j))
	})
	return []Out{{st: st}}
}

// specInit checks the initialisation of phase 2; prop selects the properties to report
func specInit(c *Ctx, prop, fn string) {
	w, k, f, outs, out := runInit(c, fn)
	specInitPost(w, k, f, prop, fn, outs, out)
}

func runInit(c *Ctx, fn string) (*world, *circuit, *p1, []Out, *Term) {
	w := c.world()
	f := w.p1file("p1", 0, 65535)
	k := w.circuit()
	w.x.contracts[modPath+"/lagrange.ConvertG1"] = convertContract(SG1)
	w.x.contracts[modPath+"/lagrange.ConvertG2"] = convertContract(SG2)
	w.x.contracts[modPath+"/common.BitReverseG1"] = reverseContract
	w.x.contracts[modPath+"/common.BitReverseG2"] = reverseContract
	r1cs := w.file("r1cs", one1seg(Item{"r1cs", Var("cs", SAny), Var("cs.size", SInt)}))
	out := Var("phase2", SStr)
	args := []Val{f.path, r1cs, out}
	if fn != "Initialize" {
		p := w.parted(k)
		args = append([]Val{f.path, p[0], out}, p[1:]...)
	}
	return w, k, f, w.run("/phase2", fn, args...), out
}

// parted gives the circuit in the parted form: the contracts of gnark's loader. The session, the
// number of constraints, the number of stored constraints and the batch size are the arguments.
func (w *world) parted(k *circuit) []Val {
	session, parts, batch := Var("session", SStr), Var("nbR1C", SInt), Var("batchSize", SInt)
	w.st.assume(Lt(zero, parts))
	w.st.assume(Lt(zero, batch))
	rt := w.typ2(gnarkCS+"/bn254", "R1CS")
	// the loaded constraints may be compressed, only GetConstraintToSolve gives the real ones
	loaded := symVal(rt, "parted").(*StructV)
	whole := k.v.(*StructV)
	merged := mergeStored(whole, loaded)
	r1c := w.typ2(gnarkCS, "R1C")
	w.x.contracts["(*"+gnarkCS+"/bn254.R1CS).LoadFromSplitBinaryConcurrent"] = func(x *Exec, st *State, a []Val) []Out {
		p, ok := a[0].(Ptr)
		s, n, b := x.T(st, a[1], SStr), x.T(st, a[2], SInt), x.T(st, a[3], SInt)
		// the names of the files hold the batch size: another one that asks for the same files is one
		// that, like the given one, takes all constraints at once; and no worker means no end
		same := Or(Eq(b, batch), And(Le(parts, b), Le(parts, batch)))
		cores := x.T(st, a[4], SInt)
		if !ok || !st.pc.equal(s, session) || !st.pc.equal(n, parts) || !st.pc.implied(And(Lt(zero, b), same, Lt(zero, cores))) {
			st.badf("loading of the parted circuit with other arguments than given: %s %s %s %s", s, n, b, cores)
			return []Out{{st: st}}
		}
		st.store(p, merged)
		return []Out{{st: st}}
	}
	w.x.contracts["(*"+gnarkCS+"/bn254.R1CS).GetConstraintToSolve"] = func(x *Exec, st *State, a []Val) []Out {
		i := x.T(st, a[1], SInt)
		p, ok := a[0].(Ptr)
		if !ok || !sameVal(st.load(p), merged) || !st.pc.implied(And(Ge0(i), Lt(i, k.nc))) {
			st.badf("constraint %s of %s", i, valString(a[0]))
		}
		return []Out{{st: st, ret: []Val{symVal(r1c, "cs.R1CSCore.Constraints[]", i)}}}
	}
	return []Val{session, k.nc, parts, batch}
}

// mergeStored takes the constraints of b and everything else of a
func mergeStored(a, b *StructV) *StructV {
	r := &StructV{a.t, append([]Val{}, a.f...)}
	st := a.t.Underlying().(*types.Struct)
	for i := range r.f {
		switch st.Field(i).Name() {
		case "R1CSCore":
			r.f[i] = mergeStored(a.f[i].(*StructV), b.f[i].(*StructV))
		case "Constraints":
			r.f[i] = b.f[i]
		}
	}
	return r
}

func specInitPost(w *world, k *circuit, f *p1, prop, fn string, outs []Out, out *Term) {
	c := w.c
	oks, errs := w.split(fn, outs)
	c.ob(len(oks) > 0, fn+"/can-succeed", "no successful outcome")
	all := prop == "C13" // both ways to initialise meet the same complete specification
	has := Not(Eq0(k.committed))
	inc := Ite(has, one, zero)
	info := StructField(k.v, "R1CSCore", "System", "CommitmentInfo")
	for i, o := range oks {
		w.clean(fn, i, o)
		pc := o.st.pc
		m := fmt.Sprintf("%s/path%d/", fn, i)
		q := w.cursor(o.st, out)
		rec := q.popRecord("header", 1)
		if !c.ob(q.bad == "" && rec[0].kind == "gob", m+"header", "%s", q.bad) {
			continue
		}
		ht := w.typ("/phase2", "Header")
		hv, ok := gobVal(rec[0].t, ht)
		hs, ok2 := hv.(*StructV)
		if !c.ob(ok && ok2, m+"header", "the phase 2 file doesn't start with a header") {
			continue
		}
		fld := func(n string) *Term {
			if t, ok := StructField(hs, n).(*Term); ok {
				return t
			}
			return Var("no field "+n, SInt)
		}
		n := fld("Domain")
		if prop == "C08" || all {
			c.ob(len(hs.f) == 7, m+"header/fields", "the header of phase 2 has other fields than documented")
			for _, e := range []struct {
				n string
				t *Term
			}{
				{"Constraints", k.nc}, {"Wires", k.wires}, {"Public", Add(k.public, inc)},
				{"Witness", Sub(Sub(Add(k.internal, k.secret), k.privCommitted), inc)},
				{"PrivateCommitted", k.privCommitted}, {"Contributions", zero},
			} {
				c.ob(pc.equal(fld(e.n), e.t), m+"header/"+e.n, "%s is %s instead of %s", e.n, pc.simp(fld(e.n)), e.t)
			}
			c.ob(isPow2(pc, n), m+"header/Domain/power-of-two", "%s", n)
			c.ob(pc.implied(And(Le(k.nc, n), Le(I(2), n))), m+"header/Domain/holds-the-constraints", "%s", n)
			c.ob(pc.implied(Or(Eq(n, I(2)), Lt(n, MulC(2, k.nc)))), m+"header/Domain/smallest", "%s", n)
			c.ob(pc.implied(Le(k.nc, f.N)), m+"too-large-circuits-refused", "more constraints than phase 1 supports")
			if !all {
				continue
			}
		}
		lag := func(p func(i *Term) *Term) func(c *Term) *Term { return lagr(n, p) }
		L := func(x *Term) *Term {
			return Add(k.eval("O", x, lag(f.T)), Add(k.eval("R", x, lag(f.A)), k.eval("L", x, lag(f.B))))
		}
		if prop == "C12" || prop == "C11" || all {
			q.one("delta", "g1c", G1gen)
			q.one("delta-G2", "g2c", G2gen)
			c.ob(q.bad == "", m+"delta", "%s", q.bad)
			q.seq("Z", "g1c", Sub(n, one), func(i *Term) *Term {
				r := bitRev(n, i)
				return Sub(f.T(Add(r, n)), f.T(r))
			})
			c.ob(q.bad == "", m+"Z", "%s", q.bad)
			q.seq("PKK", "g1c", k.prv.cnt(k.wires), func(i *Term) *Term { return L(k.prv.pos(i)) })
			c.ob(q.end() == "", m+"PKK", "%s", q.bad)
			if prop == "C12" {
				continue
			}
		}
		q = w.cursor(o.st, StrLit("evals"))
		q.one("alpha", "g1c", f.A(zero))
		q.one("beta", "g1c", f.B(zero))
		q.one("beta-G2", "g2c", f.V())
		c.ob(q.bad == "", m+"alpha-beta", "%s", q.bad)
		for _, e := range []struct {
			n, side, kind string
			p             func(i *Term) *Term
		}{{"A", "L", "g1c", f.T}, {"B", "R", "g1c", f.T}, {"B-G2", "R", "g2c", f.U}} {
			e := e
			q.one("number of "+e.n, "be32", k.wires)
			q.seq(e.n, e.kind, k.wires, func(x *Term) *Term { return k.eval(e.side, x, lag(e.p)) })
			c.ob(q.bad == "", m+"evaluations/"+e.n, "%s", q.bad)
		}
		if prop == "C10" {
			continue
		}
		for _, e := range []struct {
			n string
			p *predicate
		}{{"VKK", k.pub}, {"CKK", k.com}} {
			e := e
			q.one("number of "+e.n, "be32", e.p.cnt(k.wires))
			q.seq(e.n, "g1c", e.p.cnt(k.wires), func(i *Term) *Term { return L(e.p.pos(i)) })
			c.ob(q.bad == "", m+e.n, "%s", q.bad)
		}
		rec = q.popRecord("commitment info", 1)
		ok = q.bad == "" && rec[0].kind == "gob"
		if ok {
			v, is := gobVal(rec[0].t, info.(*StructV).t)
			ok = is && sameVal(v, info)
		}
		c.ob(ok && q.end() == "", m+"commitment-info", "the commitment info of the circuit doesn't end the evaluations: %s", q.bad)
	}
	if prop == "C08" || all {
		for i, o := range errs {
			w.progress(fn, i, o, Lt(f.N, k.nc))
		}
	}
}

// isPow2: a power of two by its form
func isPow2(pc *PC, t *Term) bool {
	t = pc.simp(t)
	if nextPow2(t) == t {
		return true
	}
	return t.op == OUF && t.name == "nextpow2"
}

// StructField follows field names
func StructField(v Val, path ...string) Val {
	for _, n := range path {
		s, ok := v.(*StructV)
		if !ok {
			return nil
		}
		st := s.t.Underlying().(*types.Struct)
		v = nil
		for i := range s.f {
			if st.Field(i).Name() == n {
				v = s.f[i]
			}
		}
	}
	return v
}
