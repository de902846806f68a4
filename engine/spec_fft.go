package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: the conversion to the Lagrange basis is the inverse DFT.
//
// The recursive FFT has the contract: for a slice of n = 2^e points and w a root of unity of order n (w^(n/2) = -1) with
// twiddles[stage+d][i] = w^(-2^d*i), the new element p is the sum over i < n of w^(-bitrev(n,p)*i) times the old element i.
// It is checked for n = 1, 2, 8 and for every other power of two; the recursive calls are taken by this contract for the
// smaller slice (induction on n).

type fftRoles struct {
	fn                      *ssa.Function
	a, tw, stage, ch, nargs int
	reverse                 *ssa.Function
}

func isJacSlice(t types.Type, g string) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := s.Elem().(*types.Named)
	return ok && n.Obj().Name() == g+"Jac"
}

func isFrMatrix(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s, ok = s.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := s.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Element"
}

// fftRoles finds the recursive FFT and the bit reversal among what the conversion calls, by their parameters
func (c *Ctx) fftRoles(g string) (*fftRoles, string) {
	top := c.prog.fn("/lagrange", "Convert"+g)
	if top == nil {
		return nil, "Convert" + g + " not found"
	}
	r := &fftRoles{a: -1, tw: -1, stage: -1, ch: -1}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Pkg != top.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := call.Common().StaticCallee()
				if h == nil {
					continue
				}
				ps := h.Signature.Params()
				if ps.Len() == 1 && isJacSlice(ps.At(0).Type(), g) && h.Signature.Recv() == nil && f == top {
					r.reverse = h
				}
				if h == f {
					r.fn = f
					for i := 0; i < ps.Len(); i++ {
						t := ps.At(i).Type()
						switch {
						case isJacSlice(t, g):
							r.a = i
						case isFrMatrix(t):
							r.tw = i
						}
						if _, ok := t.Underlying().(*types.Chan); ok {
							r.ch = i
						}
						if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && call.Common().Args[i] != f.Params[i] {
							if r.stage >= 0 && r.stage != i {
								r.stage = -2
							} else if r.stage != -2 {
								r.stage = i
							}
						}
					}
					r.nargs = ps.Len()
				}
				visit(h)
			}
		}
	}
	visit(top)
	switch {
	case r.fn == nil || r.a < 0 || r.tw < 0 || r.stage < 0:
		return nil, "no recursive function over the points, the twiddles and a stage"
	case r.reverse == nil:
		return nil, "no function that reorders the points"
	}
	return r, ""
}

// fftTerm: element p of the transform of n points with the root w (of order n)
func fftTerm(n, w *Term, p *Term, e func(i *Term) *Term) *Term {
	i := Fresh("i", SInt)
	return SumR(zero, n, i, Scale(PowF(w, Neg(Mul(bitRev(n, p), i))), e(i)))
}

var c09Parts = func() (r []string) {
	for _, g := range []string{"G1", "G2"} {
		for _, sh := range []string{"fft-" + g + "-1", "fft-" + g + "-2", "fft-" + g + "-8", "fft-" + g + "-2^q", "reverse-" + g, "reverse-points-" + g, "convert-" + g} {
			r = append(r, "C09/"+sh)
		}
	}
	return append(r, "C09/bitrev")
}()

func init() {
	parts["C09"] = c09Parts
	for _, g := range []string{"G1", "G2"} {
		g := g
		for _, sh := range []string{"1", "2", "8", "2^q"} {
			sh := sh
			specs["C09/fft-"+g+"-"+sh] = func(c *Ctx) { specFFT(c, g, sh) }
		}
		specs["C09/reverse-"+g] = func(c *Ctx) { specReverse(c, g, "/common", c.prog.fn("/common", "BitReverse"+g)) }
		specs["C09/reverse-points-"+g] = func(c *Ctx) {
			r, why := c.fftRoles(g)
			if r == nil {
				c.unreach("conversion of " + g + ": " + why)
				return
			}
			specReverse(c, g, "/lagrange", r.reverse)
		}
		specs["C09/convert-"+g] = func(c *Ctx) { specConvert(c, g) }
	}
}

func specFFT(c *Ctx, g, shape string) {
	r, why := c.fftRoles(g)
	if r == nil {
		c.unreach("conversion of " + g + ": " + why)
		return
	}
	s := map[string]Sort{"G1": SG1, "G2": SG2}[g]
	withCh := []bool{false}
	if r.ch >= 0 {
		withCh = append(withCh, true)
	}
	for _, ch := range withCh {
		w := c.world()
		st := w.st
		var n, m *Term
		switch shape {
		case "1":
			n = one
		case "2":
			n, m = two, one
		case "8":
			n, m = I(8), I(4)
		default:
			q := Var("q", SInt)
			m = Pow2(q)
			n = MulC(2, m)
			st.assume(Le(one, q))
			st.assume(Le(q, I(40)))
			st.assume(Not(Eq(m, I(4))))
			st.assume(Le(two, m))
		}
		omega := UF("omega", SF, n)
		if m != nil {
			halfOrder[omega] = m
		}
		ps := r.fn.Signature.Params()
		stage := Var("stage", SInt)
		cpus := Var("numCPU", SInt)
		st.assume(Le(one, cpus))
		st.assume(Le(cpus, I(1<<40)))
		st.assume(Ge0(stage))
		st.assume(Le(stage, I(40))) // 2^stage * n, which the recursion keeps, is at most 2^40
		args := make([]Val, ps.Len())
		for i := range args {
			args[i] = symVal(ps.At(i).Type(), ps.At(i).Name())
			if t, ok := args[i].(*Term); ok && t.sort == SInt && i != r.stage {
				// the number of splits is the logarithm of the power of two that follows the number of CPUs
				st.assume(Ge0(t))
				st.assume(Lt(Pow2(t), MulC(2, cpus)))
			}
		}
		args[r.stage] = stage
		// the points
		el := ps.At(r.a).Type().Underlying().(*types.Slice).Elem()
		pts := symArr(el, "a[]", nil)
		off := Var("off", SInt)
		st.assume(Ge0(off))
		o := st.alloc("points", types.NewSlice(el), pts)
		args[r.a] = SliceV{o: o, off: off, len: n, cap: Add(n, Var("morecap", SInt)), elem: el}
		st.assume(Ge0(Var("morecap", SInt)))
		P := func(i *Term) *Term { return UF("a[]", s, Add(off, i)) }
		// the twiddles
		twname := "tw[][]"
		args[r.tw] = symVal(ps.At(r.tw).Type(), "tw")
		levels := UF("tw.len", SInt)
		st.assume(Le(levels, I(128)))
		// there is a level for every halving of the slice
		switch shape {
		case "2":
			st.assume(Lt(stage, levels))
		case "8":
			st.assume(Lt(Add(stage, two), levels))
		case "2^q":
			st.assume(Le(Add(stage, Add(Var("q", SInt), one)), levels))
		}
		ufRules[twname] = func(a []*Term) *Term {
			if d, ok := Sub(a[0], stage).constInt(); ok && d >= 0 && d < 8 {
				return PowF(omega, Neg(MulC(1<<uint(d), a[1])))
			}
			return nil
		}
		// level stage+d has at least n/2^(d+1) twiddles
		ufFacts["tw[].len"] = func(t *Term) []*Term {
			if d, ok := Sub(t.args[0], stage).constInt(); ok && d >= 0 && d < 8 {
				return []*Term{Le(n, MulC(2<<uint(d), t))}
			}
			return nil
		}
		var chv Val
		if r.ch >= 0 {
			args[r.ch] = NilV{}
			if ch {
				co := st.alloc("chan", nil, &Nat{"chan", map[string]Val{"n": zero, "out": zero, "closed": zero}})
				chv = Ptr{o: co}
				args[r.ch] = chv
			}
		}
		w.x.recContract = map[*ssa.Function]Contract{r.fn: func(x *Exec, st *State, b []Val) []Out {
			return x.fftContract(st, r, s, args, n, omega, b)
		}}
		nm := fmt.Sprintf("fft/%s/%s/", g, shape)
		if ch {
			nm += "with-channel/"
		}
		outs := x0(w, r.fn, args)
		c.ob(len(outs) > 0, nm+"returns", "no outcome")
		for i, ou := range outs {
			if ou.st.pc.inconsistent() {
				continue
			}
			p := nm + fmt.Sprintf("path%d", i)
			if !c.ob(!ou.panic, p+"/no-panic", "%s", ou.why) {
				continue
			}
			w.clean(nm, i, ou)
			c.ob(unjoined(ou.st) == "", p+"/waits-for-all", "%s", unjoined(ou.st))
			if ch {
				cn, ok := ou.st.get(chv.(Ptr).o).(*Nat)
				c.ob(ok && nt(cn, "closed") == one && nt(cn, "n") == zero, p+"/closes-the-channel", "the channel isn't closed once")
				// whoever waits for the channel goes on when it is closed
				if at := ou.st.closed; at != nil {
					why := unjoined(at)
					if why == "" {
						why = w.x.quietSince(at, ou.st)
					}
					c.ob(why == "", p+"/nothing-after-the-close", "the channel is closed too early: %s", why)
				}
			}
			for oo, v := range ou.st.heap {
				old, had := w.st.heap[oo]
				if had && oo != o && (chv == nil || oo != chv.(Ptr).o) {
					c.ob(sameVal(old, v), p+"/frame", "%s changed", oo.name)
				}
				if !had && oo.fam != "" {
					c.ob(sameVal(famContent(oo), v), p+"/frame", "%s changed", oo.name)
				}
			}
			at := func(pc *PC, k *Term) *Term {
				t, _ := (&State{pc: pc, heap: ou.st.heap}).arrRead(ou.st.get(o).(*Arr), Add(off, k)).(*Term)
				if t == nil {
					t = Fresh("unknown", s)
				}
				return t
			}
			pc := ou.st.pc
			eq := func(pc *PC, name string, got, want *Term) {
				c.ob(pc.equal(got, want), p+"/"+name, "%s instead of %s", pc.simp(got), pc.simp(want))
			}
			if nc, ok := n.constInt(); ok {
				for k := int64(0); k < nc; k++ {
					eq(pc, fmt.Sprintf("element%d", k), at(pc, I(k)), fftTerm(n, omega, I(k), P))
				}
			} else {
				// bitrev(2m,p) = 2 bitrev(m,p), bitrev(2m,m+p) = 2 bitrev(m,p) + 1 for p < m; the sum is split in two
				k := Fresh("k", SInt)
				in := pc.and(Ge0(k)).and(Lt(k, m))
				for h := int64(0); h < 2; h++ {
					rev := Add(MulC(2, bitRev(m, k)), I(h))
					j := Fresh("j", SInt)
					want := SumR(zero, m, j, Add(Scale(PowF(omega, Neg(Mul(rev, j))), P(j)), Scale(PowF(omega, Neg(Mul(rev, Add(m, j)))), P(Add(m, j)))))
					eq(in, []string{"lower", "upper"}[h], at(in, Add(k, MulC(h, m))), want)
				}
			}
			k := Fresh("k", SInt)
			for _, out := range []*Term{Lt(k, zero), Le(n, k)} {
				q := pc.and(out)
				eq(q, "frame/points", at(q, k), P(k))
			}
		}
	}
}

// fftUnknown is a call with arguments that the contract doesn't cover: it changes the slice in an unknown way
func (x *Exec) fftUnknown(st *State, a Val, r *fftRoles, b []Val) []Out {
	sl, ok := a.(SliceV)
	if !ok || sl.o == nil || len(sl.path) > 0 {
		st.badf("call of the FFT with %s", valString(a))
		return one1(st)
	}
	x.fill(st, sl, func(j *Term) Val { return symVal(sl.elem, "fft!unknown", j, sl.off, sl.len) })
	if r.ch >= 0 {
		if _, isNil := b[r.ch].(NilV); !isNil {
			x.closeChan(st, b[r.ch])
		}
	}
	return one1(st)
}

func x0(w *world, f *ssa.Function, args []Val) []Out {
	outs := w.x.call(f, args, nil, w.st.clone())
	w.c.done(w.x)
	return outs
}

// fftContract takes a recursive call by the contract
func (x *Exec) fftContract(st *State, r *fftRoles, s Sort, top []Val, n, omega *Term, b []Val) []Out {
	fail := func(f string, a ...interface{}) []Out {
		if x.effectsOnly {
			return x.fftUnknown(st, b[r.a], r, b)
		}
		st.badf("recursive call of the FFT: "+f, a...)
		return one1(st)
	}
	d := int64(-1)
	if k, ok := Sub(x.T(st, b[r.stage], SInt), top[r.stage].(*Term)).constInt(); ok {
		d = k
	}
	if d < 0 || d >= 8 {
		return fail("stage %s", valString(b[r.stage]))
	}
	sl, ok := b[r.a].(SliceV)
	if !ok || sl.o == nil || len(sl.path) > 0 {
		return fail("slice %s", valString(b[r.a]))
	}
	m := exactDiv(n, I(1<<uint(d)))
	if m == nil || d == 0 || !st.pc.equal(sl.len, m) {
		return fail("a slice of %s points at %d levels further", sl.len, d)
	}
	if !sameVal(b[r.tw], top[r.tw]) {
		return fail("other twiddles")
	}
	for i := range b {
		if t, ok := top[i].(*Term); ok && t.sort == SInt && i != r.stage && !st.pc.equal(x.T(st, b[i], SInt), t) {
			return fail("argument %d is %s", i, valString(b[i]))
		}
	}
	old := st.clone()
	x.fill(st, sl, func(j *Term) Val {
		return fftTerm(m, PowF(omega, I(1<<uint(d))), j, func(i *Term) *Term {
			t, _ := x.elemAt(old, sl, i).(*Term)
			if t == nil {
				t = Fresh("unknown", s)
			}
			if hasCond(t) {
				t = st.pc.and(Ge0(i)).and(Lt(i, sl.len)).mergeCases(t)
			}
			return t
		})
	})
	if r.ch >= 0 {
		if _, isNil := b[r.ch].(NilV); !isNil {
			x.closeChan(st, b[r.ch])
		}
	}
	return one1(st)
}

// specConvert: ConvertG1/G2 is the inverse DFT, with the FFT and the reordering taken by their contracts
func specConvert(c *Ctx, g string) {
	r, why := c.fftRoles(g)
	if r == nil {
		c.unreach("conversion of " + g + ": " + why)
		return
	}
	s := map[string]Sort{"G1": SG1, "G2": SG2}[g]
	w := c.world()
	st := w.st
	e := Var("e", SInt)
	st.assume(Ge0(e))
	st.assume(Le(e, I(28))) // the field has no larger domain
	n := Pow2(e)
	f := c.prog.fn("/lagrange", "Convert"+g)
	el := f.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	dt := f.Signature.Params().At(1).Type().Underlying().(*types.Pointer).Elem()
	dom := domainVal(dt, n)
	omega := UF("omega", SF, n)
	off, more := Var("off", SInt), Var("morecap", SInt)
	st.assume(Ge0(off))
	st.assume(Ge0(more))
	o := st.alloc("points", types.NewSlice(el), symArr(el, "a[]", nil))
	P := func(i *Term) *Term { return UF("a[]", s, Add(off, i)) }
	cpus := Var("numCPU", SInt)
	st.assume(Le(one, cpus))
	st.assume(Le(cpus, I(1<<40)))
	w.x.contracts[r.fn.String()] = func(x *Exec, st *State, b []Val) []Out {
		sl, ok := b[r.a].(SliceV)
		fail := func(f string, a ...interface{}) []Out {
			if x.effectsOnly {
				return x.fftUnknown(st, b[r.a], r, b)
			}
			st.badf("call of the FFT: "+f, a...)
			return one1(st)
		}
		if !ok || sl.o == nil || len(sl.path) > 0 || !st.pc.equal(sl.len, n) {
			return fail("points %s", valString(b[r.a]))
		}
		if !st.pc.equal(x.T(st, b[r.stage], SInt), zero) {
			return fail("first stage %s", valString(b[r.stage]))
		}
		if !sameVal(b[r.tw], StructField(dom, "TwiddlesInv")) {
			return fail("twiddles %s", valString(b[r.tw]))
		}
		for i := range b {
			if t, ok := b[i].(*Term); ok && t.sort == SInt && i != r.stage && !st.pc.implied(And(Ge0(t), Lt(Pow2(t), MulC(2, cpus)))) {
				return fail("number of splits %s", t)
			}
		}
		old := st.clone()
		x.fill(st, sl, func(p *Term) Val {
			return fftTerm(n, omega, p, func(i *Term) *Term {
				t, _ := x.elemAt(old, sl, i).(*Term)
				if t == nil {
					t = Fresh("unknown", s)
				}
				if hasCond(t) {
					t = st.pc.and(Ge0(i)).and(Lt(i, n)).mergeCases(t)
				}
				return t
			})
		})
		if r.ch >= 0 {
			if _, isNil := b[r.ch].(NilV); !isNil {
				x.closeChan(st, b[r.ch])
			}
		}
		return one1(st)
	}
	w.x.contracts[r.reverse.String()] = func(x *Exec, st *State, b []Val) []Out {
		if sl, ok := b[0].(SliceV); !ok || !st.pc.equal(sl.len, n) {
			if !x.effectsOnly {
				st.badf("reordering of %s", valString(b[0]))
			}
		}
		return reverseContract(x, st, b)
	}
	sl := SliceV{o: o, off: off, len: n, cap: Add(n, more), elem: el}
	outs := w.run("/lagrange", "Convert"+g, sl, Ptr{o: st.alloc("domain", dt, dom)})
	nm := "convert/" + g
	c.ob(len(outs) > 0, nm+"/returns", "no outcome")
	for i, ou := range outs {
		if ou.st.pc.inconsistent() {
			continue
		}
		p := fmt.Sprintf("%s/path%d", nm, i)
		if !c.ob(!ou.panic, p+"/no-panic", "%s", ou.why) {
			continue
		}
		w.clean(nm, i, ou)
		c.ob(unjoined(ou.st) == "", p+"/waits-for-all", "%s", unjoined(ou.st))
		k := Fresh("k", SInt)
		at := func(pc *PC) *Term {
			t, _ := (&State{pc: pc, heap: ou.st.heap}).arrRead(ou.st.get(o).(*Arr), Add(off, k)).(*Term)
			if t == nil {
				t = Fresh("unknown", s)
			}
			return t
		}
		pc := ou.st.pc
		in := pc.and(Ge0(k)).and(Lt(k, n))
		want := lagr(n, P)(k)
		c.ob(in.equal(at(in), want), p+"/inverse-DFT", "element %s is %s instead of %s", k, in.simp(at(in)), want)
		for _, out := range []*Term{Lt(k, zero), Le(n, k)} {
			q := pc.and(out)
			c.ob(q.equal(at(q), P(k)), p+"/frame/points", "a point outside the slice is %s", q.simp(at(q)))
		}
		for oo, v := range ou.st.heap {
			if old, had := st.heap[oo]; had && oo != o {
				c.ob(sameVal(old, v), p+"/frame", "%s changed", oo.name)
			} else if !had && oo.fam != "" {
				c.ob(sameVal(famContent(oo), v), p+"/frame", "%s changed", oo.name)
			}
		}
	}
}

// specReverse: the new element k is the old element bitrev(n,k)
func specReverse(c *Ctx, g, pkg string, f *ssa.Function) {
	if f == nil || f.Signature.Params().Len() != 1 {
		c.unreach("bit reversal in " + pkg + ": function not found")
		return
	}
	s := map[string]Sort{"G1": SG1, "G2": SG2}[g]
	w := c.world()
	st := w.st
	e, off, more := Var("e", SInt), Var("off", SInt), Var("morecap", SInt)
	st.assume(And(Ge0(e), Ge0(off), Ge0(more), Le(e, I(40))))
	n := Pow2(e)
	cpus := Var("numCPU", SInt)
	st.assume(And(Le(one, cpus), Le(cpus, I(1<<40))))
	el := f.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	o := st.alloc("points", types.NewSlice(el), symArr(el, "a[]", nil))
	outs := x0(w, f, []Val{SliceV{o: o, off: off, len: n, cap: Add(n, more), elem: el}})
	nm := "reverse" + pkg + "/" + g
	c.ob(len(outs) > 0, nm+"/returns", "no outcome")
	for i, ou := range outs {
		if ou.st.pc.inconsistent() {
			continue
		}
		p := fmt.Sprintf("%s/path%d", nm, i)
		if !c.ob(!ou.panic, p+"/no-panic", "%s", ou.why) {
			continue
		}
		w.clean(nm, i, ou)
		c.ob(unjoined(ou.st) == "", p+"/waits-for-all", "%s", unjoined(ou.st))
		k := Fresh("k", SInt)
		at := func(pc *PC) *Term {
			t, _ := (&State{pc: pc, heap: ou.st.heap}).arrRead(ou.st.get(o).(*Arr), Add(off, k)).(*Term)
			if t == nil {
				t = Fresh("unknown", s)
			}
			return t
		}
		pc := ou.st.pc
		in := pc.and(Ge0(k)).and(Lt(k, n))
		c.ob(in.equal(at(in), UF("a[]", s, Add(off, bitRev(n, k)))), p+"/reversed", "element %s is %s", k, in.simp(at(in)))
		for _, out := range []*Term{Lt(k, zero), Le(n, k)} {
			q := pc.and(out)
			c.ob(q.equal(at(q), UF("a[]", s, Add(off, k))), p+"/frame/points", "a point outside the slice is %s", q.simp(at(q)))
		}
		for oo, v := range ou.st.heap {
			if old, had := st.heap[oo]; had && oo != o {
				c.ob(sameVal(old, v), p+"/frame", "%s changed", oo.name)
			} else if !had && oo.fam != "" {
				c.ob(sameVal(famContent(oo), v), p+"/frame", "%s changed", oo.name)
			}
		}
	}
}

// bitrevLemmas discharges what ufRules and ufFacts state about bitrev(2^e,i) = Reverse64(i) >> (64-e), i < 2^e, and the
// recursion equations that specFFT uses. z3 decides them over bit vectors, for each e.
func bitrevLemmas(c *Ctx) {
	var b strings.Builder
	b.WriteString("(define-fun rev64 ((x (_ BitVec 64))) (_ BitVec 64) (concat")
	for i := 0; i < 64; i++ {
		fmt.Fprintf(&b, " ((_ extract %d %d) x)", i, i)
	}
	b.WriteString("))\n(declare-const i (_ BitVec 64))\n")
	for e := 0; e <= 41; e++ {
		n := fmt.Sprintf("#x%016x", uint64(1)<<e)
		last := fmt.Sprintf("#x%016x", uint64(1)<<e-1)
		r := func(e int, x string) string { return fmt.Sprintf("(bvlshr (rev64 %s) #x%016x)", x, 64-e) }
		in := "(assert (bvult i " + n + "))\n"
		for _, l := range []struct{ name, goal string }{
			{"in-range", fmt.Sprintf("(bvult %s %s)", r(e, "i"), n)},
			{"involution", fmt.Sprintf("(= %s i)", r(e, r(e, "i")))},
			{"last", fmt.Sprintf("(=> (bvult i %s) (bvult %s %s))", last, r(e, "i"), last)},
			{"last-kept", fmt.Sprintf("(=> (= i %s) (= %s i))", last, r(e, "i"))},
			{"first-kept", fmt.Sprintf("(=> (= i #x0000000000000000) (= %s i))", r(e, "i"))},
			{"even", fmt.Sprintf("(= %s (bvmul #x0000000000000002 %s))", r(e+1, "i"), r(e, "i"))},
			{"odd", fmt.Sprintf("(= %s (bvadd #x0000000000000001 (bvmul #x0000000000000002 %s)))", r(e+1, "(bvadd i "+n+")"), r(e, "i"))},
		} {
			c.ob(z3.check(b.String()+in+"(assert (not "+l.goal+"))\n") == 1, fmt.Sprintf("lemma/bitrev/2^%d/%s", e, l.name), "not proved")
		}
	}
}

func init() {
	specs["C09/bitrev"] = bitrevLemmas
}
