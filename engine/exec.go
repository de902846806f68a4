package main

// Symbolic execution of go/ssa functions

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Out struct {
	st    *State
	ret   []Val
	panic bool
	why   string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type Path struct {
	st     *State
	env    map[ssa.Value]Val
	defers []deferred
}

func (p *Path) clone() *Path {
	e := make(map[ssa.Value]Val, len(p.env))
	for k, v := range p.env {
		e[k] = v
	}
	return &Path{p.st.clone(), e, append([]deferred{}, p.defers...)}
}

type Exit struct {
	p        *Path
	from, to *ssa.BasicBlock
}

type Contract func(x *Exec, st *State, args []Val) []Out

type Exec struct {
	prog        *Program
	contracts   map[string]Contract
	used        map[string]int // contracts used
	funcs       map[string]int // functions executed
	depth       int
	recContract map[*ssa.Function]Contract // for recursive calls
	stack       []*ssa.Function
	loopsSeen   map[string]string // loop -> how it was handled
	mon         []*monitor
	notes       []string
	oblig       int
	cs          []ssa.Instruction // call string
	cur         ssa.Instruction
	clocks      []*Term // iteration counters of the enclosing loops
	runs        []*loopRun
	effectsOnly bool
	flushing    *Obj
	explore     int    // >0 while invariants are still being looked for
	deadNow     string // unknown function that stands for the location being compared
	parSeen     map[string]string
	// the record of the ranges given to the work of Parallelize
	gN, gLo, gHi *Obj
	ghost        map[*Obj]bool
}

func (x *Exec) note(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, n := range x.notes {
		if n == m {
			return
		}
	}
	x.notes = append(x.notes, m)
}

type monitor struct{}

// ---------------------------------------------------------------- loops of a function

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	n      int
}

var loopMemo = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if r, ok := loopMemo[fn]; ok {
		return r
	}
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}, n: len(out)}
				out[h] = l
			}
			// blocks that reach b without passing h
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				c := st[len(st)-1]
				st = st[:len(st)-1]
				if l.blocks[c] {
					continue
				}
				l.blocks[c] = true
				st = append(st, c.Preds...)
			}
		}
	}
	loopMemo[fn] = out
	return out
}

// ---------------------------------------------------------------- calls

func (x *Exec) call(fn *ssa.Function, args, bind []Val, st *State) []Out {
	name := fn.String()
	if c, ok := x.contracts[name]; ok {
		x.used[name]++
		x.useAll(st, args)
		return c(x, st, args)
	}
	if len(fn.Blocks) == 0 {
		return x.intrinsic(name, fn.Signature, args, st)
	}
	if !x.prog.inRepo(fn) {
		return x.intrinsic(name, fn.Signature, args, st)
	}
	for _, f := range x.stack {
		if f == fn {
			if c := x.recContract[fn]; c != nil {
				x.useAll(st, args)
				return c(x, st, args)
			}
			st.badf("recursion in %s", name)
			return []Out{{st: st, ret: x.poisonResults(fn.Signature)}}
		}
	}
	if len(x.stack) > 40 {
		st.badf("call depth")
		return []Out{{st: st, ret: x.poisonResults(fn.Signature)}}
	}
	x.funcs[name]++
	x.stack = append(x.stack, fn)
	x.cs = append(x.cs, x.cur)
	defer func() { x.stack = x.stack[:len(x.stack)-1]; x.cur = x.cs[len(x.cs)-1]; x.cs = x.cs[:len(x.cs)-1] }()
	p := &Path{st: st, env: map[ssa.Value]Val{}}
	for i, a := range fn.Params {
		if i < len(args) {
			p.env[a] = args[i]
		}
	}
	for i, a := range fn.FreeVars {
		if i < len(bind) {
			p.env[a] = bind[i]
		}
	}
	var before *State
	if isSelector(fn) {
		before = st.clone()
	}
	_, _, outs := x.runBlocks([]item{{p: p, blk: fn.Blocks[0]}}, nil, nil)
	if before != nil {
		if v := minMaxOuts(before, outs); v != nil {
			return []Out{{st: before, ret: []Val{v}}}
		}
	}
	return outs
}

// isSelector: fn gives one integer, has no loop and no effect
func isSelector(fn *ssa.Function) bool {
	if r, ok := selectorMemo[fn]; ok {
		return r
	}
	res := fn.Signature.Results()
	ok := res.Len() == 1 && len(fn.Blocks) > 2 && len(loopsOf(fn)) == 0 && fn.Recover == nil
	if ok {
		b, isB := res.At(0).Type().Underlying().(*types.Basic)
		ok = isB && b.Info()&types.IsInteger != 0
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
			default:
				ok = false
			}
		}
	}
	selectorMemo[fn] = ok
	return ok
}

var selectorMemo = map[*ssa.Function]bool{}

// minMaxOuts: two outcomes that are the lesser or the greater of two integers are one
func minMaxOuts(st *State, outs []Out) *Term {
	if len(outs) != 2 || outs[0].panic || outs[1].panic || len(outs[0].st.bad) > len(st.bad) || len(outs[1].st.bad) > len(st.bad) {
		return nil
	}
	a, ok := outs[0].ret[0].(*Term)
	b, ok2 := outs[1].ret[0].(*Term)
	f, q := outs[0].st.pc.since(st.pc)
	g, q2 := outs[1].st.pc.since(st.pc)
	if !ok || !ok2 || a.sort != SInt || b.sort != SInt || len(q)+len(q2) > 0 || len(f) != 1 || len(g) != 1 || f[0] != Not(g[0]) {
		return nil
	}
	switch yes, no := outs[0].st.pc, outs[1].st.pc; {
	case yes.implied(Le(a, b)) && no.implied(Le(b, a)):
		return Min(st.pc.simp(a), st.pc.simp(b))
	case yes.implied(Le(b, a)) && no.implied(Le(a, b)):
		return Max(st.pc.simp(a), st.pc.simp(b))
	}
	return nil
}

func (x *Exec) poisonResults(sig *types.Signature) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, Poison{"result"})
	}
	return out
}

type item struct {
	p    *Path
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
	in   bool // phis are already set, no loop handling
}

const maxPaths = 4000

func (x *Exec) runBlocks(start []item, region *Loop, header *ssa.BasicBlock) (conts []Exit, exits []Exit, outs []Out) {
	work := append([]item{}, start...)
	steps := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		steps++
		if steps > maxPaths {
			it.p.st.badf("too many paths in %s", it.blk.Parent())
			outs = append(outs, Out{st: it.p.st, ret: x.poisonResults(it.blk.Parent().Signature)})
			return
		}
		goTo := func(p *Path, from, to *ssa.BasicBlock) {
			if region != nil {
				if to == header {
					conts = append(conts, Exit{p, from, to})
					return
				}
				if !region.blocks[to] {
					exits = append(exits, Exit{p, from, to})
					return
				}
			}
			work = append(work, item{p: p, blk: to, prev: from})
		}
		if it.idx == 0 && !it.in {
			if l := loopsOf(it.blk.Parent())[it.blk]; l != nil && (it.prev == nil || !l.blocks[it.prev]) {
				ex, o := x.loop(it.p, l, it.prev)
				outs = append(outs, o...)
				for _, e := range ex {
					goTo(e.p, e.from, e.to)
				}
				continue
			}
			x.phis(it.p, it.blk, it.prev)
		}
		x.runInstrs(it, &work, goTo, &outs)
	}
	return
}

// minMax recognises a branch that only selects the lesser or the greater of two integers: the paths need not part
func (x *Exec) minMax(p *Path, blk *ssa.BasicBlock, c *Term) (*ssa.BasicBlock, map[*ssa.Phi]Val) {
	via := func(b *ssa.BasicBlock) (join, from *ssa.BasicBlock) {
		if len(b.Preds) == 1 && len(b.Instrs) == 1 && len(b.Succs) == 1 {
			return b.Succs[0], b
		}
		return b, blk
	}
	j, f1 := via(blk.Succs[0])
	j2, f2 := via(blk.Succs[1])
	if j != j2 || f1 == f2 || len(j.Preds) != 2 || j == blk {
		return nil, nil
	}
	ph, v1 := x.phiVals(p, j, f1)
	_, v2 := x.phiVals(p, j, f2)
	if len(ph) == 0 {
		return nil, nil
	}
	out := map[*ssa.Phi]Val{}
	differ := 0
	for i := range ph {
		if !sameVal(v1[i], v2[i]) {
			differ++
		}
	}
	if differ > 1 {
		return nil, nil
	}
	for i := range ph {
		a, ok := v1[i].(*Term)
		b, ok2 := v2[i].(*Term)
		if !ok || !ok2 {
			return nil, nil
		}
		if a == b {
			out[ph[i]] = a
			continue
		}
		if a.sort != SInt || b.sort != SInt {
			return nil, nil
		}
		yes, no := p.st.pc.and(c), p.st.pc.and(Not(c))
		switch {
		case yes.implied(Le(a, b)) && no.implied(Le(b, a)):
			out[ph[i]] = Min(p.st.pc.simp(a), p.st.pc.simp(b))
		case yes.implied(Le(b, a)) && no.implied(Le(a, b)):
			out[ph[i]] = Max(p.st.pc.simp(a), p.st.pc.simp(b))
		default:
			return nil, nil
		}
	}
	return j, out
}

func (x *Exec) phiVals(p *Path, blk, prev *ssa.BasicBlock) (phis []*ssa.Phi, vals []Val) {
	k := -1
	for i, q := range blk.Preds {
		if q == prev {
			k = i
		}
	}
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(p, ph.Edges[k]))
	}
	return
}
func (x *Exec) phis(p *Path, blk, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	ph, v := x.phiVals(p, blk, prev)
	for i := range ph {
		p.env[ph[i]] = v[i]
	}
}

func (x *Exec) runInstrs(it item, work *[]item, goTo func(*Path, *ssa.BasicBlock, *ssa.BasicBlock), outs *[]Out) {
	p, blk := it.p, it.blk
	for i := it.idx; i < len(blk.Instrs); i++ {
		x.cur = blk.Instrs[i]
		switch in := blk.Instrs[i].(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			goTo(p, blk, blk.Succs[0])
			return
		case *ssa.If:
			c, ok := x.val(p, in.Cond).(*Term)
			if !ok {
				p.st.badf("condition is not a term in %s", blk.Parent())
				c = Fresh("cond", SBool)
			}
			c = x.simpBool(p.st, c)
			switch x.decideCond(p.st, c) {
			case 1:
				goTo(p, blk, blk.Succs[0])
			case -1:
				goTo(p, blk, blk.Succs[1])
			default:
				if j, vals := x.minMax(p, blk, c); j != nil {
					for ph, v := range vals {
						p.env[ph] = v
					}
					*work = append(*work, item{p: p, blk: j, prev: blk, in: true})
					return
				}
				q := p.clone()
				p.st.assume(c)
				q.st.assume(Not(c))
				goTo(q, blk, blk.Succs[1])
				goTo(p, blk, blk.Succs[0])
			}
			return
		case *ssa.Return:
			var r []Val
			for _, v := range in.Results {
				r = append(r, x.val(p, v))
			}
			*outs = append(*outs, Out{st: p.st, ret: r})
			return
		case *ssa.Panic:
			*outs = append(*outs, Out{st: p.st, panic: true, why: "panic in " + blk.Parent().String()})
			return
		case *ssa.RunDefers:
			for j := len(p.defers) - 1; j >= 0; j-- {
				d := p.defers[j]
				rs := x.doCall(p, d.call, d.fn, d.args)
				if len(rs) != 1 {
					// keep the non-panicking ones; fork is not supported here
					ok := false
					for _, o := range rs {
						if !o.panic && !ok {
							p.st = o.st
							ok = true
						}
					}
					p.st.badf("deferred call forks")
				} else {
					p.st = rs[0].st
				}
			}
			p.defers = nil
			continue
		case *ssa.Defer:
			fn, args := x.callee(p, &in.Call)
			p.defers = append(p.defers, deferred{&in.Call, fn, args})
			continue
		case *ssa.Go:
			fn, args := x.callee(p, &in.Call)
			rs := x.doGo(p, in, fn, args)
			if x.fork(rs, nil, it, i, work, outs) {
				return
			}
			if len(rs) == 1 {
				p.st = rs[0].st
			}
			continue
		case *ssa.Call:
			fn, args := x.callee(p, &in.Call)
			rs := x.doCall(p, &in.Call, fn, args)
			if len(rs) == 1 && !rs[0].panic {
				p.st = rs[0].st
				p.env[in] = packRet(rs[0].ret)
				continue
			}
			x.fork(rs, in, it, i, work, outs)
			return
		default:
			if pan := x.instr(p, in); pan != nil {
				*outs = append(*outs, pan...)
			}
			if p.st == nil {
				return
			}
		}
	}
}

func packRet(r []Val) Val {
	switch len(r) {
	case 0:
		return nil
	case 1:
		return r[0]
	}
	return TupleV(r)
}

func (x *Exec) fork(rs []Out, in ssa.Value, it item, i int, work *[]item, outs *[]Out) bool {
	if in == nil && len(rs) <= 1 {
		return false
	}
	for k, o := range rs {
		if o.panic {
			*outs = append(*outs, o)
			continue
		}
		np := it.p.clone()
		np.st = o.st
		_ = k
		if in != nil {
			np.env[in] = packRet(o.ret)
		}
		*work = append(*work, item{p: np, blk: it.blk, prev: it.prev, idx: i + 1, in: true})
	}
	return true
}

func (x *Exec) simpBool(st *State, c *Term) *Term {
	if len(condsOf(c)) > 0 {
		c = st.pc.simp(c)
	}
	if a, neg := c, false; true {
		if a.op == ONot {
			a, neg = a.args[0], true
		}
		if a.op == OEq0 && a.args[0].sort != SInt && hasCond(a.args[0]) {
			if r := isZeroCases(st.pc, a.args[0], 3); r != nil {
				if neg {
					r = Not(r)
				}
				return r
			}
		}
	}
	return c
}

// isZeroCases writes d = 0 as a condition on integers, if every case of d is decided
func isZeroCases(pc *PC, d *Term, depth int) *Term {
	d = pc.simp(d)
	if z, ok := isZeroTerm(d); ok {
		return B(z)
	}
	for _, e := range []*Term{d, pc.eqSubst(d)} {
		if z, ok := isZeroTerm(e); ok {
			return B(z)
		}
		if pc.has(Not(Eq0(e))) {
			return tFalse
		}
		if e.sort == SF {
			continue
		}
		// c*P = 0 iff P = 0, as c isn't 0
		if ls := linOf(e); len(ls) == 1 && nonZeroF(ls[0].c) {
			p := mkLin(e.sort, []LTerm{{F(1), ls[0].p}})
			if pc.has(Not(Eq0(p))) {
				return tFalse
			}
		}
	}
	if depth == 0 {
		return nil
	}
	for _, c := range condsOf(d) {
		a := isZeroCases(pc.split(c), assumeCond(d, c, true), depth-1)
		if a == nil {
			return nil
		}
		b := isZeroCases(pc.split(Not(c)), assumeCond(d, c, false), depth-1)
		if b == nil {
			return nil
		}
		return boolIte(c, a, b)
	}
	return nil
}

func pureInt(c *Term) bool {
	switch c.op {
	case OConst, OLe0:
		return true
	case OEq0:
		return c.args[0].sort == SInt
	case ONot, OAnd, OOr:
		for _, a := range c.args {
			if !pureInt(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) decideCond(st *State, c *Term) int {
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return -1
	}
	if st.pc.has(c) {
		return 1
	}
	if st.pc.has(Not(c)) {
		return -1
	}
	if c.op == OVar {
		return 0
	}
	a, neg := c, false
	if a.op == ONot {
		a, neg = a.args[0], true
	}
	if a.op == OEq0 && a.args[0].sort != SInt {
		d := st.pc.eqSubst(st.pc.simp(a.args[0]))
		r := 0
		if z, ok := isZeroTerm(d); ok {
			if z {
				r = 1
			} else {
				r = -1
			}
		} else if st.pc.zero(d) {
			r = 1
		}
		if neg {
			r = -r
		}
		return r
	}
	if a.op == OEq && a.args[0].sort == SBytes {
		r := 0
		if st.pc.equal(a.args[0], a.args[1]) {
			r = 1
		}
		if neg {
			r = -r
		}
		return r
	}
	return st.pc.decide(c)
}

// ---------------------------------------------------------------- values

func (x *Exec) val(p *Path, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return FuncV{fn: c}
	case *ssa.Global:
		return Ptr{o: x.global(p.st, c)}
	case *ssa.Builtin:
		return FuncV{name: "builtin." + c.Name()}
	}
	r, ok := p.env[v]
	if !ok {
		p.st.badf("no value for %s in %s", v.Name(), v.Parent())
		return Poison{"undefined"}
	}
	return r
}

var globalObjs = map[*ssa.Global]*Obj{}

func (x *Exec) global(st *State, g *ssa.Global) *Obj {
	o, ok := globalObjs[g]
	if !ok {
		o = newObj("global "+g.String(), g.Type().(*types.Pointer).Elem())
		globalObjs[g] = o
	}
	if _, ok := st.heap[o]; !ok {
		t := o.t
		if isErrorType(t) {
			st.heap[o] = ErrV{tFalse}
		} else if g.Pkg != nil && g.String() == "os.Args" {
			st.heap[o] = symVal(t, "os.Args")
		} else if s, ok := scalarSort(t); ok {
			st.heap[o] = Var("global."+g.String(), s)
		} else {
			st.heap[o] = Poison{"global " + g.String()}
		}
	}
	return o
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if s, ok := scalarSort(t); ok {
			return zeroTerm(s)
		}
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return IntB(n)
	case constant.Float:
		if iv := constant.ToInt(c.Value); iv.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return IntB(n)
		}
	}
	return Poison{"constant " + c.String()}
}

func (x *Exec) term(p *Path, v ssa.Value) *Term {
	r := x.val(p, v)
	if t, ok := r.(*Term); ok {
		return t
	}
	s, ok := scalarSort(v.Type())
	if !ok {
		s = SAny
	}
	p.st.badf("%s is not a term (%s) in %s", v.Name(), valString(r), v.Parent())
	return Fresh("unk", s)
}

// ---------------------------------------------------------------- plain instructions

// instr executes one instruction; returned outs are panics. p.st == nil means the path ended.
func (x *Exec) instr(p *Path, in ssa.Instruction) []Out {
	st := p.st
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := st.alloc(in.Comment+"@"+in.Parent().Name(), t, zeroVal(t))
		p.env[in] = Ptr{o: o}
	case *ssa.Store:
		a, v := x.val(p, in.Addr), x.val(p, in.Val)
		pt, ok := a.(Ptr)
		if !ok {
			st.badf("store to %s in %s", valString(a), in.Parent())
			return nil
		}
		st.use(pt.o, true)
		st.store(pt, v)
	case *ssa.UnOp:
		return x.unop(p, in)
	case *ssa.BinOp:
		p.env[in] = x.binop(p, in)
	case *ssa.ChangeType:
		p.env[in] = x.val(p, in.X)
	case *ssa.ChangeInterface:
		p.env[in] = x.val(p, in.X)
	case *ssa.Convert:
		p.env[in] = x.convert(p, x.val(p, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		v := x.val(p, in.X)
		if e, ok := v.(ErrV); ok {
			p.env[in] = e
		} else {
			p.env[in] = IfaceV{in.X.Type(), v}
		}
	case *ssa.TypeAssert:
		v := x.val(p, in.X)
		iv, ok := v.(IfaceV)
		match := false
		if ok {
			if types.IsInterface(in.AssertedType) {
				match = types.Implements(iv.t, in.AssertedType.Underlying().(*types.Interface))
			} else {
				match = types.Identical(iv.t, in.AssertedType)
			}
		} else {
			st.badf("type assertion on %s", valString(v))
		}
		var r Val
		if match {
			if types.IsInterface(in.AssertedType) {
				r = iv
			} else {
				r = iv.v
			}
		} else {
			r = zeroVal(in.AssertedType)
		}
		if in.CommaOk {
			p.env[in] = TupleV{r, B(match)}
		} else {
			if !match {
				o := Out{st: st, panic: true, why: "type assertion"}
				p.st = nil
				return []Out{o}
			}
			p.env[in] = r
		}
	case *ssa.FieldAddr:
		b := x.val(p, in.X)
		pt, ok := b.(Ptr)
		if !ok {
			if _, isNil := b.(NilV); isNil {
				o := Out{st: st, panic: true, why: "nil pointer dereference in " + in.Parent().String()}
				p.st = nil
				return []Out{o}
			}
			st.badf("field of %s in %s", valString(b), in.Parent())
			p.env[in] = Poison{"fieldaddr"}
			return nil
		}
		p.env[in] = Ptr{pt.o, append(append([]PE{}, pt.path...), PE{field: in.Field})}
	case *ssa.Field:
		b := x.val(p, in.X)
		switch s := b.(type) {
		case *StructV:
			p.env[in] = s.f[in.Field]
		case *Term:
			p.env[in] = UF(fmt.Sprintf("fld%d", in.Field), SAny, s)
		default:
			st.badf("field of %s", valString(b))
			p.env[in] = Poison{"field"}
		}
	case *ssa.IndexAddr:
		return x.indexAddr(p, in)
	case *ssa.Index:
		b := x.val(p, in.X)
		i := x.term(p, in.Index)
		if a, ok := b.(*Arr); ok {
			p.env[in] = st.arrRead(a, i)
		} else {
			st.badf("index of %s", valString(b))
			p.env[in] = Poison{"index"}
		}
	case *ssa.Slice:
		return x.slice(p, in)
	case *ssa.MakeSlice:
		n, c := x.term(p, in.Len), x.term(p, in.Cap)
		el := in.Type().Underlying().(*types.Slice).Elem()
		var pans []Out
		if !st.pc.implied(Ge0(n)) {
			q := st.clone()
			q.assume(Not(Ge0(n)))
			pans = append(pans, Out{st: q, panic: true, why: "make with negative length in " + in.Parent().String()})
			st.assume(Ge0(n))
		}
		o := st.alloc("make@"+in.Parent().Name(), nil, zeroArr(el))
		p.env[in] = SliceV{o: o, off: zero, len: n, cap: c, elem: el}
		return pans
	case *ssa.MakeChan:
		o := st.alloc("chan", nil, &Nat{"chan", map[string]Val{"n": zero, "out": zero, "closed": zero}})
		p.env[in] = Ptr{o: o}
	case *ssa.MakeMap:
		p.env[in] = Poison{"map"}
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range in.Bindings {
			b = append(b, x.val(p, v))
		}
		p.env[in] = FuncV{fn: in.Fn.(*ssa.Function), bind: b}
	case *ssa.Extract:
		t := x.val(p, in.Tuple)
		if tv, ok := t.(TupleV); ok && in.Index < len(tv) {
			p.env[in] = tv[in.Index]
		} else {
			p.env[in] = Poison{"extract"}
		}
	case *ssa.Send:
		x.send(p, in)
	default:
		st.badf("instruction %T in %s", in, in.Parent())
		if v, ok := in.(ssa.Value); ok {
			p.env[v] = Poison{fmt.Sprintf("%T", in)}
		}
	}
	return nil
}

func (x *Exec) boundsOut(p *Path, c *Term, why string) []Out {
	st := p.st
	if st.pc.implied(c) {
		return nil
	}
	if st.pc.implied(Not(c)) {
		p.st = nil
		return []Out{{st: st, panic: true, why: why}}
	}
	q := st.clone()
	q.assume(Not(c))
	st.assume(c)
	return []Out{{st: q, panic: true, why: why}}
}

func (x *Exec) indexAddr(p *Path, in *ssa.IndexAddr) []Out {
	st := p.st
	b := x.val(p, in.X)
	i := x.term(p, in.Index)
	switch s := b.(type) {
	case SliceV:
		outs := x.boundsOut(p, And(Ge0(i), Lt(i, s.len)), "index out of range in "+in.Parent().String())
		if p.st == nil {
			return outs
		}
		p.env[in] = Ptr{s.o, append(append([]PE{}, s.path...), PE{idx: Add(s.off, i)})}
		return outs
	case Ptr:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		outs := x.boundsOut(p, And(Ge0(i), Lt(i, I(at.Len()))), "index out of range in "+in.Parent().String())
		if p.st == nil {
			return outs
		}
		p.env[in] = Ptr{s.o, append(append([]PE{}, s.path...), PE{idx: i})}
		return outs
	}
	st.badf("index of %s in %s", valString(b), in.Parent())
	p.env[in] = Poison{"indexaddr"}
	return nil
}

func (x *Exec) slice(p *Path, in *ssa.Slice) []Out {
	st := p.st
	b := x.val(p, in.X)
	lo := zero
	if in.Low != nil {
		lo = x.term(p, in.Low)
	}
	var s SliceV
	switch v := b.(type) {
	case SliceV:
		s = v
	case Ptr:
		at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			st.badf("slice of pointer")
			p.env[in] = Poison{"slice"}
			return nil
		}
		s = SliceV{o: v.o, path: v.path, off: zero, len: I(at.Len()), cap: I(at.Len()), elem: at.Elem()}
	default:
		if t, ok := b.(*Term); ok && t.sort == SStr {
			p.env[in] = UF("substr", SStr, t, lo)
			return nil
		}
		st.badf("slice of %s in %s", valString(b), in.Parent())
		p.env[in] = Poison{"slice"}
		return nil
	}
	hi := s.len
	if in.High != nil {
		hi = x.term(p, in.High)
	}
	mx := s.cap
	if in.Max != nil {
		mx = x.term(p, in.Max)
	}
	outs := x.boundsOut(p, And(Ge0(lo), Le(lo, hi), Le(hi, s.cap)), "slice bounds in "+in.Parent().String())
	if p.st == nil {
		return outs
	}
	if s.o == nil {
		p.env[in] = s
		return outs
	}
	p.env[in] = SliceV{o: s.o, path: s.path, off: Add(s.off, lo), len: Sub(hi, lo), cap: Sub(mx, lo), elem: s.elem}
	return outs
}

func (x *Exec) unop(p *Path, in *ssa.UnOp) []Out {
	st := p.st
	v := x.val(p, in.X)
	switch in.Op {
	case token.MUL:
		pt, ok := v.(Ptr)
		if !ok {
			if _, isNil := v.(NilV); isNil {
				o := Out{st: st, panic: true, why: "nil pointer dereference in " + in.Parent().String()}
				p.st = nil
				return []Out{o}
			}
			st.badf("load through %s in %s", valString(v), in.Parent())
			p.env[in] = Poison{"load"}
			return nil
		}
		st.use(pt.o, false)
		p.env[in] = st.load(pt)
	case token.NOT:
		p.env[in] = Not(x.term(p, in.X))
	case token.SUB:
		p.env[in] = Neg(x.term(p, in.X))
	case token.ARROW:
		x.recv(p, in, v)
	case token.XOR:
		p.env[in] = UF("bitnot", SInt, x.term(p, in.X))
	default:
		st.badf("unop %v", in.Op)
		p.env[in] = Poison{"unop"}
	}
	return nil
}

func bitsOf(t types.Type) (bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Int, types.Int64:
		return 64, true
	}
	return 0, false
}

// wrap reduces an integer to its type, for the narrow types; 64 bit integers are taken as unbounded
func (x *Exec) wrap(st *State, t types.Type, v *Term) *Term {
	bits, signed := bitsOf(t)
	if bits == 0 || bits == 64 {
		return v
	}
	lim := IntB(new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	if signed {
		h := IntB(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		if st.pc.implied(And(Le(Neg(h), v), Lt(v, h))) {
			return v
		}
		return Sub(Mod(Add(v, h), lim), h)
	}
	if st.pc.implied(And(Ge0(v), Lt(v, lim))) {
		return v
	}
	return Mod(v, lim)
}

func isNilVal(v Val) (bool, bool) {
	switch y := v.(type) {
	case NilV:
		return true, true
	case Ptr, FuncV, IfaceV:
		return false, true
	case SliceV:
		return y.o == nil, y.o == nil || !y.o.maybeNil
	}
	return false, false
}

func (x *Exec) binop(p *Path, in *ssa.BinOp) Val {
	st := p.st
	a, b := x.val(p, in.X), x.val(p, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		var c *Term
		ea, aok := a.(ErrV)
		eb, bok := b.(ErrV)
		na, aN := isNilVal(a)
		nb, bN := isNilVal(b)
		switch {
		case aok && bN && nb:
			c = ea.ok
		case bok && aN && na:
			c = eb.ok
		case aok && bok:
			c = Fresh("erreq", SBool)
		case aN && bN && (na || nb):
			c = B(na && nb)
		default:
			ta, ok1 := a.(*Term)
			tb, ok2 := b.(*Term)
			if ok1 && ok2 && ta.sort == tb.sort {
				c = Eq(ta, tb)
			} else if c2 := structEq(a, b); c2 != nil {
				c = c2
			} else {
				st.badf("comparison of %s and %s in %s", valString(a), valString(b), in.Parent())
				c = Fresh("cmp", SBool)
			}
		}
		if in.Op == token.NEQ {
			c = Not(c)
		}
		return c
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		st.badf("binop %v on %s, %s in %s", in.Op, valString(a), valString(b), in.Parent())
		if s, ok := scalarSort(in.Type()); ok {
			return Fresh("binop", s)
		}
		return Poison{"binop"}
	}
	if ta.sort == SStr {
		switch in.Op {
		case token.ADD:
			return strCat(ta, tb)
		}
		return Fresh("strop", SBool)
	}
	if ta.sort != SInt {
		if ta.sort == SBool {
			switch in.Op {
			case token.AND:
				return And(ta, tb)
			case token.OR:
				return Or(ta, tb)
			}
		}
		st.badf("binop %v on %v", in.Op, ta.sort)
		s, _ := scalarSort(in.Type())
		return Fresh("binop", s)
	}
	flt := false
	if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
		flt = true
	}
	switch in.Op {
	case token.ADD:
		return x.wrap(st, in.Type(), Add(ta, tb))
	case token.SUB:
		return x.wrap(st, in.Type(), Sub(ta, tb))
	case token.MUL:
		return x.wrap(st, in.Type(), Mul(ta, tb))
	case token.QUO:
		if flt {
			if q := exactDiv(ta, tb); q != nil {
				return q
			}
			st.badf("floating point division in %s", in.Parent())
			return Fresh("fdiv", SInt)
		}
		return goDiv(st, ta, tb)
	case token.REM:
		return goMod(st, ta, tb)
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Lt(tb, ta)
	case token.GEQ:
		return Le(tb, ta)
	case token.SHL:
		return x.wrap(st, in.Type(), Mul(ta, Pow2(tb)))
	case token.SHR:
		if ta.op == OUF && ta.name == "reverse64" {
			// the lowest e bits reversed
			i, e := ta.args[0], Sub(I(64), tb)
			if st.pc.implied(And(Ge0(e), Le(e, I(64)))) && st.pc.implied(And(Ge0(i), Lt(i, Pow2(e)))) {
				return bitRev(Pow2(e), i)
			}
			return UF("shr", SInt, ta, tb)
		}
		return Div(ta, Pow2(tb))
	case token.AND:
		// masks 2^k-1
		if c, ok := tb.constInt(); ok && c >= 0 && (c&(c+1)) == 0 {
			return Mod(ta, I(c+1))
		}
		if c, ok := ta.constInt(); ok && c >= 0 && (c&(c+1)) == 0 {
			return Mod(tb, I(c+1))
		}
		return UF("bitand", SInt, ta, tb)
	case token.OR:
		return UF("bitor", SInt, ta, tb)
	case token.XOR:
		return UF("bitxor", SInt, ta, tb)
	}
	st.badf("binop %v", in.Op)
	return Fresh("binop", SInt)
}

func structEq(a, b Val) *Term {
	x, ok1 := a.(*StructV)
	y, ok2 := b.(*StructV)
	if !ok1 || !ok2 || len(x.f) != len(y.f) {
		return nil
	}
	var cs []*Term
	for i := range x.f {
		tx, k1 := x.f[i].(*Term)
		ty, k2 := y.f[i].(*Term)
		if k1 && k2 {
			cs = append(cs, Eq(tx, ty))
			continue
		}
		c := structEq(x.f[i], y.f[i])
		if c == nil {
			return nil
		}
		cs = append(cs, c)
	}
	return And(cs...)
}

// Go's division truncates; for nonnegative operands it is the Euclidean one
func goDiv(st *State, a, b *Term) *Term {
	if st.pc.implied(Ge0(a)) {
		return Div(a, b)
	}
	if q := exactDiv(a, b); q != nil {
		return q
	}
	return UF("truncdiv", SInt, a, b)
}
func goMod(st *State, a, b *Term) *Term {
	if st.pc.implied(Ge0(a)) {
		return Mod(a, b)
	}
	return UF("truncmod", SInt, a, b)
}

func strCat(a, b *Term) *Term {
	var parts []*Term
	for _, t := range []*Term{a, b} {
		if t.op == OUF && t.name == "strcat" {
			parts = append(parts, t.args...)
		} else {
			parts = append(parts, t)
		}
	}
	var out []*Term
	for _, t := range parts {
		if isLit(t) && litOf(t) == "" {
			continue
		}
		if len(out) > 0 && isLit(t) && isLit(out[len(out)-1]) {
			out[len(out)-1] = StrLit(litOf(out[len(out)-1]) + litOf(t))
			continue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return StrLit("")
	case 1:
		return out[0]
	}
	return UF("strcat", SStr, out...)
}
func isLit(t *Term) bool   { return t.op == OVar && strings.HasPrefix(t.name, "\"") }
func litOf(t *Term) string { return t.name[1 : len(t.name)-1] }

func (x *Exec) convert(p *Path, v Val, from, to types.Type) Val {
	st := p.st
	t, ok := v.(*Term)
	if !ok {
		if isByteSlice(from) {
			if s, ok := scalarSort(to); ok && s == SStr {
				if sl, ok := v.(SliceV); ok {
					return UF("strOf", SStr, st.sliceBytes(sl))
				}
			}
		}
		return v
	}
	if t.sort == SInt {
		if s, ok := scalarSort(to); ok && s == SInt {
			fb, fs := bitsOf(from)
			tb, ts := bitsOf(to)
			if tb == 64 || tb == 0 {
				if tb == 64 && !ts && fs && !st.pc.implied(Ge0(t)) && fb != 0 {
					// negative to unsigned: wraps
					return Ite(Ge0(t), t, Add(t, IntB(new(big.Int).Lsh(big.NewInt(1), 64))))
				}
				return t
			}
			return x.wrap(st, to, t)
		}
		if s, ok := scalarSort(to); ok && s == SStr {
			return UF("strOfInt", SStr, t)
		}
	}
	if t.sort == SStr && isByteSlice(to) {
		return st.newBytes(UF("bytesOf", SBytes, t))
	}
	return v
}

// ---------------------------------------------------------------- call dispatch

func (x *Exec) callee(p *Path, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		r := x.val(p, c.Value)
		args = append(args, r)
		for _, a := range c.Args {
			args = append(args, x.val(p, a))
		}
		return FuncV{name: "invoke." + c.Method.Name()}, args
	}
	for _, a := range c.Args {
		args = append(args, x.val(p, a))
	}
	return x.val(p, c.Value), args
}

func (x *Exec) doCall(p *Path, c *ssa.CallCommon, fn Val, args []Val) []Out {
	st := p.st
	f, ok := fn.(FuncV)
	if !ok {
		st.badf("call of %s", valString(fn))
		return []Out{{st: st, ret: x.poisonResults(c.Signature())}}
	}
	if c.IsInvoke() {
		return x.invoke(p.st, c, args)
	}
	if strings.HasPrefix(f.name, "builtin.") {
		return x.builtin(p, c, f.name[8:], args)
	}
	if f.name == "ghost.work" {
		return x.ghostWork(st, args)
	}
	if f.fn == nil {
		st.badf("call of unknown function")
		return []Out{{st: st, ret: x.poisonResults(c.Signature())}}
	}
	return x.call(f.fn, args, f.bind, st)
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, args []Val) []Out {
	recv := args[0]
	m := c.Method.Name()
	iv, ok := recv.(IfaceV)
	if !ok {
		if e, isErr := recv.(ErrV); isErr && m == "Error" {
			return []Out{{st: st, ret: []Val{UF("errstr", SStr, e.ok)}}}
		}
		st.badf("invoke %s on %s", m, valString(recv))
		return []Out{{st: st, ret: x.poisonResults(c.Signature())}}
	}
	// a method of a repo type?
	if fn := x.prog.method(iv.t, c.Method); fn != nil && len(fn.Blocks) > 0 && x.prog.inRepo(fn) {
		return x.call(fn, append([]Val{iv.v}, args[1:]...), nil, st)
	}
	return x.intrinsic("invoke."+m, c.Signature(), append([]Val{iv}, args[1:]...), st)
}

func one1(st *State, r ...Val) []Out { return []Out{{st: st, ret: r}} }

func (x *Exec) builtin(p *Path, c *ssa.CallCommon, name string, args []Val) []Out {
	st := p.st
	if name != "len" && name != "cap" {
		x.useAll(st, args)
	}
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case SliceV:
			if name == "len" {
				return one1(st, v.len)
			}
			return one1(st, v.cap)
		case *Term:
			if v.sort == SStr {
				return one1(st, UF("strlen", SInt, v))
			}
		}
		st.badf("len of %s", valString(args[0]))
		return one1(st, Fresh("len", SInt))
	case "append":
		a, ok1 := args[0].(SliceV)
		b, ok2 := args[1].(SliceV)
		if !ok1 || !ok2 {
			st.badf("append")
			return one1(st, Poison{"append"})
		}
		// with room behind the end it writes there, otherwise it moves to a new array
		room := tFalse
		if a.o != nil && a.cap != nil && !a.o.grown {
			room = Le(Add(a.len, b.len), a.cap)
		}
		switch st.pc.decide(room) {
		case 1:
			return one1(st, x.appendIn(st, a, b))
		case -1:
			return one1(st, x.appendSl(st, a, b))
		}
		if isBytesSlice(a) {
			return one1(st, x.appendSl(st, a, b)) // taken as moved
		}
		if x.explore > 0 && a.o != nil && a.len.op != OConst {
			st.assume(room) // a guess, which the closed form found with it must bear out
			return one1(st, x.appendIn(st, a, b))
		}
		q := st.clone()
		q.assume(Not(room))
		st.assume(room)
		in := x.appendIn(st, a, b)
		return []Out{{st: st, ret: []Val{in}}, {st: q, ret: []Val{x.appendSl(q, a, b)}}}
	case "copy":
		a, ok1 := args[0].(SliceV)
		b, ok2 := args[1].(SliceV)
		if ok1 && ok2 {
			return one1(st, x.copySl(st, a, b))
		}
		st.badf("copy")
		return one1(st, Fresh("n", SInt))
	case "close":
		x.closeChan(st, args[0])
		return one1(st)
	case "print", "println":
		return one1(st)
	case "min", "max":
		r, ok := args[0].(*Term)
		for _, a := range args[1:] {
			t, k := a.(*Term)
			if !ok || !k {
				break
			}
			if name == "min" {
				r = Min(r, t)
			} else {
				r = Max(r, t)
			}
		}
		return one1(st, r)
	case "recover":
		return one1(st, NilV{})
	}
	st.badf("builtin %s", name)
	return []Out{{st: st, ret: x.poisonResults(c.Signature())}}
}

// appendIn writes behind the end of a, which has room
func (x *Exec) appendIn(st *State, a, b SliceV) Val {
	n := Add(a.len, b.len)
	r := SliceV{o: a.o, path: a.path, off: a.off, len: n, cap: a.cap, elem: a.elem}
	if b.o != nil && b.len != zero {
		x.copySl(st, SliceV{o: a.o, path: a.path, off: Add(a.off, a.len), len: b.len, cap: Sub(a.cap, a.len), elem: a.elem}, b)
	}
	return r
}

func (x *Exec) appendSl(st *State, a, b SliceV) Val {
	el := a.elem
	if el == nil {
		el = b.elem
	}
	if el != nil && isByte(el) {
		return st.newBytes(Cat(st.sliceBytes(a), st.sliceBytes(b)))
	}
	// note: the result never aliases a (an append in place is only visible through an alias)
	arr := zeroArr(el)
	if whole, ok := st.grownArr(a); ok {
		arr = whole
	} else if a.o != nil {
		arr = x.writeElems(st, arr, zero, a, a.len)
	}
	if b.o != nil {
		arr = x.writeElems(st, arr, a.len, b, b.len)
	}
	n := Add(a.len, b.len)
	o := st.alloc("append", nil, arr)
	o.grown, o.maybeNil = true, a.o == nil || a.o.maybeNil
	if a.o != nil && a.o.grown {
		// it may or may not have moved: nothing may be done any more with what it was
		st.heap[a.o] = Poison{"a slice after an append to it"}
	}
	return SliceV{o: o, off: zero, len: n, cap: n, elem: el}
}

// grownArr: the content of the array of an append that moved, if s is all of it
func (st *State) grownArr(s SliceV) (*Arr, bool) {
	if s.o == nil || !s.o.grown || len(s.path) > 0 || s.off != zero {
		return nil, false
	}
	a, ok := st.heap[s.o].(*Arr)
	return a, ok
}

// elemAt reads element i of a slice, knowing 0 <= i < len
func (x *Exec) elemAt(st *State, s SliceV, i *Term) Val {
	old := st.pc
	st.pc = st.pc.and(Ge0(i)).and(Lt(i, s.len))
	v := st.load(Ptr{s.o, append(append([]PE{}, s.path...), PE{idx: Add(s.off, i)})})
	st.pc = old
	return v
}

func (x *Exec) copySl(st *State, a, b SliceV) *Term {
	n := Min(a.len, b.len)
	if a.o == nil || b.o == nil {
		return zero
	}
	if isByte(a.elem) {
		st.setBytes(SliceV{o: a.o, path: a.path, off: a.off, len: n, cap: a.cap, elem: a.elem}, st.sliceBytes(SliceV{o: b.o, path: b.path, off: b.off, len: n, cap: b.cap, elem: b.elem}))
		return n
	}
	base := st.loadPath(st.get(a.o), a.path)
	arr, ok := base.(*Arr)
	if !ok {
		st.badf("copy target")
		return n
	}
	st.heap[a.o] = st.storePath(st.get(a.o), a.path, x.writeElems(st, arr, a.off, b, n))
	return n
}

// writeElems: arr with the first n elements of s from index at on
func (x *Exec) writeElems(st *State, arr *Arr, at *Term, s SliceV, n *Term) *Arr {
	if n.op == OConst && n.n.IsInt64() && n.n.Int64() <= 64 {
		for i := int64(0); i < n.n.Int64(); i++ {
			arr = arr.write(Add(at, I(i)), Add(at, I(i+1)), Fresh("j", SInt), x.elemAt(st, s, I(i)))
		}
		return arr
	}
	j := Fresh("j", SInt)
	return arr.write(at, Add(at, n), j, x.elemAt(st, s, Sub(j, at)))
}
