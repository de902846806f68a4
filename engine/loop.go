package main

// Loop invariants: every loop is replaced by closed forms of the modified locations as functions of an
// iteration clock. The closed forms are guessed from one symbolic iteration and then proved inductive:
// they hold initially, and one iteration from a state where they hold at clock c ends in a state where
// they hold at clock c+d. Nothing is assumed about the number of iterations.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugLoop = os.Getenv("VCG_LOOP") != ""

type lstep struct {
	field int
	key   string
}
type leaf struct {
	ph   *ssa.Phi
	o    *Obj
	fsp  *Term
	path []lstep
}

func (l *leaf) String() string {
	s := ""
	switch {
	case l.ph != nil:
		s = "phi " + l.ph.Name() + "(" + l.ph.Comment + ")"
	case l.o != nil:
		s = fmt.Sprintf("%s#%d", l.o.name, l.o.id)
	default:
		s = "file " + l.fsp.String()
	}
	for _, p := range l.path {
		if p.key != "" {
			s += "." + p.key
		} else {
			s += fmt.Sprintf(".%d", p.field)
		}
	}
	return s
}

func (l *leaf) get(p *Path) Val {
	var v Val
	switch {
	case l.ph != nil:
		v = p.env[l.ph]
	case l.o != nil:
		v = p.st.get(l.o)
	default:
		c := p.st.fs[l.fsp]
		if c == nil {
			return nil
		}
		v = c
	}
	for _, s := range l.path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[s.field]
		case *Nat:
			v = x.f[s.key]
		case SliceV:
			v = map[string]*Term{"off": x.off, "len": x.len, "cap": x.cap}[s.key]
		default:
			return Poison{"leaf"}
		}
	}
	return v
}
func setIn(v Val, path []lstep, n Val) Val {
	if len(path) == 0 {
		return n
	}
	switch x := v.(type) {
	case *StructV:
		f := append([]Val{}, x.f...)
		f[path[0].field] = setIn(x.f[path[0].field], path[1:], n)
		return &StructV{x.t, f}
	case *Nat:
		return x.with(path[0].key, setIn(x.f[path[0].key], path[1:], n))
	case SliceV:
		t, ok := n.(*Term)
		if !ok {
			return n
		}
		switch path[0].key {
		case "off":
			x.off = t
		case "len":
			x.len = t
		case "cap":
			x.cap = t
		}
		return x
	}
	return v
}
func (l *leaf) set(p *Path, n Val) {
	switch {
	case l.ph != nil:
		p.env[l.ph] = setIn(p.env[l.ph], l.path, n)
	case l.o != nil:
		p.st.heap[l.o] = setIn(p.st.get(l.o), l.path, n)
	default:
		p.st.fs[l.fsp] = n.(*Content)
	}
}

func diffVal(a, b Val, path []lstep, emit func([]lstep)) {
	if sameVal(a, b) {
		return
	}
	switch x := a.(type) {
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				diffVal(x.f[i], y.f[i], append(append([]lstep{}, path...), lstep{field: i}), emit)
			}
			return
		}
	case *Nat:
		if y, ok := b.(*Nat); ok && x.kind == y.kind {
			for k := range y.f {
				diffVal(x.f[k], y.f[k], append(append([]lstep{}, path...), lstep{key: k}), emit)
			}
			return
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && x.o != nil && x.o == y.o && samePath(x.path, y.path) && !isBytesSlice(a) && x.cap != nil && y.cap != nil {
			for _, d := range []struct {
				k    string
				a, b *Term
			}{{"off", x.off, y.off}, {"len", x.len, y.len}, {"cap", x.cap, y.cap}} {
				if d.a != d.b {
					emit(append(append([]lstep{}, path...), lstep{key: d.k}))
				}
			}
			return
		}
	}
	emit(path)
}

type loopRun struct {
	dead   map[*leaf]string
	garb   bool
	ahead  int // 1: unsolved arrays are taken as written below the clock only, 2: that did not help
	x      *Exec
	l      *Loop
	base   *Path
	prev   *ssa.BasicBlock
	leaves []*leaf
	idx    map[string]bool
	C      *Term
	D      *Term
	batch  bool
	// a counter that overshoots its bound
	overLeaf    *leaf
	overN, over *Term
	tmpl        map[*leaf]Val
	init        map[*leaf]Val
	unkv        map[*Term]bool   // unknown variables of this run
	unkn        map[string]*leaf // unknown array names
	invs        []*Term
	why         string
	guards      []*guard   // of goroutines that earlier iterations started
	gos         []*spawned // started by an iteration
	mark        int
	grow        map[growSlot]*Obj // arrays of the slices that grow
}

// growSlot: what holds a slice that grows: a phi, or a variable of its own
type growSlot struct {
	ph *ssa.Phi
	o  *Obj
}

func (g growSlot) get(p *Path) Val {
	if g.ph != nil {
		return p.env[g.ph]
	}
	return p.st.heap[g.o]
}
func (g growSlot) set(p *Path, v Val) {
	if g.ph != nil {
		p.env[g.ph] = v
	} else {
		p.st.heap[g.o] = v
	}
}

// growing: a slice that the loop appends to, with no room to begin with, gets an array of its own for the time of the loop
func (r *loopRun) growing() {
	for _, in := range r.l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if sl, ok := ph.Type().Underlying().(*types.Slice); ok && r.appended(ph) {
			r.growFrom(growSlot{ph: ph}, sl.Elem())
		}
	}
	for b := range r.l.blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !isAppend(c) {
				continue
			}
			ld, ok := c.Call.Args[0].(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			if pt, ok := r.base.env[ld.X].(Ptr); ok && len(pt.path) == 0 && pt.o.fam == "" {
				r.growFrom(growSlot{o: pt.o}, c.Type().Underlying().(*types.Slice).Elem())
			}
		}
	}
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func (r *loopRun) growFrom(g growSlot, el types.Type) {
	s, ok := g.get(r.base).(SliceV)
	if !ok || isByte(el) || r.grow[g] != nil {
		return
	}
	if s.o != nil && !s.o.grown && (s.len != s.cap || s.len != zero) {
		return // it may have room
	}
	if v, ok := r.x.appendSl(r.base.st, s, SliceV{off: zero, len: zero, cap: zero, elem: el}).(SliceV); ok {
		if r.grow == nil {
			r.grow = map[growSlot]*Obj{}
		}
		r.grow[g] = v.o
		g.set(r.base, v)
	}
}

// appended: the loop appends to what the phi holds
func (r *loopRun) appended(ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if !r.l.blocks[u.Block()] {
				continue
			}
			switch u := u.(type) {
			case *ssa.Call:
				if isAppend(u) && u.Call.Args[0] == v {
					return true
				}
			case *ssa.Phi:
				if rec(u) {
					return true
				}
			}
		}
		return false
	}
	return rec(ph)
}

// regrow: at the end of an iteration, what a growing slice has become takes the place of what it was
func (r *loopRun) regrow(p *Path) {
	type move struct {
		to, from *Obj
		v        Val
	}
	var ms []move
	slots := map[*Obj]bool{}
	for g, o := range r.grow {
		s, ok := g.get(p).(SliceV)
		if g.ph == nil {
			slots[g.o] = true
		}
		if !ok || s.o == o {
			continue
		}
		if a, ok := p.st.grownArr(s); ok {
			ms = append(ms, move{o, s.o, a})
			g.set(p, SliceV{o: o, off: zero, len: s.len, cap: s.cap, elem: s.elem})
		}
	}
	if len(ms) == 0 {
		return
	}
	for i, m := range ms {
		for _, n := range ms[:i] {
			if m.from == n.from {
				p.st.badf("two growing slices become one")
			}
		}
	}
	seen := map[*Obj]bool{}
	for _, ph := range r.l.header.Instrs {
		ph, ok := ph.(*ssa.Phi)
		if !ok {
			break
		}
		if r.grow[growSlot{ph: ph}] == nil {
			r.x.points(p.st, p.env[ph], seen)
		}
	}
	for o, v := range p.st.heap {
		if slots[o] {
			continue
		}
		for _, m := range ms {
			if o == m.from || o == m.to {
				v = nil
			}
		}
		if v != nil {
			r.x.points(p.st, v, seen)
		}
	}
	for g, o := range r.grow { // each in its own place only
		if s, ok := g.get(p).(SliceV); !ok || s.o != o {
			r.x.points(p.st, g.get(p), seen)
		}
	}
	for _, m := range ms {
		if seen[m.from] || seen[m.to] {
			p.st.badf("another pointer to a growing slice")
		}
	}
	for _, m := range ms {
		p.st.heap[m.to] = m.v
		p.st.heap[m.from] = Poison{"a slice after an append to it"}
	}
}

// points: the objects that v points to
func (x *Exec) points(st *State, v Val, seen map[*Obj]bool) {
	switch v := v.(type) {
	case Ptr:
		seen[v.o] = true
	case SliceV:
		seen[v.o] = true
	case *StructV:
		for _, f := range v.f {
			x.points(st, f, seen)
		}
	case *Arr:
		for _, w := range v.ws {
			x.points(st, w.v, seen)
		}
	case *Nat:
		for _, f := range v.f {
			x.points(st, f, seen)
		}
	case IfaceV:
		x.points(st, v.v, seen)
	case FuncV:
		for _, b := range v.bind {
			x.points(st, b, seen)
		}
	case TupleV:
		for _, f := range v {
			x.points(st, f, seen)
		}
	}
}

type iter struct {
	start *Path
	conts []*Path
	exits []Exit
	outs  []Out
}

func (r *loopRun) addLeaf(l *leaf) bool {
	k := l.String()
	if l.ph != nil {
		k = fmt.Sprintf("%p", l.ph) + k
	}
	if r.idx[k] {
		return false
	}
	r.idx[k] = true
	// a coarser leaf replaces finer ones
	for _, o := range r.leaves {
		if o.ph == l.ph && o.o == l.o && o.fsp == l.fsp && len(o.path) < len(l.path) {
			pre := true
			for i := range o.path {
				if o.path[i] != l.path[i] {
					pre = false
				}
			}
			if pre {
				return false
			}
		}
	}
	r.leaves = append(r.leaves, l)
	r.init[l] = l.get(r.base)
	return true
}

func isBytesSlice(v Val) bool {
	s, ok := v.(SliceV)
	return ok && s.elem != nil && isByte(s.elem)
}

func (r *loopRun) freshUnk(s Sort) *Term {
	v := Fresh("u", s)
	r.unkv[v] = true
	return v
}

// unknown value for an unsolved leaf
func (r *loopRun) unknown(p *Path, l *leaf, v0 Val) Val {
	switch v := v0.(type) {
	case *Term:
		u := r.freshUnk(v.sort)
		if l.ph != nil && len(l.path) == 0 && v.sort == SInt {
			// only a help for the exploration
			if bits, signed := bitsOf(l.ph.Type()); bits > 0 && bits < 64 && !signed {
				p.st.assume(Ge0(u))
				p.st.assume(Lt(u, IntB(new(big.Int).Lsh(big.NewInt(1), uint(bits)))))
			}
		}
		return u
	case *Arr:
		if _, ok := scalarSort(v.elem); ok {
			n := fmt.Sprintf("ua!%d", len(r.unkn)+1000*l0)
			freshCnt++
			n = fmt.Sprintf("ua!%d", freshCnt)
			r.unkn[n] = l
			a := symArr(v.elem, n, nil)
			if r.ahead == 1 {
				// taken as not written from index C on
				a.ws[0].lo, a.ws[0].hi = zero, r.C
				a.ws = append(append([]Wr{}, v.ws...), a.ws[0])
			}
			return a
		}
		return &Arr{elem: v.elem, ws: []Wr{{x: Fresh("j", SInt), v: Poison{"unknown array " + l.String()}}}}
	case *Content:
		pv := r.freshUnk(SAny)
		pl := r.freshUnk(SInt)
		return &Content{segs: []Seg{{n: one, x: Fresh("i", SInt), items: []Item{{"prefix", pv, pl}}}}}
	case ErrV:
		return ErrV{r.freshUnk(SBool)}
	}
	if isBytesSlice(v0) {
		b := r.freshUnk(SBytes)
		return r.frozen(p, b)
	}
	return Poison{"unknown " + l.String()}
}

const l0 = 0

func (r *loopRun) frozen(p *Path, b *Term) Val {
	o := p.st.alloc("frozen", nil, b)
	n := bytesLen(b)
	return SliceV{o: o, off: zero, len: n, cap: n, elem: types.Typ[types.Uint8]}
}

// materialise a template at clock c
func (r *loopRun) at(p *Path, v Val, c *Term) Val {
	v = substVal(v, map[*Term]*Term{r.C: c})
	return r.mat(p, v)
}
func (r *loopRun) mat(p *Path, v Val) Val {
	if b, ok := v.(bytesT); ok {
		return r.frozen(p, b.t)
	}
	return v
}

type bytesT struct{ t *Term }

func tAt(v Val, c, at *Term) Val {
	if b, ok := v.(bytesT); ok {
		return bytesT{Subst(b.t, c, at)}
	}
	return substVal(v, map[*Term]*Term{c: at})
}

func (r *loopRun) run() *iter {
	q := r.base.clone()
	r.unkv = map[*Term]bool{}
	r.unkn = map[string]*leaf{}
	for _, l := range r.leaves {
		if t, ok := r.tmpl[l]; ok {
			l.set(q, r.mat(q, t))
		} else {
			l.set(q, r.unknown(q, l, r.init[l]))
		}
	}
	q.st.assume(Ge0(r.C))
	for _, i := range r.invs {
		q.st.assume(i)
	}
	if r.over != nil {
		q.st.assume(Le(r.overN, r.over))
	}
	q.st.addGuards(r.guards)
	start := q.clone()
	start.st.bad = append([]string{}, q.st.bad...)
	x := r.x
	r.gos, r.mark = nil, freshCnt
	x.clocks = append(x.clocks, r.C)
	x.runs = append(x.runs, r)
	conts, exits, outs := x.runBlocks([]item{{p: q, blk: r.l.header, prev: r.prev, in: true}}, r.l, r.l.header)
	x.clocks = x.clocks[:len(x.clocks)-1]
	x.runs = x.runs[:len(x.runs)-1]
	it := &iter{start: start, exits: exits, outs: outs}
	for _, e := range exits {
		pendIn(start.st, e.p.st)
	}
	for _, o := range outs {
		pendIn(start.st, o.st)
	}
	for _, c := range conts {
		pendIn(start.st, c.p.st)
		if c.p.st.pc.inconsistent() {
			continue
		}
		ph, vs := x.phiVals(c.p, r.l.header, c.from)
		for i := range ph {
			c.p.env[ph[i]] = vs[i]
		}
		r.regrow(c.p)
		if r.batch && r.D.op == OMin {
			// the end of the batch, min(x,y)+C, may be written as min(x+C,y+C)
			end := Min(Add(r.D.args[0], r.C), Add(r.D.args[1], r.C))
			x.substPath(c.p, map[*Term]*Term{end: Add(r.C, r.D)})
		}
		if c.p.st.pc.implied(Eq0(r.C)) {
			c.p.st.assume(Eq0(r.C)) // at most one iteration: said as an equality
		}
		it.conts = append(it.conts, c.p)
	}
	return it
}

// modified adds the leaves changed by an iteration; reports whether there are new ones
func (r *loopRun) modified(it *iter) bool {
	n := false
	for _, c := range it.conts {
		for _, g := range c.st.guards {
			if !hasGuard(it.start.st.guards, g) && c.st.active(g) {
				r.guards = append(r.guards, g)
				it.start.st.addGuards([]*guard{g})
				n = true
			}
		}
		for _, in := range r.l.header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			diffVal(it.start.env[ph], c.env[ph], nil, func(path []lstep) {
				if r.addLeaf(&leaf{ph: ph, path: path}) {
					n = true
				}
			})
		}
		for o := range c.st.heap {
			v0 := it.start.st.get(o)
			if v0 == nil {
				continue
			}
			if _, was := it.start.st.heap[o]; !was && o.fam == "" {
				continue
			}
			diffVal(v0, c.st.heap[o], nil, func(path []lstep) {
				if r.addLeaf(&leaf{o: o, path: path}) {
					n = true
				}
			})
		}
		for p, v := range c.st.fs {
			v0 := it.start.st.fs[p]
			if v0 == nil {
				r.why = "a file is created in a loop"
				continue
			}
			if !sameVal(v0, v) && r.addLeaf(&leaf{fsp: p}) {
				n = true
			}
		}
	}
	return n
}

func (r *loopRun) hasUnk(t *Term) bool {
	bad := false
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if bad || seen[t] {
			return
		}
		seen[t] = true
		if r.unkv[t] {
			bad = true
			return
		}
		if t.op == OUF && strings.HasPrefix(t.name, "ua!") {
			if _, ok := r.unkn[strings.Split(t.name, ".")[0]]; ok {
				bad = true
				return
			}
		}
		if !r.garb && t.op == OUF && (strings.HasPrefix(t.name, "garbage") || strings.HasPrefix(t.name, "hash32g")) { // read at a position that isn't known yet
			for _, a := range t.args {
				if a == r.C {
					bad = true
					return
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a)
				rec(f.e)
			}
		}
		for _, l := range t.lin {
			rec(l.c)
			rec(l.p)
		}
	}
	rec(t)
	return bad
}
func (r *loopRun) valUnk(v Val) bool {
	b := false
	termsOf(v, func(t *Term) {
		if r.hasUnk(t) {
			b = true
		}
	})
	return b
}

func hasPoison(v Val) bool {
	switch v := v.(type) {
	case Poison:
		return true
	case *StructV:
		for _, f := range v.f {
			if hasPoison(f) {
				return true
			}
		}
	case *Arr:
		for _, w := range v.ws {
			if hasPoison(w.v) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- entry

func (x *Exec) loop(p *Path, l *Loop, prev *ssa.BasicBlock) ([]Exit, []Out) {
	fn := l.header.Parent()
	key := fmt.Sprintf("%s loop at %s", fn, x.prog.prog.Fset.Position(loopPos(l)))
	if ex, outs, ok := x.unroll(p, l, prev); ok {
		if x.loopsSeen[key] == "" {
			x.loopsSeen[key] = "unrolled (constant bound)"
		}
		return ex, outs
	}
	r := &loopRun{x: x, l: l, base: p, prev: prev, idx: map[string]bool{}, tmpl: map[*leaf]Val{}, init: map[*leaf]Val{}}
	x.phis(p, l.header, prev)
	r.growing()
	r.C = Fresh("q", SInt)
	r.D = one
	ex, outs, ok := r.solve()
	if !ok {
		x.loopsSeen[key] = "no invariant: " + r.why
		q := p.clone()
		q.st.badf("no invariant for the %s: %s", key, r.why)
		sig := fn.Signature
		return nil, append(outs, Out{st: q.st, ret: x.poisonResults(sig)})
	}
	if !strings.HasPrefix(x.loopsSeen[key], "no inv") {
		x.loopsSeen[key] = "invariant: " + r.describe()
	}
	return ex, outs
}

func loopPos(l *Loop) (best2 token.Pos) {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (best2 == 0 || in.Pos() < best2) {
				best2 = in.Pos()
			}
		}
	}
	return
}

func (r *loopRun) describe() string {
	var s []string
	for _, l := range r.leaves {
		v := r.tmpl[l]
		d := valString(v)
		if b, ok := v.(bytesT); ok {
			d = b.t.String()
		}
		if len(d) > 160 {
			d = d[:160] + "..."
		}
		s = append(s, l.String()+" = "+d)
	}
	return strings.Join(s, "; ")
}

// unroll executes loops whose header condition is a constant in every iteration
func (x *Exec) unroll(p *Path, l *Loop, prev *ssa.BasicBlock) ([]Exit, []Out, bool) {
	hif, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, false
	}
	// dry evaluation of the guard with the initial values
	decided := func(q *Path) int {
		t := q.clone()
		t.st.bad = nil
		c, _, _ := x.headerCond(t, l, hif)
		if c == tTrue {
			return 1
		}
		if c == tFalse {
			return -1
		}
		return 0
	}
	cur := p.clone()
	x.phis(cur, l.header, prev)
	if decided(cur) == 0 {
		return nil, nil, false
	}
	paths := []*Path{cur}
	var exits []Exit
	var outs []Out
	for k := int64(0); len(paths) > 0; k++ {
		if k > 20 || len(paths) > 200 {
			return nil, nil, false
		}
		var next []*Path
		for _, q := range paths {
			if decided(q) == 0 {
				return nil, nil, false
			}
			x.clocks = append(x.clocks, I(k))
			conts, ex, o := x.runBlocks([]item{{p: q, blk: l.header, prev: prev, in: true}}, l, l.header)
			x.clocks = x.clocks[:len(x.clocks)-1]
			exits = append(exits, ex...)
			outs = append(outs, o...)
			for _, c := range conts {
				x.phis(c.p, l.header, c.from)
				next = append(next, c.p)
			}
		}
		paths = next
	}
	return exits, outs, true
}

// headerCond evaluates the header block up to its branch (only when it has no calls)
func (x *Exec) headerCond(p *Path, l *Loop, hif *ssa.If) (*Term, *Path, bool) {
	for _, in := range l.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.Call:
			fn, args := x.callee(p, &in.Call)
			if f, ok := fn.(FuncV); !ok || !strings.HasPrefix(f.name, "builtin.") {
				return nil, p, false
			}
			rs := x.doCall(p, &in.Call, fn, args)
			p.env[in] = packRet(rs[0].ret)
		default:
			x.instr(p, in)
			if p.st == nil {
				return nil, p, false
			}
		}
	}
	c, ok := x.val(p, hif.Cond).(*Term)
	if !ok {
		return nil, p, false
	}
	return x.simpBool(p.st, c), p, true
}

// ---------------------------------------------------------------- solving

func (r *loopRun) fail(f string, a ...interface{}) ([]Exit, []Out, bool) {
	if r.why == "" {
		r.why = fmt.Sprintf(f, a...)
	}
	if debugLoop {
		fmt.Println("LOOP FAIL:", r.why)
	}
	return nil, nil, false
}

func (r *loopRun) solve() ([]Exit, []Out, bool) {
	r.x.explore++
	exploring := true
	defer func() {
		if exploring {
			r.x.explore--
		}
	}()
	x := r.x
	// 1. modified locations
	var it *iter
	for k := 0; ; k++ {
		if k > 12 {
			return r.fail("modified locations do not settle")
		}
		it = r.run()
		if k == 0 && len(it.conts) == 0 && len(r.leaves) == 0 {
			// the body never completes: no iteration
			return it.exits, it.outs, true
		}
		// untouched buffered readers: synchronise them first
		resync := false
		for _, c := range it.conts {
			for o, v := range c.st.heap {
				if n, ok := v.(*Nat); ok && n.kind == "breader" {
					if n0, ok := r.base.st.heap[o].(*Nat); ok && nt(n0, "touched") == tFalse && nt(n, "touched") == tTrue {
						r.x.source(r.base.st, Ptr{o: o})
						resync = true
					}
				}
			}
		}
		if resync {
			r.leaves, r.idx, r.init = nil, map[string]bool{}, map[*leaf]Val{}
			continue
		}
		if r.why != "" {
			return r.fail("")
		}
		if !r.modified(it) {
			break
		}
	}
	// 2. clock
	r.pickClock(it)
	if debugLoop {
		fmt.Printf("LOOP %s leaves=%d batch=%v D=%s\n", r.l.header.Parent(), len(r.leaves), r.batch, r.D)
		for _, l := range r.leaves {
			fmt.Println("   ", l, "=", valString(r.init[l]))
		}
	}
	// 3. closed forms, in rounds
	for round := 0; round < 14; round++ {
		it = r.run()
		if r.modified(it) {
			continue
		}
		if len(it.conts) == 0 {
			break
		}
		progress := false
		left := 0
		if r.addInvs(it) {
			progress = true
		}
		for _, l := range r.leaves {
			if _, ok := r.tmpl[l]; ok {
				continue
			}
			if t := r.guess(l, it); t != nil {
				if debugLoop {
					s := valString(t)
					if b, ok := t.(bytesT); ok {
						s = b.t.String()
					}
					fmt.Printf("  solved %s: %s\n", l, s)
				}
				r.tmpl[l] = r.tidy(t)
				progress = true
			} else {
				left++
			}
		}
		if !progress && left > 0 {
			progress = r.tryCounts()
		}
		if left == 0 && !progress {
			break
		}
		if r.ahead == 1 && !progress {
			r.ahead = 2
			continue
		}
		if !progress && !r.batch && r.ahead == 0 && r.arraysLeft() {
			r.ahead = 1
			continue
		}
		if !progress && !r.garb {
			r.garb = true
			continue
		}
		if !progress {
			// the rest is taken as dead: an arbitrary value that must not be read
			for _, l := range r.leaves {
				if _, ok := r.tmpl[l]; !ok {
					if debugLoop {
						fmt.Printf("  dead %s: %s\n", l, valString(l.get(it.conts[0])))
					}
					r.tmpl[l] = r.deadVal(l)
				}
			}
		}
	}
	// 4. the closed forms are inductive
	x.explore--
	exploring = false
	it = r.run()
	if r.modified(it) {
		return r.fail("further location modified: %v", r.leaves[len(r.leaves)-1])
	}
	for _, l := range r.leaves {
		t := r.tmpl[l]
		x.deadNow = r.dead[l]
		if l == r.overLeaf {
			continue // 0 is right for 0 < N, and at least N otherwise
		}
		if !x.tmplEq(r, r.base, r.base.st.pc, tAt(t, r.C, zero), r.init[l], r.base) {
			return r.fail("%v: closed form %s does not hold initially (%s)", l, valString(t), valString(r.init[l]))
		}
	}
	for _, c := range it.conts {
		for _, l := range r.leaves {
			x.deadNow = r.dead[l]
			if !r.inductive(l, c) {
				if debugLoop {
					fs, _ := c.st.pc.since(it.start.st.pc)
					fmt.Println("  NOT INDUCTIVE", l, fs)
				}
				return r.fail("%v: closed form %s is not preserved (%s)", l, tmplString(r.tmpl[l]), valString(l.get(c)))
			}
		}
		for _, i := range r.invs {
			if !c.st.pc.implied(Subst(i, r.C, Add(r.C, r.D))) {
				return r.fail("bound %s is not preserved", i)
			}
		}
		if r.batch && !c.st.pc.implied(Ge0(r.D)) {
			return r.fail("clock decreases")
		}
		if len(c.st.bad) > len(r.base.st.bad) {
			return r.fail("in the body: %s", c.st.bad[len(c.st.bad)-1])
		}
	}
	x.deadNow = ""
	if why := r.disjoint(); why != "" {
		return r.fail("%s", why)
	}
	for _, i := range r.invs {
		if !r.base.st.pc.implied(Subst(i, r.C, zero)) {
			return r.fail("bound %s does not hold initially", i)
		}
	}
	// 5. what every completed iteration established
	var q *QFact
	var lost []Fal
	if len(it.conts) > 0 {
		q = r.forall(it)
		for _, c := range it.conts {
			for _, f := range c.st.fall[len(r.base.st.fall):] {
				if c.st.pc.decide(f.lit) != 1 {
					lost = append(lost, Fal{Fresh("ignored", SBool), f.what + " error ignored in a loop of " + r.l.header.Parent().String()})
				}
			}
		}
	}
	fin := func(st *State) {
		if q != nil {
			st.pc = st.pc.andQ(q)
			// the last completed iteration
			for _, f := range q.body {
				if pureInt(f) && hasPow2(f) {
					st.assume(Implies(Lt(q.lo, q.hi), Subst(f, q.x, Sub(q.hi, one))))
				}
			}
		}
		st.fall = append(st.fall, lost...)
	}
	var exits []Exit
	for _, e := range it.exits {
		if e.p.st.pc.inconsistent() {
			continue
		}
		fin(e.p.st)
		r.resolveExit(e.p)
		exits = append(exits, e)
	}
	var outs []Out
	for _, o := range it.outs {
		if o.st.pc.inconsistent() {
			continue
		}
		fin(o.st)
		outs = append(outs, o)
	}
	return exits, outs, true
}

func tmplString(v Val) string {
	if b, ok := v.(bytesT); ok {
		return b.t.String()
	}
	return valString(v)
}

// deadVal: the location holds, after C iterations, whatever it holds then; nothing is known about it
func (r *loopRun) deadVal(l *leaf) Val {
	switch v := r.init[l].(type) {
	case *Arr:
		return r.deadArr(l, v)
	case *Content:
		return &Content{bad: "unknown content"}
	case *Term:
		if v.sort != SBytes && v.sort != SStr {
			return UF(r.deadName(l), v.sort, r.C)
		}
	}
	return Poison{"dead " + l.String()}
}
func (r *loopRun) deadName(l *leaf) string {
	if r.dead == nil {
		r.dead = map[*leaf]string{}
	}
	if r.dead[l] == "" {
		deadCnt++
		r.dead[l] = fmt.Sprintf("dead!%d", deadCnt)
	}
	return r.dead[l]
}

var deadCnt int

func (r *loopRun) deadArr(l *leaf, a *Arr) *Arr {
	return symArr(a.elem, r.deadName(l), []*Term{r.C})
}

// pickClock looks for a batch counter
func (r *loopRun) pickClock(it *iter) {
	if len(it.conts) == 0 {
		return
	}
	for _, l := range r.leaves {
		L, ok := l.get(it.start).(*Term)
		if !ok || L.sort != SInt || !r.unkv[L] {
			continue
		}
		v0, _ := r.init[l].(*Term)
		var d *Term
		good := true
		for _, c := range it.conts {
			v1, ok := l.get(c).(*Term)
			if !ok {
				good = false
				break
			}
			e := Sub(v1, L)
			if d != nil && e != d {
				good = false
			}
			d = e
		}
		if good && d != nil && d.isConst() && r.pickStride(l, L, v0, d, it) {
			return
		}
		if !good || d == nil || d.isConst() {
			continue
		}
		// only batch sizes: a minimum involving the counter itself
		hasMin := false
		for _, m := range monosOf(d) {
			for _, f := range m.fs {
				if f.a.op == OMin || f.a.op == OIte {
					hasMin = true
				}
			}
		}
		if !hasMin || !occurs(d, L) {
			continue
		}
		for _, neg := range []bool{true, false} {
			var t, D *Term
			if neg {
				t = Sub(v0, r.C)
				D = Subst(Neg(d), L, t)
			} else {
				t = Add(v0, r.C)
				D = Subst(d, L, t)
			}
			if r.hasUnk(D) {
				continue
			}
			// direction: the step is nonnegative inside the loop
			pc := it.conts[0].st.pc
			if pc.implied(Ge0(Subst(Neg(d), L, L))) == neg || pc.implied(Ge0(d)) == !neg {
				r.tmpl[l] = t
				r.D = D
				r.batch = true
				return
			}
		}
	}
}

// pickStride: a counter that advances by a constant stride B > 1 up to a bound N. The clock counts the part of the
// strides below N; past N the counter holds some value that is at least N.
func (r *loopRun) pickStride(l *leaf, L, v0, d *Term, it *iter) bool {
	if v0 == nil || v0 != zero || !r.base.st.pc.implied(Le(two, d)) {
		return false
	}
	var N *Term
	fs, _ := it.conts[0].st.pc.since(it.start.st.pc)
	for _, f := range fs {
		if f.op != OLe0 || !occurs(f, L) {
			continue
		}
		// N - L - 1 >= 0
		n := Add(Add(L, one), f.args[0])
		if !r.hasUnk(n) && !occurs(n, r.C) && r.base.st.pc.implied(Ge0(n)) {
			N = n
			break
		}
	}
	if N == nil {
		return false
	}
	for _, c := range it.conts {
		if !c.st.pc.implied(Lt(L, N)) {
			return false
		}
	}
	over := UF(Fresh("over", SInt).name, SInt, r.C)
	r.tmpl[l] = Ite(Lt(r.C, N), r.C, over)
	r.overLeaf, r.overN, r.over = l, N, over
	r.invs = append(r.invs, Le(r.C, N))
	r.D = Min(d, Sub(N, r.C))
	r.batch = true
	return true
}

// addInvs proposes bounds on the clock from the guards of completed iterations
func (r *loopRun) addInvs(it *iter) bool {
	if len(it.conts) == 0 {
		return false
	}
	var common []*Term
	fs, _ := it.conts[0].st.pc.since(r.base.st.pc)
	for _, f := range fs {
		if !pureInt(f) || r.hasUnk(f) || !occurs(f, r.C) {
			continue
		}
		all := true
		for _, c := range it.conts[1:] {
			if !c.st.pc.implied(f) {
				all = false
			}
		}
		if all {
			common = append(common, f)
		}
	}
	have := map[*Term]bool{}
	for _, i := range r.invs {
		have[i] = true
	}
	ch := false
	add := func(i *Term) bool {
		if i == tTrue || have[i] {
			return have[i]
		}
		known := r.base.st.pc.and(Ge0(r.C))
		for _, v := range r.invs {
			known = known.and(v)
		}
		if known.implied(i) {
			return true
		}
		if !r.base.st.pc.implied(Subst(i, r.C, zero)) {
			return false
		}
		for _, c := range it.conts {
			if !c.st.pc.and(i).implied(Subst(i, r.C, Add(r.C, r.D))) {
				return false
			}
		}
		have[i] = true
		r.invs = append(r.invs, i)
		if debugLoop {
			fmt.Println("  inv", i)
		}
		ch = true
		return true
	}
	for _, f := range common {
		if f.op == OLe0 {
			if r.batch {
				add(Ge0(Add(f.args[0], one)))
				continue
			}
			if add(Subst(f, r.C, Sub(r.C, one))) {
				continue
			}
		}
		if !r.batch {
			if g := Subst(f, r.C, Sub(r.C, one)); f.op != OOr {
				add(Or(Eq0(r.C), g))
			}
		}
	}
	return ch
}

// forall collects what holds after every completed iteration
func (r *loopRun) forall(it *iter) *QFact {
	if r.batch {
		return nil
	}
	j := Fresh("k", SInt)
	var body []*Term
	fs, _ := it.conts[0].st.pc.since(it.start.st.pc)
	for _, f := range fs {
		g := f
		if g.op == ONot {
			g = g.args[0]
		}
		if g.op == OVar {
			continue
		}
		all := true
		for _, c := range it.conts[1:] {
			if !c.st.pc.has(f) {
				all = false
			}
		}
		if all {
			body = append(body, Subst(f, r.C, j))
		}
	}
	// alternatives
	if len(it.conts) > 1 && len(it.conts) <= 6 {
		var alt []*Term
		for _, c := range it.conts {
			fs, _ := c.st.pc.since(it.start.st.pc)
			var cs []*Term
			for _, f := range fs {
				if pureInt(f) {
					cs = append(cs, f)
				}
			}
			alt = append(alt, And(cs...))
		}
		if o := Or(alt...); o != tTrue {
			body = append(body, Subst(o, r.C, j))
		}
	}
	if len(body) == 0 {
		return nil
	}
	return &QFact{zero, r.C, j, body}
}

// resolveExit expresses the clock at the exit
func (r *loopRun) resolveExit(p *Path) {
	fs, _ := p.st.pc.since(r.base.st.pc)
	var sols []*Term
	for _, f := range fs {
		if (f.op == OLe0 || f.op == OEq0 && f.args[0].sort == SInt) && occurs(f.args[0], r.C) {
			t := f.args[0]
			for _, m := range monosOf(t) {
				if len(m.fs) == 1 && m.fs[0].a == r.C && m.fs[0].e == one && m.c.IsInt64() {
					c := m.c.Int64()
					rest := Sub(t, MulC(c, r.C))
					if occurs(rest, r.C) {
						continue
					}
					if c == 1 {
						sols = append(sols, Neg(rest))
					} else if c == -1 {
						sols = append(sols, rest)
					} else if q := exactDiv(rest, I(-c)); q != nil {
						sols = append(sols, q)
					}
				}
			}
		}
	}
	sols = append(sols, zero)
	for pass := 0; pass < 2; pass++ {
		for _, s := range sols {
			if pass == 1 {
				s = Max(s, zero)
			}
			if p.st.pc.implied(Eq(r.C, s)) {
				r.x.substPath(p, map[*Term]*Term{r.C: s})
				return
			}
		}
	}
}

func (x *Exec) substPath(p *Path, m map[*Term]*Term) {
	for k, v := range p.env {
		p.env[k] = substVal(v, m)
	}
	p.st = substState(p.st, m)
}

func substState(s *State, m map[*Term]*Term) *State {
	for o, v := range s.heap {
		s.heap[o] = substVal(v, m)
	}
	for k, c := range s.fs {
		s.fs[k] = substVal(c, m).(*Content)
	}
	s.pc = substPC(s.pc, m)
	for i := range s.fall {
		s.fall[i].lit = SubstM(s.fall[i].lit, m)
	}
	return s
}

func substPC(p *PC, m map[*Term]*Term) *PC {
	var chain []*PC
	for c := p; c != nil; c = c.up {
		chain = append(chain, c)
	}
	var out *PC
	for i := len(chain) - 1; i >= 0; i-- {
		c := chain[i]
		if c.f != nil {
			out = out.and(SubstM(c.f, m))
			continue
		}
		q := &QFact{lo: SubstM(c.q.lo, m), hi: SubstM(c.q.hi, m), x: c.q.x}
		for _, b := range c.q.body {
			q.body = append(q.body, SubstM(b, m))
		}
		out = out.andQ(q)
	}
	return out
}

// ---------------------------------------------------------------- guessing closed forms

// merged value of a leaf over the continuing paths
func (r *loopRun) merged(l *leaf, it *iter) (Val, bool) { return r.mergedOf(l.get, it) }
func (r *loopRun) mergedOf(get func(c *Path) Val, it *iter) (Val, bool) {
	v := get(it.conts[len(it.conts)-1])
	same := true
	for _, c := range it.conts {
		if !sameVal(get(c), v) {
			same = false
		}
	}
	if same {
		return v, true
	}
	if len(it.conts) > 40 {
		return nil, false
	}
	// path conditions that tell the paths apart
	for i := len(it.conts) - 2; i >= 0; i-- {
		c := it.conts[i]
		fs, _ := c.st.pc.since(it.start.st.pc)
		var cs []*Term
		for _, f := range fs {
			everywhere := true
			for _, o := range it.conts {
				if !o.st.pc.has(f) {
					everywhere = false
				}
			}
			if !everywhere {
				cs = append(cs, f)
			}
		}
		// one fact that alone tells this path from the rest
		for _, f := range cs {
			alone := !r.hasUnk(f)
			for _, o := range it.conts[i+1:] {
				alone = alone && o.st.pc.has(Not(f))
			}
			if alone {
				cs = []*Term{f}
				break
			}
		}
		a := get(c)
		if isBytesSlice(a) || isBytesSlice(v) {
			return nil, false
		}
		v = r.mergeVal(And(cs...), a, v)
	}
	return v, !hasPoison(v)
}

func (r *loopRun) mergeVal(c *Term, a, b Val) Val {
	if x, ok := a.(*Arr); ok {
		if y, ok := b.(*Arr); ok {
			if sameVal(x, y) {
				return x
			}
			// one of them extends the other by writes: make them conditional
			if len(x.ws) >= len(y.ws) && wsPrefix(y, x) {
				return r.condWrites(y, x, c)
			}
			if len(y.ws) >= len(x.ws) && wsPrefix(x, y) {
				return r.condWrites(x, y, Not(c))
			}
			// both write the same cells last
			if k := len(x.ws) - 1; k >= 0 && len(y.ws) == k+1 {
				p, q := x.ws[k], y.ws[k]
				if p.lo != nil && q.lo != nil && p.lo == q.lo && p.hi == q.hi && wsPrefix(&Arr{ws: x.ws[:k]}, y) {
					j := Fresh("j", SInt)
					v := r.base.st.iteVal(c, substVal(p.v, map[*Term]*Term{p.x: j}), substVal(q.v, map[*Term]*Term{q.x: j}))
					return &Arr{elem: x.elem, ver: x.ver, ws: append(append([]Wr{}, x.ws[:k]...), Wr{lo: p.lo, hi: p.hi, x: j, v: v})}
				}
			}
			j := Fresh("j", SInt)
			st := r.base.st
			v := st.iteVal(c, st.arrRead(x, j), st.arrRead(y, j))
			return &Arr{elem: x.elem, ws: []Wr{{x: j, v: v}}}
		}
	}
	return r.base.st.iteVal(c, a, b)
}
func wsPrefix(a, b *Arr) bool {
	for i := range a.ws {
		p, q := a.ws[i], b.ws[i]
		if p.lo != q.lo || p.hi != q.hi || p.x != q.x || !sameVal(p.v, q.v) {
			return false
		}
	}
	return true
}
func (r *loopRun) condWrites(short, long *Arr, c *Term) Val {
	out := &Arr{elem: long.elem, ws: append([]Wr{}, short.ws...)}
	st := r.base.st
	for _, w := range long.ws[len(short.ws):] {
		if w.lo == nil {
			return Poison{"merge"}
		}
		cur := &Arr{elem: out.elem, ws: out.ws}
		var old Val
		if Sub(w.hi, w.lo) == one {
			old = st.arrRead(cur, w.lo)
		} else {
			old = st.arrRead(cur, w.x)
		}
		out.ws = append(out.ws, Wr{lo: w.lo, hi: w.hi, x: w.x, v: st.iteVal(c, w.v, old)})
	}
	return out
}

func (r *loopRun) guess(l *leaf, it *iter) Val {
	v0 := r.init[l]
	if v0 == nil {
		return nil
	}
	// bytes
	if isBytesSlice(v0) {
		return r.guessBytes(l, it)
	}
	switch L := l.get(it.start).(type) {
	case *Term:
		return r.guessTerm(l, L, v0.(*Term), it)
	case *Content:
		return r.guessContent(l, L, v0.(*Content), it)
	case *Arr:
		return r.guessArr(l, L, v0.(*Arr), it)
	case ErrV:
		e0, ok := v0.(ErrV)
		if !ok {
			return nil
		}
		for _, c := range it.conts {
			e, ok := l.get(c).(ErrV)
			if !ok || !c.st.pc.implied(e.ok) {
				return nil
			}
		}
		if e0.ok == tTrue {
			return ErrV{tTrue}
		}
		return nil
	}
	if _, isNil := v0.(NilV); isNil {
		// an error variable
		for _, c := range it.conts {
			e, ok := l.get(c).(ErrV)
			if _, nl := l.get(c).(NilV); nl {
				continue
			}
			if !ok || !c.st.pc.implied(e.ok) {
				return nil
			}
		}
		return NilV{}
	}
	return nil
}

// lastValue: the value left by the previous iteration
func (r *loopRun) lastValue(v0, e *Term) *Term {
	if r.batch {
		// as a function of the clock after the iteration
		c2 := Fresh("c2", SInt)
		h := Subst(e, r.C, Sub(c2, r.D)) // r.D still mentions C
		h = r.foldClock(e, c2)
		if h == nil {
			return nil
		}
		t := Subst(h, c2, r.C)
		if Subst(t, r.C, zero) == v0 {
			return t
		}
		return Ite(Eq0(r.C), v0, t)
	}
	t := Subst(e, r.C, Sub(r.C, one))
	if Subst(t, r.C, zero) == v0 {
		return t
	}
	return Ite(Eq0(r.C), v0, t)
}

// foldClock writes e (over C and D) as a function of c2 = C+D
func (r *loopRun) foldClock(e, c2 *Term) *Term {
	// replace the step by c2 - C and see whether C disappears
	h := SubstM(e, map[*Term]*Term{r.D: Sub(c2, r.C)})
	if occurs(h, r.C) {
		return nil
	}
	return h
}

func (r *loopRun) guessTerm(l *leaf, L, v0 *Term, it *iter) Val {
	// once set, never changed
	var setv *Term
	keep, other := false, false
	for _, c := range it.conts {
		v, ok := l.get(c).(*Term)
		if !ok {
			return nil
		}
		if v == L {
			keep = true
			continue
		}
		if setv != nil && setv != v {
			other = true
		}
		setv = v
	}
	if setv != nil && keep && !other && !r.hasUnk(setv) {
		// is the condition about L itself? (if not, the merge below handles it)
		about := false
		for _, c := range it.conts {
			fs, _ := c.st.pc.since(it.start.st.pc)
			for _, f := range fs {
				if occurs(f, L) {
					about = true
				}
			}
		}
		if !about {
			// only ever set by the first iteration
			about = true
			for _, c := range it.conts {
				if v, _ := l.get(c).(*Term); v != L && !c.st.pc.implied(Eq0(r.C)) {
					about = false
				}
			}
		}
		if about {
			e0 := r.base.st.pc.simp(Subst(setv, r.C, zero))
			return Ite(Eq0(r.C), v0, e0)
		}
	}
	mv, ok := r.merged(l, it)
	if !ok {
		return nil
	}
	v1, ok := mv.(*Term)
	if !ok || v1.sort != L.sort {
		return nil
	}
	if v1.sort != SInt && hasCond(v1) {
		v1 = r.commonPC(it).mergeCases(v1)
		if debugLoop {
			fmt.Println("  merged", l, v1, "under", r.commonPC(it).facts())
		}
	}
	if !r.hasUnk(v1) {
		if t := r.lastValue(v0, v1); t != nil {
			return t
		}
	}
	switch L.sort {
	case SInt:
		d := subIte(v1, L)
		if !r.hasUnk(d) {
			if !r.batch {
				if !occurs(d, r.C) {
					return Add(v0, Mul(d, r.C))
				}
				if t := r.countBelow(d); t != nil {
					return Add(v0, t)
				}
				if t := r.countInt(d); t != nil {
					return Add(v0, t)
				}
				// one of two steps
				if d.op == OIte && !occurs(d.args[1], r.C) && !occurs(d.args[2], r.C) && !hasCond(d.args[1]) && !hasCond(d.args[2]) {
					u := Ite(d.args[0], one, zero)
					t := r.countBelow(u)
					if t == nil {
						t = r.countInt(u)
					}
					if t != nil {
						return Add(v0, Mul(d.args[2], r.C), Mul(Sub(d.args[1], d.args[2]), t))
					}
				}
			} else if k := exactDiv(d, r.D); k != nil && !occurs(k, r.C) {
				return Add(v0, Mul(k, r.C))
			}
		}
		if t := r.saturating(v1, L, v0); t != nil && !r.batch {
			return t
		}
		if m := exactDiv(v1, L); m != nil && m == two && !r.batch {
			return Mul(v0, Pow2(r.C))
		}
	case SF, SG1, SG2:
		d := Sub(v1, L)
		if !r.hasUnk(d) {
			if t := r.sumUp(d); t != nil {
				return Add(v0, t)
			}
		}
		if L.sort == SF {
			m := Mul(v1, Inv(L))
			if !r.hasUnk(m) {
				if t := r.powUp(m); t != nil {
					return Mul(v0, t)
				}
			}
		}
	}
	return nil
}

// saturating: a counter that is decremented as long as it is positive
func (r *loopRun) saturating(v1, L, v0 *Term) *Term {
	if v1.op != OIte {
		return nil
	}
	c, a, b := v1.args[0], v1.args[1], v1.args[2]
	if b != L {
		c, a, b = Not(c), b, a
	}
	if b != L || Sub(L, a) != one || c != Le(one, L) || r.hasUnk(v0) || !r.base.st.pc.implied(Ge0(v0)) {
		return nil
	}
	return Max(Sub(v0, r.C), zero)
}

// countBelow: d is 1 as long as a saturating counter is positive, and then 0
func (r *loopRun) countBelow(d *Term) *Term {
	if d.op != OIte {
		return nil
	}
	c, a, b := d.args[0], d.args[1], d.args[2]
	if a == zero {
		c, a, b = Not(c), b, a
	}
	if a != one || b != zero || c.op != OLe0 {
		return nil
	}
	// c is max(bound-C,0) >= 1
	t, e := Add(c.args[0], one), (*Term)(nil)
	if t.op == OMax {
		for k := 0; k < 2; k++ {
			if t.args[k] == zero {
				e = Add(t.args[1-k], r.C)
			}
		}
	}
	if e == nil {
		return nil
	}
	if occurs(e, r.C) || r.hasUnk(e) || !r.base.st.pc.implied(Ge0(e)) {
		return nil
	}
	return Min(e, r.C)
}

// subIte is t - u, inside the alternatives of t
func subIte(t, u *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], subIte(t.args[1], u), subIte(t.args[2], u))
	}
	return Sub(t, u)
}

// commonPC: what every completed iteration knows
func (r *loopRun) commonPC(it *iter) *PC {
	if len(it.conts) == 1 {
		return it.conts[0].st.pc
	}
	pc := it.start.st.pc
	fs, _ := it.conts[0].st.pc.since(pc)
	for _, f := range fs {
		all := true
		for _, c := range it.conts[1:] {
			if !c.st.pc.has(f) {
				all = false
			}
		}
		if all {
			pc = pc.and(f)
		}
	}
	return pc
}

// countInt: sum of a 0/1 increment decided by a condition on the clock
func (r *loopRun) countInt(d *Term) *Term {
	if d.op != OIte || r.outer(d) {
		return nil
	}
	c := d.args[0]
	switch {
	case d.args[1] == one && d.args[2] == zero:
	case d.args[1] == zero && d.args[2] == one:
		c = Not(c)
	default:
		return nil
	}
	pc := r.base.st.pc.and(Ge0(r.C))
	for _, p := range preds {
		if q := p.at(r.C); p.cand && pc.implied(Or(And(q, c), And(Not(q), Not(c)))) {
			return p.cnt(r.C)
		}
	}
	if c.op == OLe0 {
		// below a bound (C <= e), or not
		for _, neg := range []bool{false, true} {
			q := c
			if neg {
				q = Not(c)
			}
			e := Add(q.args[0], r.C)
			if occurs(e, r.C) || r.hasUnk(e) || !r.base.st.pc.implied(Ge0(Add(e, one))) {
				continue
			}
			n := Min(Add(e, one), r.C)
			if neg {
				return Sub(r.C, n)
			}
			return n
		}
	}
	return counted(c, r.C, r.C)
}

// outer: does t depend on the clock of an enclosing loop?
func (r *loopRun) outer(t *Term) bool {
	for _, c := range r.x.clocks {
		if !c.isConst() && occurs(t, c) {
			return true
		}
	}
	return false
}

// powUp: the product of m over the elapsed clock
func (r *loopRun) powUp(m *Term) *Term {
	if !r.batch {
		if !occurs(m, r.C) {
			return PowF(m, r.C)
		}
		return nil
	}
	ms := monosOf(m)
	if len(ms) != 1 || ms[0].c.Cmp(big.NewInt(1)) != 0 {
		return nil
	}
	acc := F(1)
	for _, f := range ms[0].fs {
		k := exactDiv(f.e, r.D)
		if k == nil || occurs(k, r.C) || occurs(f.a, r.C) {
			return nil
		}
		acc = Mul(acc, PowF(f.a, Mul(k, r.C)))
	}
	return acc
}

// sumUp: the sum of increments d over the elapsed clock
func (r *loopRun) sumUp(d *Term) *Term {
	if !r.batch {
		x := Fresh("x", SInt)
		return SumR(zero, r.C, x, Subst(d, r.C, x))
	}
	d = r.rho(d)
	// d = T(C+D) - T(C)
	plus := O(d.sort)
	if d.sort == SF {
		plus = F(0)
		for _, m := range monosOf(d) {
			t := mkPoly(SF, []Mono{m})
			if occursTerm(t, r.D) {
				plus = Add(plus, t)
			}
		}
	} else {
		for _, lt := range linOf(d) {
			t := mkLin(d.sort, []LTerm{lt})
			if occursTerm(t, r.D) {
				plus = Add(plus, t)
			}
		}
	}
	c2 := Fresh("c2", SInt)
	h := SubstM(plus, map[*Term]*Term{r.D: Sub(c2, r.C)})
	if occurs(h, r.C) {
		return nil
	}
	T := Subst(h, c2, r.C)
	if Sub(Sub(plus, T), d) != zeroOf(d.sort) {
		if debugLoop {
			fmt.Println("  sumUp mismatch", d, "vs", T)
		}
		return nil
	}
	return Sub(T, Subst(T, r.C, zero))
}
func zeroOf(s Sort) *Term {
	if s == SF {
		return F(0)
	}
	if s == SInt {
		return zero
	}
	return O(s)
}
func occursTerm(t, v *Term) bool { return occursM(t, v, map[*Term]bool{}) }

// rho renames the coefficients sampled per batch, r(c, i) with 0 <= i < d, to one sequence over c+i:
// the batches partition the range, so this is a bijection between samples and sequence positions.
func (r *loopRun) rho(t *Term) *Term {
	return Rewrite(t, func(u *Term) *Term {
		if u.op != OUF || base(u.name) != "rnd" || len(u.args) < 2 {
			return nil
		}
		// the innermost two clocks are this loop's clock and an offset in the batch
		k := -1
		for i, a := range u.args {
			if occurs(a, r.C) && !(i > 0 && a == u.args[i-1]) {
				k = i
				break
			}
		}
		if k < 0 || k+1 >= len(u.args) || u.args[k] != r.C {
			return nil
		}
		args := append([]*Term{}, u.args[:k]...)
		args = append(args, Add(u.args[k], u.args[k+1]))
		args = append(args, u.args[k+2:]...)
		return UF("rho!"+strings.TrimPrefix(u.name, "rnd!"), SF, args...)
	}, false)
}

func (r *loopRun) guessBytes(l *leaf, it *iter) Val {
	var e *Term
	for _, c := range it.conts {
		s, ok := l.get(c).(SliceV)
		if !ok {
			return nil
		}
		n := len(c.st.bad)
		b := c.st.sliceBytes(s)
		if len(c.st.bad) > n {
			return nil
		}
		if e != nil && e != b {
			return nil
		}
		e = b
	}
	if r.hasUnk(e) || r.batch {
		return nil
	}
	st := r.base.clone().st
	b0 := st.sliceBytes(r.init[l].(SliceV))
	return bytesT{r.lastValue(b0, e)}
}

// newSegs: what was appended in this iteration
func newSegs(c *Content, start *Content) ([]Seg, bool) {
	if c.bad != "" || len(c.segs) < len(start.segs) {
		return nil, false
	}
	for i := range start.segs {
		p, q := start.segs[i], c.segs[i]
		if p.n != q.n || p.x != q.x || len(p.items) != len(q.items) {
			return nil, false
		}
		for j := range p.items {
			if p.items[j] != q.items[j] {
				return nil, false
			}
		}
	}
	return c.segs[len(start.segs):], true
}

func (r *loopRun) segOf(ns []Seg) (Seg, bool) {
	if !r.batch {
		x := Fresh("i", SInt)
		g := Seg{n: r.C, x: x}
		for _, s := range ns {
			if s.n != one {
				return Seg{}, false
			}
			for _, i := range s.items {
				g.items = append(g.items, Item{i.kind, Subst(i.t, r.C, x), Subst(i.size, r.C, x)})
			}
		}
		return g, true
	}
	if len(ns) != 1 || ns[0].n != r.D {
		return Seg{}, false
	}
	y := Fresh("i", SInt)
	g := Seg{n: r.C, x: y}
	for _, i := range ns[0].items {
		t := Subst(i.t, ns[0].x, Sub(y, r.C))
		z := Subst(i.size, ns[0].x, Sub(y, r.C))
		if occurs(t, r.C) || occurs(z, r.C) {
			return Seg{}, false
		}
		g.items = append(g.items, Item{i.kind, t, z})
	}
	return g, true
}

func (r *loopRun) guessContent(l *leaf, L, c0 *Content, it *iter) Val {
	var g Seg
	for k, c := range it.conts {
		cc, ok := l.get(c).(*Content)
		if !ok {
			return nil
		}
		ns, ok := newSegs(cc, L)
		if !ok {
			return nil
		}
		for _, s := range ns {
			for _, i := range s.items {
				if r.hasUnk(i.t) || r.hasUnk(i.size) || r.hasUnk(s.n) {
					return nil
				}
			}
		}
		h, ok := r.segOf(ns)
		if !ok {
			return nil
		}
		if k == 0 {
			g = h
			continue
		}
		if len(h.items) != len(g.items) {
			return nil
		}
		for i := range h.items {
			if h.items[i].kind != g.items[i].kind || Subst(h.items[i].t, h.x, g.x) != g.items[i].t {
				return nil
			}
		}
	}
	if len(g.items) == 0 {
		return c0
	}
	return &Content{bad: c0.bad, segs: append(append([]Seg{}, c0.segs...), g)}
}

// ---------------------------------------------------------------- arrays

func (r *loopRun) arraysLeft() bool {
	for _, l := range r.leaves {
		if _, ok := r.tmpl[l]; !ok {
			if a, ok := r.init[l].(*Arr); ok {
				if _, ok := scalarSort(a.elem); ok {
					return true
				}
			}
		}
	}
	return false
}

func uaName(a *Arr) string {
	if len(a.ws) == 0 || a.ws[0].lo != nil {
		return ""
	}
	if t, ok := a.ws[len(a.ws)-1].v.(*Term); ok && t.op == OUF && strings.HasPrefix(t.name, "ua!") {
		return t.name
	}
	return ""
}

func (r *loopRun) guessArr(l *leaf, L, a0 *Arr, it *iter) Val {
	if u := uaName(L); u != "" {
		if t := r.guessScatter(l, u, L, a0, it); t != nil {
			return t
		}
		if t := r.guessSelect(l, u, L, a0, it); t != nil {
			return t
		}
		if t := r.guessSwap(l, u, L, a0, it); t != nil {
			return t
		}
		if t := r.guessPermute(l, L, a0, it); t != nil {
			return t
		}
	}
	mv, ok := r.merged(l, it)
	if debugLoop {
		fmt.Println("  guessArr", l, ok, valString(mv))
	}
	if !ok {
		return nil
	}
	v1, ok := mv.(*Arr)
	if !ok {
		return nil
	}
	u := uaName(L)
	st := it.conts[0].st
	if u == "" {
		return nil
	}
	nbase := len(L.ws)
	if len(v1.ws) < nbase || !wsPrefix(&Arr{ws: L.ws}, v1) {
		// the base was replaced: additive arrays
		if len(v1.ws) == 1 && v1.ws[0].lo == nil {
			return r.guessAdditive(u, v1, a0)
		}
		return nil
	}
	ws := v1.ws[nbase:]
	if r.batch {
		return r.guessArrBatch(l, u, ws, a0, st)
	}
	if t := r.guessAhead(u, ws, a0); t != nil {
		return t
	}
	// sum of everything written as an update of element k
	out := a0
	for n, w := range ws {
		if w.lo == nil {
			return nil
		}
		v, ok := w.v.(*Term)
		if !ok {
			return nil
		}
		if Sub(w.hi, w.lo) != one {
			return nil
		}
		i := w.lo
		if r.hasUnk(i) {
			return nil
		}
		if n > 0 && occursUF(v, u) && len(ws) > 1 {
			// several writes with dependencies
			return nil
		}
		if !occurs(i, r.C) {
			// a fixed cell
			cell := UF(u, v.sort, i)
			c0, ok := r.base.st.arrRead(a0, i).(*Term)
			if !ok {
				return nil
			}
			if !r.hasUnk(v) {
				t := r.lastValue(c0, v)
				out = r.base.st.arrWrite(out, i, t)
				continue
			}
			if d := Sub(v, cell); (v.sort == SF || v.sort == SG1 || v.sort == SG2) && !r.hasUnk(d) {
				out = r.base.st.arrWrite(out, i, Add(c0, r.sumUp(d)))
				continue
			}
			return nil
		}
		// moving index a + b*q
		b := Sub(Subst(i, r.C, Add(r.C, one)), i)
		a := Subst(i, r.C, zero)
		if (b == one || b == I(-1)) && !occurs(b, r.C) {
			j := Fresh("j", SInt)
			var q *Term // iteration that wrote index j
			var lo, hi *Term
			if b == one {
				q = Sub(j, a)
				lo, hi = a, Add(a, r.C)
			} else {
				q = Sub(a, j)
				lo, hi = Add(Sub(a, r.C), one), Add(a, one)
			}
			if !occursUF(v, u) {
				if r.hasUnk(v) {
					return nil
				}
				out = out.write(lo, hi, j, Subst(v, r.C, q))
				continue
			}
			// in place: only the own element is read
			rpc := r.base.st.pc.and(Ge0(r.C)).and(Le(lo, j)).and(Lt(j, hi))
			for _, i := range r.invs {
				rpc = rpc.and(i)
			}
			own := (&State{pc: rpc, heap: r.base.st.heap}).arrRead(a0, j)
			ownT, ok := own.(*Term)
			if !ok {
				return nil
			}
			w2 := SubstM(v, map[*Term]*Term{UF(u, v.sort, i): Var("own!", v.sort)})
			if !occursUF(w2, u) && !r.hasUnk(w2) {
				t := Subst(w2, r.C, q)
				t = SubstM(t, map[*Term]*Term{Var("own!", v.sort): ownT})
				out = out.write(lo, hi, j, t)
				continue
			}
			// recurrence on the previous element
			if b == one {
				prevE := UF(u, v.sort, Sub(i, one))
				start, ok := r.base.st.arrRead(a0, Sub(a, one)).(*Term)
				if !ok {
					return nil
				}
				if v.sort == SF {
					m := Mul(v, Inv(prevE))
					if !r.hasUnk(m) && !occurs(m, r.C) {
						out = out.write(lo, hi, j, Mul(start, PowF(m, Add(q, one))))
						continue
					}
				}
				d := Sub(v, prevE)
				if !r.hasUnk(d) {
					y := Fresh("y", SInt)
					out = out.write(lo, hi, j, Add(start, SumR(zero, Add(q, one), y, Subst(d, r.C, y))))
					continue
				}
			}
			return nil
		}
		// compaction: the cells of the indices that satisfy a predicate, one after the other
		if nw := r.guessCompact(u, i, v, it.start.st.arrRead(L, i)); nw != nil {
			out = out.write(nw.lo, nw.hi, nw.x, nw.v)
			continue
		}
		return nil
	}
	return out
}

// guessSwap: element i of a region of n elements is swapped with element bitrev(n,i) if that comes later (or earlier)
func (r *loopRun) guessSwap(l *leaf, u string, L, a0 *Arr, it *iter) Val {
	if r.batch {
		return nil
	}
	var off, n, idx *Term
	for _, c := range it.conts {
		v, ok := l.get(c).(*Arr)
		if !ok || len(v.ws) < len(L.ws) || !wsPrefix(&Arr{ws: L.ws}, v) {
			return nil
		}
		ws := v.ws[len(L.ws):]
		if len(ws) == 0 {
			continue
		}
		if len(ws) != 2 || idx != nil {
			return nil
		}
		for k := range ws {
			w, o := ws[k], ws[1-k]
			if w.lo == nil || Sub(w.hi, w.lo) != one || r.hasUnk(w.lo) {
				return nil
			}
			// w writes i, o writes off + bitrev(n, i-off)
			for _, m := range monosOf(o.lo) {
				if len(m.fs) == 1 && m.fs[0].a.op == OUF && m.fs[0].a.name == "bitrev" && m.fs[0].e == one {
					t := m.fs[0].a
					b := Sub(o.lo, t)
					if !occursUF(w.lo, "bitrev") && Sub(w.lo, t.args[1]) == b && !occurs(b, r.C) && !occurs(t.args[0], r.C) {
						off, n, idx = b, t.args[0], t.args[1]
						if w.v != Val(UF(u, w.v.(*Term).sort, o.lo)) || o.v != Val(UF(u, w.v.(*Term).sort, w.lo)) {
							return nil
						}
					}
				}
			}
		}
		if idx == nil {
			return nil
		}
	}
	if idx == nil || Sub(Subst(idx, r.C, Add(r.C, one)), idx) != one {
		return nil
	}
	lo, hi := Subst(idx, r.C, zero), Add(Subst(idx, r.C, zero), r.C)
	j := Fresh("j", SInt)
	rev := bitRev(n, Sub(j, off))
	// the one of k and rev that comes first was passed
	sw := &swapSet{off, n, lo, hi, false}
	for _, c := range it.conts {
		if v := l.get(c).(*Arr); len(v.ws) > len(L.ws) && c.st.pc.implied(Lt(bitRev(n, idx), idx)) {
			sw.last = true
		}
	}
	return r.swapped(a0, sw, j, rev)
}

func (r *loopRun) swapped(a0 *Arr, sw *swapSet, j, rev *Term) *Arr {
	st := &State{pc: r.base.st.pc, heap: r.base.st.heap}
	a, b := st.arrRead(a0, Add(sw.off, rev)), st.arrRead(a0, j)
	out := a0.write(sw.off, Add(sw.off, sw.n), j, r.base.st.iteVal(sw.in(j), a, b))
	out.ws[len(out.ws)-1].sw = sw
	return out
}

// guessPermute: every iteration exchanges the elements of the next part of a region
func (r *loopRun) guessPermute(l *leaf, L, a0 *Arr, it *iter) Val {
	if r.batch {
		return nil
	}
	var sw *swapSet
	last := func(c *Path) *swapSet {
		v, ok := l.get(c).(*Arr)
		if !ok || len(v.ws) != len(L.ws)+1 || !wsPrefix(&Arr{ws: L.ws}, v) {
			return nil
		}
		return v.ws[len(L.ws)].sw
	}
	for _, c := range it.conts {
		s := last(c)
		if s == nil || sw != nil && (sw.off != s.off || sw.n != s.n || sw.lo != s.lo || sw.last != s.last) {
			return nil
		}
		sw = s
	}
	if sw == nil || r.hasUnk(sw.off) || r.hasUnk(sw.n) || r.hasUnk(sw.lo) || occurs(sw.off, r.C) || occurs(sw.n, r.C) {
		return nil
	}
	h, ok := r.mergedOf(func(c *Path) Val { return last(c).hi }, it)
	if !ok || r.hasUnk(h.(*Term)) {
		return nil
	}
	t := &swapSet{sw.off, sw.n, Subst(sw.lo, r.C, zero), Subst(h.(*Term), r.C, Sub(r.C, one)), sw.last}
	j := Fresh("j", SInt)
	return r.swapped(a0, t, j, bitRev(t.n, Sub(j, t.off)))
}

// guessAhead: several cells are updated in every iteration, of which no other iteration reads or writes one
func (r *loopRun) guessAhead(u string, ws []Wr, a0 *Arr) Val {
	if len(ws) < 2 {
		return nil
	}
	deps := false
	for _, w := range ws {
		v, ok := w.v.(*Term)
		if !ok || w.lo == nil || Sub(w.hi, w.lo) != one || r.hasUnk(w.lo) {
			return nil
		}
		if b := Sub(Subst(w.lo, r.C, Add(r.C, one)), w.lo); b != one && b != I(-1) {
			return nil
		}
		deps = deps || occursUF(v, u)
	}
	if !deps {
		return nil
	}
	out := a0
	for _, w := range ws {
		j := Fresh("j", SInt)
		a := Subst(w.lo, r.C, zero)
		q, lo, hi := Sub(j, a), a, Add(a, r.C)
		if Sub(Subst(w.lo, r.C, one), a) != one {
			q, lo, hi = Sub(a, j), Add(Sub(a, r.C), one), Add(a, one)
		}
		pc := r.base.st.pc.and(Ge0(r.C)).and(Le(lo, j)).and(Lt(j, hi))
		for _, i := range r.invs {
			pc = pc.and(i)
		}
		ok := true
		v := Rewrite(Subst(w.v.(*Term), r.C, q), func(t *Term) *Term {
			if t.op == OUF && t.name == u {
				c, is := (&State{pc: pc, heap: r.base.st.heap}).arrRead(a0, t.args[0]).(*Term)
				ok = ok && is
				return c
			}
			return nil
		}, false)
		if !ok || r.hasUnk(v) {
			return nil
		}
		out = out.write(lo, hi, j, v)
	}
	return out
}

// guessCompact: v is written at a + cnt(C) when the counted predicate holds at C
func (r *loopRun) guessCompact(u string, i, v *Term, old Val) *Wr {
	for _, m := range monosOf(i) {
		if len(m.fs) != 1 || m.fs[0].e != one || m.c.Cmp(big.NewInt(1)) != 0 {
			continue
		}
		t := m.fs[0].a
		if t.op != OUF || !strings.HasPrefix(t.name, "cnt#") || t.args[0] != r.C {
			continue
		}
		a := Sub(i, t)
		p := predNamed(t.name)
		if occurs(a, r.C) || p == nil {
			continue
		}
		c, val := p.at(r.C), true
		if c.op == ONot {
			c, val = c.args[0], false
		}
		if o, ok := old.(*Term); !ok || assumeCond(v, c, !val) != o && assumeCond(v, c, !val) != UF(u, v.sort, i) {
			continue
		}
		w := assumeCond(v, c, val)
		if r.hasUnk(w) || occursUF(w, u) {
			continue
		}
		j := Fresh("j", SInt)
		return &Wr{lo: a, hi: i, x: j, v: Subst(w, r.C, p.pos(Sub(j, a)))}
	}
	return nil
}

// tryCounts tries the counts of the candidate predicates for the integers that are left
func (r *loopRun) tryCounts() bool {
	if r.batch {
		return false
	}
	for _, l := range r.leaves {
		v0, ok := r.init[l].(*Term)
		if _, done := r.tmpl[l]; done || !ok || v0.sort != SInt {
			continue
		}
		for _, p := range preds {
			if !p.cand {
				continue
			}
			r.tmpl[l] = Add(v0, p.cnt(r.C))
			it := r.run()
			good := len(it.conts) > 0
			for _, c := range it.conts {
				good = good && r.inductive(l, c)
			}
			if good {
				if debugLoop {
					fmt.Printf("  counts %s: %s\n", l, p.name)
				}
				return true
			}
			delete(r.tmpl, l)
		}
	}
	return false
}

// guessSelect: the cells of the indices that satisfy a candidate predicate, one after the other
func (r *loopRun) guessSelect(l *leaf, u string, L, a0 *Arr, it *iter) Val {
	if r.batch {
		return nil
	}
	var w []*Path
	at := map[*Path]Wr{}
	for _, c := range it.conts {
		v, ok := l.get(c).(*Arr)
		if !ok || len(v.ws) < len(L.ws) || !wsPrefix(&Arr{ws: L.ws}, v) {
			return nil
		}
		switch ws := v.ws[len(L.ws):]; {
		case len(ws) == 0:
		case len(ws) == 1 && ws[0].lo != nil && Sub(ws[0].hi, ws[0].lo) == one && !r.hasUnk(ws[0].lo):
			t, ok := ws[0].v.(*Term)
			if !ok || r.hasUnk(t) || occursUF(t, u) {
				return nil
			}
			w = append(w, c)
			at[c] = ws[0]
		default:
			return nil
		}
	}
	if len(w) == 0 {
		return nil
	}
next:
	for _, p := range preds {
		if !p.cand {
			continue
		}
		for _, c := range it.conts {
			q, ok := at[c]
			if ok && (!c.st.pc.implied(p.at(r.C)) || !c.st.pc.equal(q.lo, p.cnt(r.C)) || !c.st.pc.equal(q.v.(*Term), at[w[0]].v.(*Term))) {
				continue next
			}
			if !ok && !c.st.pc.implied(Not(p.at(r.C))) {
				continue next
			}
		}
		j := Fresh("j", SInt)
		return a0.write(zero, p.cnt(r.C), j, Subst(at[w[0]].v.(*Term), r.C, p.pos(j)))
	}
	return nil
}

// guessScatter: every path adds something to at most one cell, the same on all paths
func (r *loopRun) guessScatter(l *leaf, u string, L, a0 *Arr, it *iter) Val {
	if r.batch {
		return nil
	}
	var i *Term
	delta := map[*Path]*Term{}
	var sort Sort
	for _, c := range it.conts {
		v, ok := l.get(c).(*Arr)
		if !ok || len(v.ws) < len(L.ws) || !wsPrefix(&Arr{ws: L.ws}, v) {
			return nil
		}
		for _, w := range v.ws[len(L.ws):] {
			if w.lo == nil || Sub(w.hi, w.lo) != one || r.hasUnk(w.lo) {
				return nil
			}
			if i == nil {
				i = w.lo
			}
			if w.lo != i {
				return nil
			}
		}
	}
	if i == nil || !occurs(i, r.C) {
		return nil
	}
	for _, c := range it.conts {
		v := l.get(c).(*Arr)
		t, ok := c.st.arrRead(v, i).(*Term)
		if !ok || (t.sort != SF && t.sort != SG1 && t.sort != SG2) {
			return nil
		}
		sort = t.sort
		d := Sub(t, UF(u, t.sort, i))
		if r.hasUnk(d) {
			return nil
		}
		delta[c] = d
	}
	dv, ok := r.mergedOf(func(c *Path) Val { return delta[c] }, it)
	if !ok {
		return nil
	}
	d := dv.(*Term)
	k, y := Fresh("k", SInt), Fresh("y", SInt)
	ind := Ind(Eq(k, Subst(i, r.C, y)))
	dy := Subst(d, r.C, y)
	inc := Scale(ind, dy)
	if sort == SF {
		inc = Mul(ind, dy)
	}
	c0, ok := r.base.st.arrRead(a0, k).(*Term)
	if !ok || r.hasUnk(inc) {
		return nil
	}
	return &Arr{elem: a0.elem, ws: []Wr{{x: k, v: Add(c0, SumR(zero, r.C, y, inc))}}}
}

// guessAdditive: every element is increased by something
func (r *loopRun) guessAdditive(u string, v1 *Arr, a0 *Arr) Val {
	w := v1.ws[0]
	v, ok := w.v.(*Term)
	if !ok || (v.sort != SF && v.sort != SG1 && v.sort != SG2) || r.batch {
		return nil
	}
	d := Sub(v, UF(u, v.sort, w.x))
	if r.hasUnk(d) {
		return nil
	}
	c0, ok := r.base.st.arrRead(a0, w.x).(*Term)
	if !ok {
		return nil
	}
	return &Arr{elem: a0.elem, ws: []Wr{{x: w.x, v: Add(c0, r.sumUp(d))}}}
}

// in batch mode a buffer is overwritten by every batch: it is dead, but for fixed cells
func (r *loopRun) guessArrBatch(l *leaf, u string, ws []Wr, a0 *Arr, st *State) Val {
	out := r.deadArr(l, a0)
	for _, w := range ws {
		if w.lo == nil || Sub(w.hi, w.lo) != one || occurs(w.lo, r.C) {
			continue
		}
		v, ok := w.v.(*Term)
		if !ok {
			continue
		}
		if r.hasUnk(v) {
			if !r.garb {
				return nil
			}
			continue
		}
		c0, ok := r.base.st.arrRead(a0, w.lo).(*Term)
		if !ok {
			return nil
		}
		t := r.lastValue(c0, v)
		if t == nil {
			if !r.garb {
				return nil
			}
			continue
		}
		out = r.base.st.arrWrite(out, w.lo, t)
	}
	return out
}

func occursUF(t *Term, name string) bool {
	seen := map[*Term]bool{}
	r := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if r || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OUF && t.name == name {
			r = true
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a)
				rec(f.e)
			}
		}
		for _, l := range t.lin {
			rec(l.c)
			rec(l.p)
		}
	}
	rec(t)
	return r
}

// collectUF gives the applications of the function in t
func collectUF(t *Term, name string) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OUF && t.name == name {
			r = append(r, t)
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a)
				rec(f.e)
			}
		}
		for _, l := range t.lin {
			rec(l.c)
			rec(l.p)
		}
	}
	rec(t)
	return r
}

// ---------------------------------------------------------------- checking

// tmplEq compares a template value with a program value
func (x *Exec) tmplEq(r *loopRun, p *Path, pc *PC, t Val, v Val, vp *Path) bool {
	if b, ok := t.(bytesT); ok {
		s, ok := v.(SliceV)
		if !ok {
			return false
		}
		st := vp.st.clone()
		n := len(st.bad)
		c := st.sliceBytes(s)
		return len(st.bad) == n && pc.equal(b.t, c)
	}
	return x.valEq(vp.st, pc, t, v)
}

func (x *Exec) valEq(st *State, pc *PC, t, v Val) bool {
	if sameVal(t, v) {
		return true
	}
	switch a := t.(type) {
	case Poison:
		return true
	case *Term:
		b, ok := v.(*Term)
		if ok && a.op == OUF && x.deadNow != "" && (a.name == x.deadNow || strings.HasPrefix(a.name, x.deadNow+".")) {
			return true // by definition
		}
		return ok && pc.equal(a, b)
	case *StructV:
		b, ok := v.(*StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !x.valEq(st, pc, a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case *Arr:
		b, ok := v.(*Arr)
		if !ok {
			return false
		}
		k := Fresh("k", SInt)
		s2 := st.clone()
		s2.pc = pc
		return x.arrEq(s2, pc, a, b, k)
	case *Content:
		b, ok := v.(*Content)
		if a.bad != "" {
			return true
		}
		return ok && contentEq(pc, a, b)
	case ErrV:
		switch b := v.(type) {
		case ErrV:
			return a.ok == b.ok || pc.implied(Eq(a.ok, b.ok))
		case NilV:
			return pc.implied(a.ok)
		}
	case NilV:
		if b, ok := v.(ErrV); ok {
			return pc.implied(b.ok)
		}
	case SliceV:
		b, ok := v.(SliceV)
		return ok && a.o == b.o && samePath(a.path, b.path) && pc.equal(a.off, b.off) && pc.equal(a.len, b.len)
	}
	return false
}

// arrEq compares two arrays at every index, region by region
func (x *Exec) arrEq(st *State, pc *PC, a, b *Arr, k *Term) bool {
	// split on the region of k
	var conds []*Term
	for _, arr := range []*Arr{a, b} {
		for _, w := range arr.ws {
			if w.lo != nil && Sub(w.hi, w.lo) == one {
				conds = append(conds, Eq(k, w.lo))
			} else if w.lo != nil {
				conds = append(conds, Le(w.lo, k), Lt(k, w.hi))
			}
		}
	}
	var rec func(pc *PC, i int) bool
	rec = func(pc *PC, i int) bool {
		for ; i < len(conds); i++ {
			switch pc.decide(conds[i]) {
			case 0:
				return rec(pc.and(conds[i]), i+1) && rec(pc.and(Not(conds[i])), i+1)
			case 1:
				if conds[i].op == OEq0 {
					pc = pc.and(conds[i])
				}
			}
		}
		if pc.inconsistent() {
			return true
		}
		s := &State{pc: pc, heap: st.heap, fs: st.fs}
		va, vb := s.arrRead(a, k), s.arrRead(b, k)
		if hasPoison(va) {
			return true
		}
		r := x.valEq(s, pc, va, vb)
		for i := 0; i < len(conds) && !r; i++ {
			// k is known
			if c := conds[i]; c.op == OEq0 && pc.has(c) {
				for _, arr := range []*Arr{a, b} {
					for _, w := range arr.ws {
						if w.lo != nil && !r && Eq(k, w.lo) == c {
							r = x.valEq(s, pc, substVal(va, map[*Term]*Term{k: w.lo}), substVal(vb, map[*Term]*Term{k: w.lo}))
						}
					}
				}
			}
		}
		if !r && debugLoop {
			fmt.Println("  array mismatch:", valString(va), "vs", valString(vb), "under", pc.facts())
		}
		return r
	}
	return rec(pc, 0)
}

// dropEmpty leaves out the sections without items
func dropEmpty(pc *PC, c *Content) *Content {
	out := &Content{bad: c.bad}
	for _, s := range c.segs {
		if s.n != zero && (s.n.isConst() || !pc.equal(s.n, zero)) {
			out.segs = append(out.segs, s)
		}
	}
	return out
}

func contentEq(pc *PC, a, b *Content) bool {
	a, b = dropEmpty(pc, a), dropEmpty(pc, b)
	if b.bad != "" || len(a.segs) != len(b.segs) {
		return false
	}
	for i := range a.segs {
		p, q := a.segs[i], b.segs[i]
		if len(p.items) != len(q.items) || !pc.equal(p.n, q.n) {
			return false
		}
		pc2 := pc.and(Ge0(p.x)).and(Lt(p.x, p.n))
		for j := range p.items {
			if p.items[j].kind != q.items[j].kind {
				return false
			}
			t := q.items[j].t
			if q.x != p.x {
				t = Subst(t, q.x, p.x)
			}
			if !pc2.equal(p.items[j].t, t) {
				return false
			}
		}
	}
	return true
}

// inductive: after one iteration the leaf has the closed form at clock C+D
func (r *loopRun) inductive(l *leaf, c *Path) bool {
	t := r.tmpl[l]
	v := l.get(c)
	if l == r.overLeaf {
		e, ok := v.(*Term)
		next := Add(r.C, r.D)
		pc := c.st.pc
		return ok && pc.and(Lt(next, r.overN)).implied(Eq(e, next)) && pc.and(Le(r.overN, next)).implied(Le(r.overN, e))
	}
	if ct, ok := t.(*Content); ok {
		cv, ok := v.(*Content)
		if !ok {
			return false
		}
		if ct.bad != "" {
			return true
		}
		c0 := r.init[l].(*Content)
		if len(ct.segs) == len(c0.segs) {
			return sameVal(ct, cv)
		}
		ns, ok := newSegs(cv, ct)
		if !ok {
			return false
		}
		h, ok := r.segOf(ns)
		if !ok {
			return false
		}
		g := ct.segs[len(ct.segs)-1]
		if len(g.items) != len(h.items) {
			return false
		}
		// compare the items written in this iteration
		at := r.C
		pc := c.st.pc
		if r.batch {
			at = h.x
			pc = pc.and(Le(r.C, h.x)).and(Lt(h.x, Add(r.C, r.D)))
		}
		for i := range g.items {
			ht := Subst(h.items[i].t, h.x, at)
			if g.items[i].kind != h.items[i].kind || !pc.equal(Subst(g.items[i].t, g.x, at), ht) {
				return false
			}
		}
		return true
	}
	if vt, ok := v.(*Term); ok && r.batch && (vt.sort == SF || vt.sort == SG1 || vt.sort == SG2) {
		v = r.rho(vt)
	}
	next := tAt(t, r.C, Add(r.C, r.D))
	if b, ok := next.(bytesT); ok {
		next = bytesT{stepCounts(b.t, r.C)}
	} else {
		next = mapVal(next, func(t *Term) *Term { return stepCounts(t, r.C) })
	}
	return r.x.tmplEq(r, c, c.st.pc, next, v, c)
}

// tidy simplifies a closed form within the range of its indices
func (r *loopRun) tidy(t Val) Val {
	pc := r.base.st.pc.and(Ge0(r.C))
	for _, i := range r.invs {
		pc = pc.and(i)
	}
	switch t := t.(type) {
	case *Arr:
		out := &Arr{elem: t.elem, ver: t.ver}
		for _, w := range t.ws {
			if v, ok := w.v.(*Term); ok && w.lo != nil && hasCond(v) {
				w.v = pc.and(Le(w.lo, w.x)).and(Lt(w.x, w.hi)).mergeCases(v)
			}
			out.ws = append(out.ws, w)
		}
		return out
	case *Content:
		out := &Content{bad: t.bad}
		for _, s := range t.segs {
			n := Seg{n: s.n, x: s.x}
			for _, i := range s.items {
				if hasCond(i.t) {
					i.t = pc.and(Ge0(s.x)).and(Lt(s.x, s.n)).mergeCases(i.t)
				}
				n.items = append(n.items, i)
			}
			out.segs = append(out.segs, n)
		}
		return out
	}
	return t
}

func hasPow2(t *Term) bool {
	r := false
	Rewrite(t, func(u *Term) *Term {
		if u.op == OPow2 {
			r = true
		}
		return nil
	}, false)
	return r
}
