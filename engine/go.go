package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines. A go statement runs the goroutine on the spot; this stands for every schedule provided that
//   - nobody else uses what it writes, and nobody writes what it reads, until it is known to have ended;
//   - it ends with exactly one signal: a Done of a WaitGroup, a send on a channel or its closing, after which it does
//     nothing more.
// Waiting for the signals of all goroutines joins them. Each WaitGroup and channel counts the goroutines that signal
// their end through it and that aren't joined yet ("out").

type goFrame struct {
	sig  *Obj   // what was signalled
	at   *State // the state at that time
	seen int
	in   *ssa.Go
	run  *loopRun
}

// guard: a goroutine that may still run uses o
type guard struct {
	o, sig *Obj
	in     *ssa.Go
	run    *loopRun // the loop that started it
	excl   bool     // it writes o
}

func hasGuard(l []*guard, g *guard) bool {
	for _, h := range l {
		if *h == *g {
			return true
		}
	}
	return false
}
func (s *State) addGuards(l []*guard) {
	for _, g := range l {
		if !hasGuard(s.guards, g) {
			s.guards = append(append([]*guard{}, s.guards...), g)
		}
	}
}
func (s *State) active(g *guard) bool {
	n, ok := s.get(g.sig).(*Nat)
	return !ok || !s.pc.implied(Eq0(nt(n, "out")))
}

// use: o is read or written here
func (s *State) use(o *Obj, write bool) {
	for _, g := range s.guards {
		if g.o == o && (write || g.excl) && !(s.g != nil && s.g.in == g.in && s.g.run == g.run) && s.active(g) {
			s.badf("%s is used while a goroutine of %s writes it, or written while one uses it", o.name, g.in.Parent())
			return
		}
	}
}
func (x *Exec) useAll(st *State, vs []Val) {
	if len(st.guards) == 0 {
		return
	}
	seen := map[*Obj]bool{}
	for _, v := range vs {
		x.reach(st, v, seen)
	}
	for o := range seen {
		st.use(o, true)
	}
}

// reach: the objects that v leads to, but for those that synchronise
func (x *Exec) reach(st *State, v Val, seen map[*Obj]bool) {
	obj := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		c := st.get(o)
		if _, nat := c.(*Nat); nat {
			return
		}
		seen[o] = true
		x.reach(st, c, seen)
	}
	switch v := v.(type) {
	case Ptr:
		obj(v.o)
	case SliceV:
		obj(v.o)
	case *StructV:
		for _, f := range v.f {
			x.reach(st, f, seen)
		}
	case *Arr:
		for _, w := range v.ws {
			x.reach(st, w.v, seen)
		}
	case IfaceV:
		x.reach(st, v.v, seen)
	case FuncV:
		for _, b := range v.bind {
			x.reach(st, b, seen)
		}
	case TupleV:
		for _, f := range v {
			x.reach(st, f, seen)
		}
	}
}

// spawned: an iteration of a loop started a goroutine that writes
type spawned struct {
	in  *ssa.Go
	sig *Obj
	pc  *PC
	ws  map[*Obj][]Wr
}

// spawn: a goroutine that is started in an iteration and signals to something older than the loop. Running it on the
// spot is right if it depends on nothing but what it changes itself (checked here), no two goroutines change the same
// (disjoint), and nobody else uses what they use until they have ended (guards).
func (x *Exec) spawn(in *ssa.Go, pre, post *State, sig *Obj, fn Val, args []Val, rerun func(st *State) []Out) string {
	r := x.runs[len(x.runs)-1]
	if n := len(x.runs); n > 1 && x.runs[n-2].base.st.heap[sig] != nil {
		return "it outlives more than one loop"
	}
	ws, why := writesOf(pre, post, sig)
	if why != "" {
		return why
	}
	for o := range ws {
		if x.ghost[o] {
			return "it writes a ghost"
		}
	}
	if x.explore == 0 {
		if why := x.independent(pre, post, sig, ws, rerun); why != "" {
			return why
		}
	}
	seen := map[*Obj]bool{}
	x.reach(pre, fn, seen)
	for _, a := range args {
		x.reach(pre, a, seen)
	}
	for o := range ws {
		seen[o] = true
	}
	for o := range seen {
		// what this iteration created is of no other
		if r.base.st.get(o) == nil || r.base.st.heap[o] == nil && o.fam == "" {
			continue
		}
		post.addGuards([]*guard{{o, sig, in, r, ws[o] != nil}})
	}
	r.gos = append(r.gos, &spawned{in, sig, post.pc, ws})
	return ""
}

// disjoint: the goroutines of different iterations change different things
func (r *loopRun) disjoint() string {
	for _, p := range r.gos {
		for _, q := range r.gos {
			c1, d := Fresh("c", SInt), Fresh("d", SInt)
			c2 := Add(c1, one, d)
			pc := r.base.st.pc.and(Ge0(c1)).and(Ge0(d))
			inst := func(s *spawned, c *Term) {
				fs, _ := s.pc.since(r.base.st.pc)
				for _, f := range fs {
					if !r.inner(f) {
						pc = pc.and(Subst(f, r.C, c))
					}
				}
			}
			inst(p, c1)
			inst(q, c2)
			if pc.inconsistent() {
				continue
			}
			if p.in != q.in {
				return "two goroutines of an iteration write shared variables"
			}
			for o, l := range p.ws {
				for _, w := range l {
					for _, v := range q.ws[o] {
						k := Fresh("k", SInt)
						f, g := w.touched(k), v.touched(k)
						if r.inner(f, k) || r.inner(g, k) {
							return "what a goroutine of an iteration writes isn't known: " + f.String()
						}
						f, g = Subst(f, r.C, c1), Subst(g, r.C, c2)
						pc2 := pc
						for _, h := range growth(And(f, g), d) {
							pc2 = pc2.and(h)
						}
						if !pc2.excludes(f, g) {
							return fmt.Sprintf("the goroutines of iterations %s and %s both write %s[%s] when %s and %s", c1, c2, o.name, k, f, g)
						}
					}
				}
			}
		}
	}
	return ""
}

// inner: does t have variables that an iteration brought up?
func (r *loopRun) inner(t *Term, but ...*Term) bool {
	found := false
	Rewrite(t, func(u *Term) *Term {
		if u.op == OVar && u != r.C && (len(but) == 0 || u != but[0]) {
			if i := strings.LastIndexByte(u.name, '!'); i >= 0 {
				if n, err := strconv.Atoi(u.name[i+1:]); err == nil && n > r.mark {
					found = true
				}
			}
		}
		return nil
	}, false)
	return found
}

// growth: d >= 0, so products of it with something that isn't negative aren't either
func growth(t, d *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	Rewrite(t, func(u *Term) *Term {
		if u.sort != SInt {
			return nil
		}
		for _, m := range monosOf(u) {
			with := false
			var fs []Factor
			for _, f := range m.fs {
				if f.a == d {
					with = true
				} else {
					fs = append(fs, f)
				}
			}
			if with && len(fs) > 0 {
				rest := one
				for _, f := range fs {
					if f.e != one {
						rest = nil
						break
					}
					rest = Mul(rest, f.a)
				}
				if rest != nil && !seen[rest] {
					seen[rest] = true
					out = append(out, Implies(Ge0(rest), Ge0(Mul(rest, d))))
				}
			}
		}
		return nil
	}, false)
	return out
}

// excludes: f and g can't both hold
func (p *PC) excludes(f, g *Term) bool {
	return p.and(f).and(g).inconsistent()
}

func (x *Exec) doGo(p *Path, in *ssa.Go, fn Val, args []Val) []Out {
	pre := p.st
	if why := captureRace(in); why != "" {
		pre.badf("%s", why)
	}
	q := pre.clone()
	var run *loopRun
	if n := len(x.runs); n > 0 {
		run = x.runs[n-1]
	}
	q.g = &goFrame{in: in, run: run}
	outs := x.doCall(&Path{st: q, env: p.env}, &in.Call, fn, args)
	for _, o := range outs {
		if o.panic {
			continue
		}
		g := o.st.g
		o.st.g = pre.g
		if g.seen != 1 {
			o.st.badf("a goroutine of %s signals its end %d times", in.Parent(), g.seen)
			continue
		}
		if why := x.quietSince(g.at, o.st); why != "" {
			o.st.badf("a goroutine of %s goes on after it signalled its end: %s", in.Parent(), why)
		}
		if why := x.sharedWrites(pre, o.st, g.sig); why != "" {
			why2 := "it has several outcomes"
			if len(outs) == 1 {
				rerun := func(st *State) []Out {
					st.g = &goFrame{in: in, run: run}
					return x.doCall(&Path{st: st, env: p.env}, &in.Call, fn, args)
				}
				if run != nil && run.base.st.heap[g.sig] != nil {
					why2 = x.spawn(in, pre, o.st, g.sig, fn, args, rerun)
				} else {
					why2 = x.deferWrites(pre, o.st, g.sig, rerun)
				}
			}
			if why2 != "" {
				o.st.badf("a goroutine of %s: %s (%s)", in.Parent(), why, why2)
			}
		}
		n := o.st.get(g.sig).(*Nat)
		o.st.heap[g.sig] = n.with("out", Add(nt(n, "out"), one))
	}
	return outs
}

// quietSince: nothing was done from a to b
func (x *Exec) quietSince(a, b *State) string {
	ws, why := newWrites(a, b)
	if why == "" {
		for o := range ws {
			why = "it writes " + o.name
		}
	}
	return why
}

// pending is what a goroutine writes to an array. It only shows when the goroutine is joined; until then its regions
// hold anything, and nobody may write them.
type pending struct {
	sig, o *Obj
	pre    *State
	ws     []Wr
	junk   *Arr
}

// deferWrites makes the writes of a goroutine pending. The goroutine must depend on nothing but its regions and what
// doesn't change while it runs.
func (x *Exec) deferWrites(pre, post *State, sig *Obj, rerun func(st *State) []Out) string {
	ws, why := writesOf(pre, post, sig)
	if why == "" {
		why = x.independent(pre, post, sig, ws, rerun)
	}
	if why != "" {
		return why
	}
	for o, l := range ws {
		n := pre.get(o).(*Arr)
		elem := n.elem
		for _, w := range l {
			j := Fresh("j", SInt)
			n = n.write(w.lo, w.hi, j, symVal(elem, Fresh("other", SAny).name, j))
		}
		post.heap[o] = n
		post.pend = append(append([]*pending{}, post.pend...), &pending{sig, o, pre, l, n})
	}
	return ""
}

func writesOf(pre, post *State, sig *Obj) (map[*Obj][]Wr, string) {
	q := post.clone()
	delete(q.heap, sig)
	p0 := pre.clone()
	delete(p0.heap, sig)
	return newWrites(p0, q)
}

// independent: what a goroutine writes depends on nothing but the rest of what it writes
func (x *Exec) independent(pre, post *State, sig *Obj, ws map[*Obj][]Wr, rerun func(st *State) []Out) string {
	// the rest of the arrays may change
	st2 := pre.clone()
	for o, l := range ws {
		if x.ghost[o] {
			return "it writes a ghost"
		}
		a := pre.get(o).(*Arr)
		n := symArr(a.elem, Fresh("other", SAny).name, nil)
		for _, w := range l {
			j := Fresh("j", SInt)
			v := (&State{pc: pre.pc.and(Le(w.lo, j)).and(Lt(j, w.hi)), heap: pre.heap}).arrRead(a, j)
			if w.sw != nil {
				v = pre.iteVal(w.sw.in(j), v, symVal(a.elem, Fresh("other", SAny).name, j))
			}
			n = n.write(w.lo, w.hi, j, v)
		}
		st2.heap[o] = n
	}
	outs := rerun(st2)
	if len(outs) != 1 || outs[0].panic || len(outs[0].st.bad) > len(pre.bad) {
		return "it can't be run by itself"
	}
	o2 := outs[0].st
	for o, v := range o2.heap {
		if old, had := st2.heap[o]; o == sig || ws[o] != nil || x.ghost[o] || (had && sameVal(old, v)) || (!had && o.fam == "") {
			continue
		} else if !had && sameVal(famContent(o), v) {
			continue
		}
		return "what it writes depends on the rest of the array"
	}
	for o, l := range ws {
		at := func(s *State, pc *PC, k *Term) Val {
			a, ok := s.get(o).(*Arr)
			if !ok {
				return Poison{"array"}
			}
			return (&State{pc: pc, heap: s.heap}).arrRead(a, k)
		}
		k := Fresh("k", SInt)
		out := o2.pc
		for _, w := range l {
			in := w.touched(k)
			pc := o2.pc.and(in)
			v1, v2 := at(post, post.pc.and(in), k), at(o2, pc, k)
			if hasPoison(v1) || hasPoison(v2) || !x.valEq(o2, pc, v2, v1) {
				return "what it writes depends on the rest of the array"
			}
			out = out.and(Not(in))
		}
		v1, v2 := at(st2, out, k), at(o2, out, k)
		if hasPoison(v2) || !x.valEq(o2, out, v1, v2) {
			return "where it writes depends on the rest of the array"
		}
	}
	return ""
}

// joined: the goroutines that signal to o have ended
func (x *Exec) joined(st *State, o *Obj) {
	n, ok := st.get(o).(*Nat)
	if !ok || len(st.pend) == 0 || !st.pc.implied(Eq0(nt(n, "out"))) {
		return
	}
	var rest []*pending
	mine := map[*Obj]bool{}
	for _, p := range st.pend {
		mine[p.o] = true
	}
	for _, p := range st.pend {
		if p.sig != o {
			rest = append(rest, p)
			continue
		}
		for q, v := range p.pre.heap {
			if _, nat := v.(*Nat); nat || mine[q] {
				continue
			}
			if !sameVal(st.get(q), v) {
				st.badf("%s is written while a goroutine runs", q.name)
			}
		}
		cur, ok := st.get(p.o).(*Arr)
		if !ok {
			st.badf("an array is replaced while a goroutine writes it")
			continue
		}
		for _, w := range p.ws {
			k := Fresh("k", SInt)
			pc := st.pc.and(Le(w.lo, k)).and(Lt(k, w.hi))
			a := (&State{pc: pc, heap: st.heap}).arrRead(cur, k)
			b := (&State{pc: pc, heap: st.heap}).arrRead(p.junk, k)
			if hasPoison(a) || !x.valEq(st, pc, a, b) {
				st.badf("%s is written by two goroutines at the same place", p.o.name)
			}
		}
		for _, w := range p.ws {
			cur = cur.write(w.lo, w.hi, w.x, w.v)
		}
		st.heap[p.o] = cur
	}
	st.pend = rest
}

// sharedWrites: what a goroutine writes, but for its signal and what the specification records
func (x *Exec) sharedWrites(pre, post *State, sig *Obj) string {
	if len(post.fall) != len(pre.fall) {
		return "it does I/O"
	}
	for p, c := range post.fs {
		if pre.fs[p] == nil || !sameVal(pre.fs[p], c) {
			return "it writes files"
		}
	}
	for o, v := range post.heap {
		old, had := pre.heap[o]
		if o == sig || x.ghost[o] || (had && sameVal(old, v)) || (!had && o.fam == "") {
			continue
		}
		if !had && sameVal(famContent(o), v) {
			continue
		}
		return "it writes the shared variable " + o.name
	}
	return ""
}

func (x *Exec) signal(st *State, o *Obj) {
	if st.g == nil {
		return
	}
	st.g = &goFrame{sig: o, seen: st.g.seen + 1, at: st.clone(), in: st.g.in, run: st.g.run}
}

func (x *Exec) syncOp(st *State, n string, a []Val) []Out {
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		st.badf("mutex")
		return one1(st)
	}
	o, w := x.nat(st, a[0], "waitgroup")
	if w == nil {
		st.badf("unknown WaitGroup %s", valString(a[0]))
		return one1(st)
	}
	switch n {
	case "(*sync.WaitGroup).Add":
		if st.g != nil {
			st.badf("a goroutine adds to the WaitGroup")
		}
		st.heap[o] = w.with("n", Add(nt(w, "n"), x.T(st, a[1], SInt)))
	case "(*sync.WaitGroup).Done":
		if st.g == nil {
			st.badf("Done outside a goroutine")
		}
		if !st.pc.implied(Ge0(Sub(nt(w, "n"), one))) {
			st.badf("Done may come before its Add")
		}
		st.heap[o] = w.with("n", Sub(nt(w, "n"), one))
		x.signal(st, o)
	case "(*sync.WaitGroup).Wait":
		if st.g != nil {
			st.badf("a goroutine waits")
		}
		if !st.pc.implied(Eq0(nt(w, "n"))) {
			st.badf("Wait: there isn't a Done for every Add")
		}
		st.heap[o] = w.with("out", zero)
		x.joined(st, o)
	}
	return one1(st)
}

func (x *Exec) send(p *Path, in *ssa.Send) {
	st := p.st
	o, w := x.nat(st, x.val(p, in.Chan), "chan")
	if w == nil || st.g == nil {
		st.badf("channel send")
		return
	}
	st.heap[o] = w.with("n", Add(nt(w, "n"), one))
	x.signal(st, o)
}
func (x *Exec) recv(p *Path, in *ssa.UnOp, v Val) {
	st := p.st
	p.env[in] = Poison{"received value"}
	o, w := x.nat(st, v, "chan")
	if w == nil || st.g != nil {
		st.badf("channel receive")
		return
	}
	if nt(w, "closed") == one && nt(w, "n") == zero {
		st.heap[o] = w.with("out", zero)
		x.joined(st, o)
		return
	}
	if nt(w, "closed") != zero || !st.pc.implied(Ge0(Sub(nt(w, "n"), one))) {
		st.badf("a receive may wait for a signal that never comes")
	}
	st.heap[o] = w.with("n", Sub(nt(w, "n"), one)).with("out", Sub(nt(w, "out"), one))
	x.joined(st, o)
}
func (x *Exec) closeChan(st *State, v Val) {
	o, w := x.nat(st, v, "chan")
	if w == nil {
		st.badf("close of %s", valString(v))
		return
	}
	if nt(w, "closed") != zero {
		st.badf("channel closed twice")
	}
	st.heap[o] = w.with("closed", one)
	if st.g == nil {
		st.closed = st.clone()
	}
	x.signal(st, o)
}

// unjoined tells whether goroutines may still run
func unjoined(st *State) string {
	for o, v := range st.heap {
		if n, ok := v.(*Nat); ok && n.f["out"] != nil {
			if !st.pc.implied(Eq0(nt(n, "out"))) {
				return "goroutines that signal to " + o.name + " aren't waited for"
			}
		}
	}
	return ""
}

// captureRace: a goroutine uses the variables it captures while it runs; none of them may be assigned between the go
// statement and the next time the variable is created
func captureRace(in *ssa.Go) string {
	vs := append([]ssa.Value{in.Call.Value}, in.Call.Args...)
	if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
		vs = append(vs, mc.Bindings...)
	}
	for _, v := range vs {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok || natKind(pt.Elem()) != "" {
			continue
		}
		switch a := v.(type) {
		case *ssa.Alloc:
			if s := assignedAfter(in, a, a); s != nil {
				return "the variable " + a.Comment + " that a goroutine of " + in.Parent().String() + " uses is assigned while it may run"
			}
		case *ssa.FreeVar:
			if s := assignedAfter(in, a, nil); s != nil {
				return "the captured variable " + a.Name() + " is assigned while a goroutine of " + in.Parent().String() + " may run"
			}
		case *ssa.Parameter, *ssa.Global:
		}
	}
	return ""
}

// assignedAfter finds an assignment of v that may run after in, before v is created anew
func assignedAfter(in ssa.Instruction, v ssa.Value, created ssa.Instruction) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			c := b.Instrs[i]
			if created != nil && c == created {
				return nil
			}
			if call, ok := c.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "(*sync.WaitGroup).Wait" {
				return nil
			}
			if s, ok := c.(*ssa.Store); ok && rootOf(s.Addr) == v {
				return s
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if s := walk(n, 0); s != nil {
					return s
				}
			}
		}
		return nil
	}
	b := in.Block()
	for i, c := range b.Instrs {
		if c == in {
			return walk(b, i+1)
		}
	}
	return nil
}
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); !ok {
				return v
			}
			v = a.X
		default:
			return v
		}
	}
}

// ---------------------------------------------------------------- the work given to Parallelize

// ghostWork records the range it is called with
func (x *Exec) ghostWork(st *State, a []Val) []Out {
	n := st.get(x.gN).(*Term)
	for k, o := range []*Obj{x.gLo, x.gHi} {
		st.heap[o] = st.arrWrite(st.get(o).(*Arr), n, x.T(st, a[k], SInt))
	}
	st.heap[x.gN] = Add(n, one)
	return one1(st)
}

func init() {
	specs["C21/parallelize"] = specParallelize
}

func specParallelize(c *Ctx) {
	for _, cpus := range []string{"default", "limited"} {
		w := c.world()
		x := w.x
		delete(x.contracts, modPath+"/common.Parallelize")
		it := types.Typ[types.Int]
		st := w.st
		x.gN = st.alloc("ranges", it, zero)
		x.gLo = st.alloc("starts", it, zeroArr(it))
		x.gHi = st.alloc("ends", it, zeroArr(it))
		x.ghost = map[*Obj]bool{x.gN: true, x.gLo: true, x.gHi: true}
		n := Var("nbIterations", SInt)
		st.assume(Ge0(n))
		max := zeroVal(types.NewSlice(it)).(SliceV)
		if cpus == "limited" {
			m := Var("maxCpus", SInt)
			st.assume(Ge0(Sub(m, one)))
			a := zeroArr(it).write(zero, one, Fresh("j", SInt), m)
			o := st.alloc("maxCpus", types.NewSlice(it), a)
			max = SliceV{o: o, off: zero, len: one, cap: one, elem: it}
		}
		nm := "Parallelize/" + cpus
		outs := w.run("/common", "Parallelize", n, FuncV{name: "ghost.work"}, max)
		c.ob(len(outs) > 0, nm+"/returns", "no outcome")
		for i, o := range outs {
			if o.st.pc.inconsistent() {
				continue
			}
			m := nm
			if len(outs) > 1 {
				m += "/path" + string(rune('0'+i))
			}
			if !c.ob(!o.panic, m+"/no-panic", "%s", o.why) {
				continue
			}
			w.clean(m, i, o)
			c.ob(unjoined(o.st) == "", m+"/waits-for-all", "%s", unjoined(o.st))
			k := o.st.get(x.gN).(*Term)
			lo := func(pc *PC, i *Term) *Term {
				return (&State{pc: pc, heap: o.st.heap}).arrRead(o.st.get(x.gLo).(*Arr), i).(*Term)
			}
			hi := func(pc *PC, i *Term) *Term {
				return (&State{pc: pc, heap: o.st.heap}).arrRead(o.st.get(x.gHi).(*Arr), i).(*Term)
			}
			pc := o.st.pc
			some := pc.and(Ge0(Sub(k, one)))
			c.ob(pc.and(Eq0(k)).implied(Eq0(n)), m+"/not-nothing", "nothing is processed of %s iterations", n)
			c.ob(some.implied(Eq0(lo(some, zero))), m+"/starts-at-0", "the first range starts at %s", lo(some, zero))
			c.ob(some.implied(Eq(hi(some, Sub(k, one)), n)), m+"/ends-at-n", "the last range ends at %s", hi(some, Sub(k, one)))
			j := Fresh("j", SInt)
			in := pc.and(Ge0(j)).and(Lt(j, k))
			c.ob(in.implied(Le(lo(in, j), hi(in, j))), m+"/ordered", "range %s: [%s,%s)", j, lo(in, j), hi(in, j))
			nx := in.and(Lt(Add(j, one), k))
			c.ob(nx.inconsistent() || nx.implied(Eq(hi(nx, j), lo(nx, Add(j, one)))), m+"/adjacent", "range %s ends at %s, the next starts at %s", j, hi(nx, j), lo(nx, Add(j, one)))
		}
	}
}

// pendIn: the iterations of a loop join the goroutines they start
func pendIn(start, end *State) {
	same := len(start.pend) == len(end.pend)
	for i := 0; same && i < len(start.pend); i++ {
		same = start.pend[i] == end.pend[i]
	}
	if !same {
		end.badf("a goroutine of a loop that writes shared variables outlives its iteration")
	}
}
