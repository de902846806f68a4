package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- helpers of the contracts

// world is a pre-state: files and assumptions
type world struct {
	defs map[string]func(i *Term) *Term // functions with a known definition
	c    *Ctx
	x    *Exec
	st   *State
}

func (c *Ctx) world() *world { return &world{c: c, x: c.exec(), st: newState()} }

func (w *world) intVar(name string, lo, hi int64) *Term {
	v := Var(name, SInt)
	w.st.assume(And(Ge0(Sub(v, I(lo))), Ge0(Sub(I(hi), v))))
	return v
}

// file makes a pre-existing file
func (w *world) file(name string, segs ...Seg) *Term {
	p := Var(name, SStr)
	w.st.fs[p] = &Content{segs: segs}
	return p
}

func it(kind string, t *Term) Item { return mkItem(kind, t) }

// sq is a sequence of n items, f gives them for index i
func sq(n *Term, f func(i *Term) []Item) Seg {
	i := Fresh("i", SInt)
	return Seg{n: n, x: i, items: f(i)}
}
func sq1(kind string, n *Term, f func(i *Term) *Term) Seg {
	return sq(n, func(i *Term) []Item { return []Item{it(kind, f(i))} })
}

// run executes a function of the repository
func (w *world) run(pkg, name string, args ...Val) []Out {
	f := w.c.prog.fn(pkg, name)
	if f == nil {
		w.c.ob(false, pkg+"."+name, "function not found")
		return nil
	}
	outs := w.x.call(f, args, nil, w.st.clone())
	w.c.done(w.x)
	if verbose {
		for l, h := range w.x.loopsSeen {
			fmt.Println("LOOP", l, h)
		}
		for i, o := range outs {
			fmt.Printf("OUT %d ret=%s panic=%v %s bad=%v\n", i, valString(TupleV(o.ret)), o.panic, o.why, o.st.bad)
			for _, f := range o.st.pc.facts() {
				fmt.Println("    fact", f)
			}
			for _, f := range o.st.pc.qfacts() {
				fmt.Println("    qfact", f)
			}
			for p, cc := range o.st.fs {
				fmt.Println("    file", p, cc)
			}
		}
	}
	return outs
}

func (c *Ctx) failWhy(name string, why []string) {
	c.ob(len(why) == 0, name, "%s", strings.Join(why, "; "))
}

// succeeded splits the outcomes of a call whose last result is an error
func (w *world) split(name string, outs []Out) (okOuts, errOuts []Out) {
	for i, o := range outs {
		if o.panic {
			if !o.st.pc.inconsistent() {
				w.c.ob(false, name+"/no-panic", "path %d panics: %s (%v)", i, o.why, tail(o.st.pc.facts(), 6))
			}
			continue
		}
		if len(o.ret) == 0 {
			okOuts = append(okOuts, o)
			continue
		}
		switch e := o.ret[len(o.ret)-1].(type) {
		case NilV:
			okOuts = append(okOuts, o)
		case ErrV:
			switch o.st.pc.decide(e.ok) {
			case 1:
				okOuts = append(okOuts, o)
			case -1:
				errOuts = append(errOuts, o)
			default:
				a, b := o, o
				a.st, b.st = o.st.clone(), o.st.clone()
				a.st.assume(e.ok)
				b.st.assume(Not(e.ok))
				okOuts, errOuts = append(okOuts, a), append(errOuts, b)
			}
		default:
			w.c.ob(false, name+"/result", "path %d returns %s as error", i, valString(o.ret[len(o.ret)-1]))
		}
	}
	return
}

func tail(ts []*Term, n int) []*Term {
	if len(ts) > n {
		return ts[len(ts)-n:]
	}
	return ts
}

// reader consumes a content item by item
type cur struct {
	w    *world
	pc   *PC
	segs []Seg
	bad  string
	k    int
}

func (w *world) cursor(st *State, path *Term) *cur {
	c := st.fs[path]
	if c == nil {
		return &cur{w: w, pc: st.pc, bad: "file was not written"}
	}
	return &cur{w: w, pc: st.pc, segs: append([]Seg{}, c.segs...), bad: c.bad}
}

func (q *cur) fail(f string, a ...interface{}) {
	if q.bad == "" {
		q.bad = fmt.Sprintf(f, a...)
	}
}

// take consumes n repetitions of the items given by f
func (q *cur) take(what string, n *Term, f func(i *Term) []Item) {
	if q.bad != "" {
		return
	}
	done := zero
	for q.pc.decide(Eq(done, n)) != 1 && done != n {
		for len(q.segs) > 0 && q.pc.equal(q.segs[0].n, zero) {
			q.segs = q.segs[1:]
		}
		if len(q.segs) == 0 {
			q.fail("%s: the file ends after %s of %s", what, done, n)
			return
		}
		s := q.segs[0]
		left := Sub(n, done)
		m := s.n
		if !q.pc.implied(Le(s.n, left)) {
			if !q.pc.implied(Le(left, s.n)) {
				q.fail("%s: section of %s items where %s are left", what, s.n, left)
				return
			}
			m = left
		}
		i := Fresh("i", SInt)
		pc := q.pc.and(Ge0(i)).and(Lt(i, m))
		want := f(Add(done, i))
		if s.n == one {
			s = q.shape(want)
		}
		if len(want) != len(s.items) {
			// a single record: items may be spread over segments
			if m == one && s.n == one && len(s.items) < len(want) {
				if !q.single(what, f(done)) {
					return
				}
				done = Add(done, one)
				continue
			}
			q.fail("%s: record of %d items instead of %d", what, len(s.items), len(want))
			return
		}
		for k := range want {
			g := s.items[k]
			if g.kind != want[k].kind || g.t.sort != want[k].t.sort {
				q.fail("%s: item %d is %s instead of %s", what, k, g.kind, want[k].kind)
				return
			}
			gt := Subst(g.t, s.x, i)
			if m == one {
				gt = Subst(gt, i, zero)
				if !q.pc.equal(gt, Subst(want[k].t, i, zero)) {
					q.fail("%s: item %d is %s instead of %s", what, k, q.pc.simp(gt), q.pc.simp(Subst(want[k].t, i, zero)))
					return
				}
				continue
			}
			if !pc.equal(gt, want[k].t) {
				q.fail("%s: item %d at %s is %s instead of %s", what, k, i, pc.simp(gt), pc.simp(want[k].t))
				return
			}
		}
		done = Add(done, m)
		if m == s.n || q.pc.equal(m, s.n) {
			q.segs = q.segs[1:]
		} else {
			ns := Seg{n: Sub(s.n, m), x: s.x}
			for _, g := range s.items {
				ns.items = append(ns.items, Item{g.kind, Subst(g.t, s.x, Add(s.x, m)), Subst(g.size, s.x, Add(s.x, m))})
			}
			q.segs[0] = ns
		}
	}
}

// shape makes the next record, written in other pieces, into the first of the wanted items: the bytes of a
// number become the number, and what belongs to the next record becomes another segment
func (q *cur) shape(want []Item) (s Seg) {
	if len(q.segs) == 0 || q.segs[0].n != one {
		return
	}
	s = q.segs[0]
	for k := 0; k < len(want) && k < len(s.items); k++ {
		if want[k].kind != "be16" || s.items[k].kind != "u8" {
			continue
		}
		lo, rest := Item{}, []Item(nil)
		switch {
		case k+1 < len(s.items):
			lo, rest = s.items[k+1], s.items[k+2:]
		case len(q.segs) > 1 && q.segs[1].n == one:
			// the other byte is in the next segment
			n := q.segs[1]
			lo = n.items[0]
			lo.t = Subst(lo.t, n.x, zero)
			n.items = n.items[1:]
			if len(n.items) == 0 {
				q.segs = append([]Seg{s}, q.segs[2:]...)
			} else {
				q.segs = append([]Seg{s, n}, q.segs[2:]...)
			}
		}
		if lo.kind != "u8" {
			break
		}
		b := Item{"be16", Add(MulC(256, s.items[k].t), lo.t), two}
		s.items = append(append(append([]Item{}, s.items[:k]...), b), rest...)
		q.segs[0] = s
	}
	if len(s.items) > len(want) {
		rest := s
		rest.items = s.items[len(want):]
		s.items = s.items[:len(want)]
		q.segs = append([]Seg{s, rest}, q.segs[1:]...)
	}
	return
}

// single consumes the items of one record spread over one-record segments
func (q *cur) single(what string, want []Item) bool {
	for len(want) > 0 {
		q.shape(want)
		if len(q.segs) == 0 || q.segs[0].n != one || len(q.segs[0].items) > len(want) {
			q.fail("%s: the record ends early", what)
			return false
		}
		s := q.segs[0]
		for k, g := range s.items {
			if g.kind != want[k].kind || g.t.sort != want[k].t.sort {
				q.fail("%s: item is %s instead of %s", what, g.kind, want[k].kind)
				return false
			}
			if !q.pc.equal(Subst(g.t, s.x, zero), want[k].t) {
				q.fail("%s: item is %s instead of %s", what, q.pc.simp(g.t), q.pc.simp(want[k].t))
				return false
			}
		}
		want = want[len(s.items):]
		q.segs = q.segs[1:]
	}
	return true
}

func (q *cur) one(what, kind string, t *Term) {
	q.take(what, one, func(*Term) []Item { return []Item{it(kind, t)} })
}
func (q *cur) seq(what, kind string, n *Term, f func(i *Term) *Term) {
	q.take(what, n, func(i *Term) []Item { return []Item{it(kind, f(i))} })
}

// end requires that everything was consumed
func (q *cur) end() string {
	for len(q.segs) > 0 && q.pc.equal(q.segs[0].n, zero) {
		q.segs = q.segs[1:]
	}
	if q.bad == "" && len(q.segs) > 0 {
		q.fail("the file goes on: %s", (&Content{segs: q.segs}).String())
	}
	return q.bad
}

// sound checks what must hold of every path that reports success: nothing unknown, every I/O literal holds
func (w *world) clean(name string, i int, o Out) bool {
	ok := w.c.ob(len(o.st.bad) == 0, fmt.Sprintf("%s/path%d/followed", name, i), "outside the verified subset: %v", o.st.bad)
	return ok
}
func (w *world) ioSound(name string, i int, o Out) {
	var miss []string
	idle := map[*Term]bool{} // nothing was written since the last flush
	for _, v := range o.st.heap {
		if b, ok := v.(*Nat); ok && b.kind == "bwriter" && nt(b, "used") == tFalse {
			idle[nt(b, "ep")] = true
		}
	}
	for _, f := range o.st.fall {
		if idle[f.lit] {
			continue
		}
		if o.st.pc.decide(f.lit) != 1 {
			miss = append(miss, f.what+" "+f.lit.String())
		}
	}
	w.c.ob(len(miss) == 0, fmt.Sprintf("%s/path%d/io-errors-reported", name, i), "success is reported although these may have failed: %s", strings.Join(miss, ", "))
}

// expand replaces the functions in w.defs by their definitions
func (w *world) expand(t *Term) *Term {
	t = Rewrite(t, func(u *Term) *Term {
		if u.op == OUF && w.defs[u.name] != nil {
			return w.defs[u.name](u.args[0])
		}
		return nil
	}, false)
	return Rewrite(t, func(u *Term) *Term {
		if u.op == OUF && u.name == "pair" && (u.args[0].op == OLin || u.args[0].op == OPre || u.args[1].op == OLin || u.args[1].op == OPre) {
			return pairTerm(u.args[0], u.args[1])
		}
		return nil
	}, false)
}

// progress: an error outcome is only possible when an I/O operation failed (or cond holds)
func (w *world) progress(name string, i int, o Out, allow ...*Term) {
	pc := o.st.pc
	for _, f := range o.st.fall {
		pc = pc.and(f.lit)
	}
	for _, a := range allow {
		pc = pc.and(Not(a))
	}
	if len(w.defs) > 0 {
		var q *PC
		for _, f := range pc.facts() {
			q = q.and(w.expand(f))
		}
		pc = q
	}
	w.c.ob(pc.inconsistent(), fmt.Sprintf("%s/err%d/only-on-failure", name, i), "an error is returned although everything worked: %v", tail(o.st.pc.facts(), 5))
}

var G1gen, G2gen = Var("G1gen", SG1), Var("G2gen", SG2)

// skip moves over a number of bytes
func (q *cur) skip(n *Term, what string) {
	for q.bad == "" && n != zero && !q.pc.equal(n, zero) {
		if len(q.segs) == 0 {
			q.fail("%s: the file ends early", what)
			return
		}
		sz := q.segs[0].size()
		if !q.pc.implied(Le(sz, n)) {
			q.fail("%s: section of %s bytes where %s are left", what, sz, n)
			return
		}
		n = Sub(n, sz)
		q.segs = q.segs[1:]
	}
}

// popRecord takes k items of single records
func (q *cur) popRecord(what string, k int) []Item {
	var out []Item
	for q.bad == "" && len(out) < k {
		for len(q.segs) > 0 && q.pc.equal(q.segs[0].n, zero) {
			q.segs = q.segs[1:]
		}
		if len(q.segs) == 0 || q.segs[0].n != one {
			q.fail("%s: ends after %d of %d items", what, len(out), k)
			return nil
		}
		for _, g := range q.segs[0].items {
			out = append(out, Item{g.kind, Subst(g.t, q.segs[0].x, zero), g.size})
		}
		q.segs = q.segs[1:]
	}
	if q.bad == "" && len(out) != k {
		q.fail("%s: %d items instead of %d", what, len(out), k)
	}
	return out
}
