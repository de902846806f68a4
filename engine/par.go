package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The contract of common.Parallelize(n, work): for n >= 0 its effect is that of work(0,n), provided that the work is
// local: work(s,e) writes only locations that belong to the range [s,e), reads nothing that another range writes, and
// changes nothing else. Parallelize itself is verified against this contract under C21.
func (x *Exec) parallelize(st *State, args []Val) []Out {
	n, ok := args[0].(*Term)
	f, ok2 := args[1].(FuncV)
	if !ok || !ok2 || f.fn == nil {
		st.badf("Parallelize of %s", valString(args[1]))
		return one1(st)
	}
	if sl, ok := args[2].(SliceV); !ok || sl.len != zero {
		// a limit on the number of goroutines: at least one
		var lim Val
		if ok && sl.len == one {
			lim = x.elemAt(st, sl, zero)
		}
		if t, ok := lim.(*Term); !ok || !st.pc.implied(Ge0(Sub(t, one))) {
			st.badf("Parallelize with the CPU limit %s", valString(args[2]))
		}
	}
	if !st.pc.implied(Ge0(n)) {
		st.badf("Parallelize of a negative number of iterations: %s", n)
	}
	base := st.clone()
	outs := x.call(f.fn, []Val{zero, n}, f.bind, st)
	if x.explore == 0 {
		why := ""
		if len(outs) != 1 || outs[0].panic {
			why = "the work has several outcomes"
		} else {
			why = x.local(f, base, outs[0].st, n)
		}
		x.parSeen[f.fn.String()] = why
		if why != "" && len(outs) > 0 {
			outs[0].st.badf("parallel work %s: %s", f.fn, why)
		}
	}
	return outs
}

// writes tells which arrays the run changed, and where
func newWrites(pre, post *State) (map[*Obj][]Wr, string) {
	out := map[*Obj][]Wr{}
	if len(post.fall) != len(pre.fall) {
		return nil, "it does I/O"
	}
	for p, c := range post.fs {
		if pre.fs[p] == nil || !sameVal(pre.fs[p], c) {
			return nil, "it writes files"
		}
	}
	for o, v := range post.heap {
		old, had := pre.heap[o]
		if !had {
			if o.fam == "" {
				continue // allocated by the work
			}
			old = famContent(o)
		}
		if sameVal(old, v) {
			continue
		}
		a, ok := old.(*Arr)
		b, ok2 := v.(*Arr)
		if !ok || !ok2 {
			return nil, "it writes the shared variable " + o.name
		}
		if len(b.ws) >= len(a.ws) && !wsPrefix(a, b) {
			// conditions that a path has decided
			a = mapVal(a, post.pc.simp).(*Arr)
			b = mapVal(b, post.pc.simp).(*Arr)
		}
		if len(b.ws) < len(a.ws) || !wsPrefix(a, b) {
			return nil, "it rewrites an array as a whole"
		}
		ws := b.ws[len(a.ws):]
		for _, w := range ws {
			if w.lo == nil {
				return nil, "it rewrites an array as a whole"
			}
		}
		out[o] = ws
	}
	return out, ""
}

func (x *Exec) local(f FuncV, pre, full *State, n *Term) string {
	s, e := Fresh("start", SInt), Fresh("end", SInt)
	run := func(st *State) (*State, string) {
		outs := x.call(f.fn, []Val{s, e}, f.bind, st)
		if len(outs) != 1 || outs[0].panic {
			return nil, "a range has several outcomes"
		}
		if len(outs[0].st.bad) > len(pre.bad) {
			return nil, strings.Join(outs[0].st.bad[len(pre.bad):], "; ")
		}
		return outs[0].st, ""
	}
	dom := func(st *State) *State {
		st.assume(Ge0(s))
		st.assume(Le(s, e))
		st.assume(Le(e, n))
		return st
	}
	c1, why := run(dom(pre.clone()))
	if why != "" {
		return why
	}
	fw, why := newWrites(pre, full)
	if why != "" {
		return why
	}
	cw, why := newWrites(pre, c1)
	if why != "" {
		return why
	}
	if len(fw) != len(cw) {
		return "a range changes other arrays than the whole"
	}
	// the written regions are [s+a, e+a)
	type reg struct {
		lo, hi, a *Term
		w         Wr
	}
	regs := map[*Obj][]reg{}
	for o, ws := range cw {
		if fw[o] == nil {
			return "a range changes other arrays than the whole"
		}
		for _, w := range ws {
			lo, hi := c1.pc.simp(w.lo), c1.pc.simp(w.hi)
			if w.sw != nil && len(ws) == 1 && len(fw[o]) == 1 && fw[o][0].sw != nil {
				// exchanges of elements: those whose first (or last) index is in the shifted range. Such sets of
				// different ranges don't meet, and those of all ranges make up that of the whole
				v := fw[o][0].sw
				a := Sub(w.sw.lo, s)
				if occurs(a, s) || occurs(a, e) || !c1.pc.equal(Sub(w.sw.hi, e), a) || occurs(lo, s) || occurs(hi, e) ||
					v.off != w.sw.off || v.n != w.sw.n || v.last != w.sw.last || fw[o][0].lo != w.lo || fw[o][0].hi != w.hi ||
					!full.pc.equal(v.lo, a) || !full.pc.equal(v.hi, Add(n, a)) {
					return "the elements that a range exchanges aren't those of a shifted [start,end)"
				}
				regs[o] = append(regs[o], reg{lo, hi, a, w})
				continue
			}
			a := Sub(lo, s)
			if occurs(a, s) || occurs(a, e) || !c1.pc.equal(Sub(hi, e), a) {
				return "the range [" + lo.String() + "," + hi.String() + ") isn't a shifted [start,end)"
			}
			w.sw = nil
			regs[o] = append(regs[o], reg{lo, hi, a, w})
		}
		if len(fw[o]) != len(ws) {
			return "the whole writes other regions than its ranges"
		}
		for i, w := range fw[o] {
			if regs[o][i].w.sw != nil {
				continue
			}
			if !full.pc.equal(w.lo, regs[o][i].a) || !full.pc.equal(w.hi, Add(n, regs[o][i].a)) {
				return "the whole writes [" + w.lo.String() + "," + w.hi.String() + ")"
			}
		}
		// regions of different ranges don't meet
		for _, p := range regs[o] {
			for _, q := range regs[o] {
				if p.a != q.a && !c1.pc.implied(Le(Add(p.a, n), q.a)) && !c1.pc.implied(Le(Add(q.a, n), p.a)) {
					return "regions at " + p.a.String() + " and " + q.a.String() + " overlap"
				}
			}
		}
	}
	// the rest of the written arrays holds anything while the range is processed
	st2 := dom(pre.clone())
	for o, ws := range fw {
		old, ok := st2.get(o).(*Arr)
		if !ok {
			return "shared variable"
		}
		na := old
		for i, w := range ws {
			j := Fresh("j", SInt)
			na = na.write(w.lo, w.hi, j, symVal(old.elem, Fresh("other", SAny).name, j))
			j2 := Fresh("j", SInt)
			own := pre.arrRead(old, j2)
			if sw := regs[o][i].w.sw; sw != nil {
				own = pre.iteVal(sw.in(j2), own, symVal(old.elem, Fresh("other", SAny).name, j2))
			}
			na = na.write(regs[o][i].lo, regs[o][i].hi, j2, own)
		}
		st2.heap[o] = na
	}
	c2, why := run(st2)
	if why != "" {
		return why
	}
	for o := range fw {
		af, a1, a2 := full.get(o).(*Arr), c1.get(o).(*Arr), c2.get(o).(*Arr)
		for _, r := range regs[o] {
			k := Fresh("k", SInt)
			in := And(Le(r.lo, k), Lt(k, r.hi))
			if r.w.sw != nil {
				in = And(in, r.w.sw.in(k))
			}
			pc := c1.pc.and(in)
			for _, fct := range full.pc.facts() {
				pc = pc.and(fct)
			}
			v := (&State{pc: pc, heap: c1.heap}).arrRead(a1, k)
			vf := (&State{pc: pc, heap: full.heap}).arrRead(af, k)
			pc2 := c2.pc.and(in)
			v2 := (&State{pc: pc2, heap: c2.heap}).arrRead(a2, k)
			if hasPoison(v) || hasPoison(vf) || hasPoison(v2) {
				return "the written values are unknown"
			}
			if !randomAlike(v, vf) && !x.valEq(c1, pc, v, vf) {
				return "a range writes " + valString(v) + " where the whole writes " + valString(vf)
			}
			if !x.valEq(c2, pc2, v2, v) {
				return "the result depends on what other ranges write: " + valString(v2) + " instead of " + valString(v)
			}
		}
	}
	return ""
}

// randomAlike: two fresh random values
func randomAlike(a, b Val) bool {
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	return ok && ok2 && x.op == OUF && y.op == OUF && strings.HasPrefix(x.name, "rnd!") && x.name == y.name
}

// parSites finds what a package gives to Parallelize, directly or through functions that hand it on
func (c *Ctx) parSites(pkg string) map[string]string {
	out := map[string]string{}
	pk := c.prog.pkgs[modPath+pkg]
	if pk == nil {
		return out
	}
	var fns []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, m := range pk.Members {
		switch m := m.(type) {
		case *ssa.Function:
			visit(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := c.prog.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := c.prog.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pk {
						visit(f)
					}
				}
			}
		}
	}
	forward := map[*ssa.Function]int{} // which parameter is handed on
	for again := true; again; {
		again = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := call.Common().StaticCallee()
					if g == nil {
						continue
					}
					at, ok := forward[g]
					if g.String() == modPath+"/common.Parallelize" {
						at = 1
					} else if !ok {
						continue
					}
					pos := c.prog.prog.Fset.Position(in.Pos())
					where := fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line)
					switch w := call.Common().Args[at].(type) {
					case *ssa.MakeClosure:
						out[w.Fn.String()] = where
					case *ssa.Function:
						out[w.String()] = where
					case *ssa.Parameter:
						for i, q := range f.Params {
							if _, has := forward[f]; q == w && !has {
								forward[f] = i
								again = true
							}
						}
					case *ssa.Call:
						// whatever a function returns is seen when it is run
					default:
						out["work of "+f.String()] = where
					}
				}
			}
		}
	}
	return out
}

// parLocal: all the work a package gives to Parallelize is local
func (c *Ctx) parLocal(pkg string, seen map[string]string) {
	sites := c.parSites(pkg)
	for f, at := range sites {
		why, ok := seen[f]
		if !ok {
			why = "it isn't reached from an operation under verification"
		}
		c.ob(ok && why == "", "local/"+strings.TrimPrefix(f, modPath+"/"), "work given to Parallelize at %s: %s", at, why)
	}
	for f, why := range seen {
		if _, ok := sites[f]; !ok && strings.Contains(f, modPath+pkg+".") {
			c.ob(why == "", "local/"+strings.TrimPrefix(f, modPath+"/"), "work given to Parallelize: %s", why)
		}
	}
}

func init() {
	parts["C21"] = []string{"C21/parallelize"}
	// the work and the goroutines of the conversion; what they compute is left to C09
	for _, n := range c09Parts {
		n := n
		if n == "C09/bitrev" || strings.HasPrefix(n, "C09/reverse-G") {
			continue
		}
		m := "C21/lagrange/" + strings.TrimPrefix(n, "C09/")
		parts["C21"] = append(parts["C21"], m)
		specs[m] = func(c *Ctx) {
			d := *c
			d.res = &Result{}
			d.parSeen = map[string]string{}
			d.effectsOnly = true
			specs[n](&d)
			for _, o := range d.res.Obligations {
				switch filepath.Base(o.Name) {
				case "followed", "waits-for-all", "closes-the-channel", "nothing-after-the-close", "returns", "frame":
					c.ob(o.OK, o.Name, "%s", o.Why)
				}
			}
			for f, why := range d.parSeen {
				c.ob(why == "", "local/"+strings.TrimPrefix(f, modPath+"/"), "work given to Parallelize: %s", why)
			}
			c.res.Unreached = d.res.Unreached
			c.res.ParSeen = d.parSeen
		}
	}
	for pkg, cases := range map[string][]string{"/phase1": {"p1", "p1v"}, "/phase2": {"p2"}} {
		pkg, cases := pkg, cases
		parts["C21"] = append(parts["C21"], "C21"+pkg)
		specs["C21"+pkg] = func(c *Ctx) {
			seen := map[string]string{}
			for _, e := range ioCases {
				for _, n := range cases {
					if e.name == n {
						e.run(c, func(w *world, name string, outs []Out) {
							for f, why := range w.x.parSeen {
								if seen[f] == "" {
									seen[f] = why
								}
							}
							c.ob(len(outs) > 0, name+"/returns", "no outcome")
						})
					}
				}
			}
			c.parLocal(pkg, seen)
		}
	}
	sort.Strings(parts["C21"])
}
