package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { specs["C20"] = specC20 }

// byRole finds the functions and methods of a package by what they take and give, not by name
func (p *Program) byRole(pkg string, pred func(sig *types.Signature, recv types.Type) bool) []*ssa.Function {
	pk := p.pkgs[modPath+pkg]
	var out []*ssa.Function
	if pk == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil && f.Synthetic == "" {
			seen[f] = true
			var recv types.Type
			if r := f.Signature.Recv(); r != nil {
				recv = r.Type()
			}
			if pred(f.Signature, recv) {
				out = append(out, f)
			}
		}
	}
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := pk.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for j := 0; j < ms.Len(); j++ {
					add(p.prog.MethodValue(ms.At(j)))
				}
			}
		}
	}
	return out
}

// preferNamed picks, of several functions of the same role, the one with a known name
func preferNamed(fs []*ssa.Function, names ...string) []*ssa.Function {
	if len(fs) > 1 {
		for _, f := range fs {
			for _, n := range names {
				if f.Name() == n {
					return []*ssa.Function{f}
				}
			}
		}
	}
	return fs
}

// specVal makes a value of a type with a symbol for every part
func specVal(st *State, t types.Type, name string, out *[]*Term) Val {
	if s, ok := scalarSort(t); ok {
		v := Var(name, s)
		*out = append(*out, v)
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = specVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), out)
		}
		return &StructV{t, f}
	case *types.Slice:
		b := UF("hash32."+name, SBytes)
		*out = append(*out, b)
		o := st.alloc("bytes", nil, b)
		return SliceV{o: o, off: zero, len: I(32), cap: I(32), elem: types.Typ[types.Uint8]}
	}
	return Poison{"specVal"}
}

// leaves lists the parts of a value
func leafTerms(st *State, v Val) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *StructV:
		var out []*Term
		for _, f := range v.f {
			out = append(out, leafTerms(st, f)...)
		}
		return out
	case SliceV:
		return []*Term{st.sliceBytes(v)}
	case NilV:
		return []*Term{emptyBytes}
	}
	return []*Term{nil}
}

func specC20(c *Ctx) {
	for _, pkg := range []string{"/phase1", "/phase2"} {
		for _, tn := range []string{"Header", "Contribution"} {
			codec(c, pkg, tn)
		}
	}
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

func codec(c *Ctx, pkg, tn string) {
	name := pkg[1:] + "." + tn
	t := c.prog.typ(pkg, tn)
	if !c.ob(t != nil, name+"/exists", "no type %s", name) {
		return
	}
	// a function that has the value (receiver or parameter) and an io.Reader or io.Writer, and nothing else
	role := func(iface string) *ssa.Function {
		fs := c.prog.byRole(pkg, func(sig *types.Signature, recv types.Type) bool {
			var ps []types.Type
			if recv != nil {
				ps = append(ps, recv)
			}
			for i := 0; i < sig.Params().Len(); i++ {
				ps = append(ps, sig.Params().At(i).Type())
			}
			if len(ps) != 2 {
				return false
			}
			val, rw := false, false
			for _, p := range ps {
				if types.Identical(p, t) || types.Identical(p, types.NewPointer(t)) {
					val = true
				}
				if isNamed(p, "io", iface) {
					rw = true
				}
			}
			return val && rw
		})
		fs = preferNamed(fs, "writeTo", "write", "ReadFrom", "readFrom", "Read")
		if !c.ob(len(fs) == 1, name+"/"+iface, "%d functions of %s handle an io.%s", len(fs), name, iface) {
			return nil
		}
		return fs[0]
	}
	wr, rd := role("Writer"), role("Reader")
	if wr == nil || rd == nil {
		return
	}
	call := func(x *Exec, st *State, f *ssa.Function, v Val, rw Val) []Out {
		var args []Val
		for _, p := range f.Params {
			switch {
			case types.Identical(p.Type(), types.NewPointer(t)):
				args = append(args, v)
			case types.Identical(p.Type(), t):
				args = append(args, st.load(v.(Ptr)))
			default:
				args = append(args, rw)
			}
		}
		return x.call(f, args, nil, st.clone())
	}
	w := c.world()
	x, st := w.x, w.st
	var syms []*Term
	v := specVal(st, t, name, &syms)
	if pkg == "/phase1" && tn == "Header" {
		w.st.assume(And(Ge0(Sub(syms[0], one)), Ge0(Sub(I(28), syms[0])), Ge0(syms[1]), Ge0(Sub(I(65535), syms[1]))))
	}
	vp := Ptr{o: st.alloc("value", t, v)}
	path := Var("file", SStr)
	bw := bufWriter(x, st, path)
	outs := call(x, st, wr, vp, bw)
	c.done(x)
	oks, errs := w.split(name+".write", outs)
	c.ob(len(oks) > 0, name+".write/can-succeed", "no successful outcome")
	for i, o := range errs {
		w.progress(name+".write", i, o)
	}
	for i, o := range oks {
		w.clean(name+".write", i, o)
		st := o.st
		fl := x.intrinsic("(*bufio.Writer).Flush", nil, []Val{bw.(IfaceV).v}, st)
		st = fl[0].st
		st.assume(fl[0].ret[0].(ErrV).ok)
		ct := st.fs[path]
		var items []Item
		flat := true
		for _, s := range ct.segs {
			flat = flat && s.n == one
			for _, g := range s.items {
				items = append(items, Item{g.kind, Subst(g.t, s.x, zero), g.size})
			}
		}
		c.ob(flat && ct.bad == "", name+".write/format", "the record isn't of fixed format: %s", ct)
		if tn == "Contribution" {
			// every part is written once
			cnt := map[*Term]int{}
			for _, g := range items {
				cnt[g.t]++
			}
			for _, s := range syms {
				c.ob(cnt[s] == 1, name+".write/"+s.String(), "written %d times", cnt[s])
			}
			c.ob(len(items) == len(syms), name+".write/items", "%d items for %d parts", len(items), len(syms))
			// the hash covers everything but itself, in writing order
			hs := c.prog.byRole(pkg, func(sig *types.Signature, recv types.Type) bool {
				var ps []types.Type
				if recv != nil {
					ps = append(ps, recv)
				}
				for i := 0; i < sig.Params().Len(); i++ {
					ps = append(ps, sig.Params().At(i).Type())
				}
				return len(ps) == 1 && (types.Identical(ps[0], t) || types.Identical(ps[0], types.NewPointer(t))) &&
					sig.Results().Len() == 1 && sig.Results().At(0).Type().String() == "[]byte"
			})
			hs = preferNamed(hs, "computeHash")
			if c.ob(len(hs) == 1, name+".hash/exists", "%d functions compute a hash", len(hs)) {
				var enc []*Term
				for _, g := range items {
					if g.t != syms[len(syms)-1] {
						enc = append(enc, UF(g.kind, SBytes, g.t))
					}
				}
				want := UF("sha256", SBytes, Cat(enc...))
				a := Val(vp)
				if types.Identical(hs[0].Params[0].Type(), t) {
					a = v
				}
				houts := x.call(hs[0], []Val{a}, nil, st.clone())
				c.done(x)
				c.ob(len(houts) > 0, name+".hash/outcome", "no outcome")
				for k, ho := range houts {
					w.clean(name+".hash", k, ho)
					if ho.panic {
						c.ob(ho.st.pc.inconsistent(), name+".hash/no-panic", "%s", ho.why)
						continue
					}
					b, ok := ho.ret[0].(SliceV)
					got := emptyBytes
					if ok {
						got = ho.st.sliceBytes(b)
					}
					c.ob(ok && ho.st.pc.eqBytes(got, want, 3), fmt.Sprintf("%s.hash/value%d", name, k), "%s instead of %s", got, want)
				}
			}
		}
		// read it back, followed by one more byte
		mark := Var("mark", SInt)
		st.fs[path] = &Content{segs: append(append([]Seg{}, ct.segs...), one1seg(it("u8", mark)))}
		br := bufReader(x, st, path)
		np := Ptr{o: st.alloc("read", t, zeroVal(t))}
		routs := call(x, st, rd, np, br)
		c.done(x)
		roks, rerrs := w.split(name+".read", routs)
		c.ob(len(roks) > 0, name+".read/can-succeed", "no successful outcome")
		for k, ro := range rerrs {
			w.progress(name+".read", k, ro)
		}
		for k, ro := range roks {
			w.clean(name+".read", k, ro)
			w.ioSound(name+".read", k, ro)
			got, want := leafTerms(ro.st, ro.st.load(np)), syms
			ok := len(got) == len(want)
			for j := range got {
				ok = ok && got[j] != nil && ro.st.pc.equal(got[j], want[j])
			}
			c.ob(ok, fmt.Sprintf("%s.read/value%d", name, k), "read %v instead of %v", got, want)
			mo := x.intrinsic("(*bufio.Reader).ReadByte", nil, []Val{br.(IfaceV).v}, ro.st)
			m, isT := mo[0].ret[0].(*Term)
			c.ob(isT && mo[0].st.pc.equal(m, mark), fmt.Sprintf("%s.read/exactly%d", name, k), "the next byte read is %v", mo[0].ret[0])
		}
	}
}

func bufWriter(x *Exec, st *State, path *Term) Val {
	o := x.intrinsic("os.Create", nil, []Val{path}, st)
	st.assume(o[0].ret[1].(ErrV).ok)
	return bufIface(x, "Writer", x.intrinsic("bufio.NewWriter", nil, []Val{o[0].ret[0]}, st)[0].ret[0])
}
func bufReader(x *Exec, st *State, path *Term) Val {
	o := x.intrinsic("os.Open", nil, []Val{path}, st)
	st.assume(o[0].ret[1].(ErrV).ok)
	return bufIface(x, "Reader", x.intrinsic("bufio.NewReader", nil, []Val{o[0].ret[0]}, st)[0].ret[0])
}
func bufIface(x *Exec, n string, v Val) Val {
	return IfaceV{v: v, t: types.NewPointer(x.prog.prog.ImportedPackage("bufio").Type(n).Type())}
}
