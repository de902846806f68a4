package main

// Contracts of the I/O library: files, buffered readers and writers, point encoders, gob, hashes.
// A file is a sequence of typed items; what a program reads at a position is the item that lies exactly
// there, and an arbitrary value otherwise. Every fallible operation carries an "ok" literal.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- sites and deterministic fresh names

var instrIDs = map[ssa.Instruction]int{}

func instrID(in ssa.Instruction) int {
	if in == nil {
		return 0
	}
	if n, ok := instrIDs[in]; ok {
		return n
	}
	instrIDs[in] = len(instrIDs) + 1
	return len(instrIDs)
}

func (x *Exec) site() string {
	s := ""
	for _, i := range x.cs {
		s += fmt.Sprintf("%d.", instrID(i))
	}
	return s + fmt.Sprint(instrID(x.cur))
}

// unk is an arbitrary value of this execution of this site
func (x *Exec) unk(what string, s Sort) *Term {
	return UF(what+"@"+x.site(), s, x.clocks...)
}
func (x *Exec) unkVal(t types.Type, what string) Val {
	v := symVal(t, what+"@"+x.site(), x.clocks...)
	return v
}

// ---------------------------------------------------------------- contents

var itemSize = map[string]int64{"u8": 1, "be16": 2, "be32": 4, "be64": 8, "g1c": 32, "g1r": 64, "g2c": 64, "g2r": 128, "fr": 32, "hash": 32, "bool": 1}

func mkItem(kind string, t *Term) Item {
	if n, ok := itemSize[kind]; ok {
		return Item{kind, t, I(n)}
	}
	switch kind {
	case "bytes":
		return Item{kind, t, bytesLen(t)}
	}
	return Item{kind, t, UF("size."+kind, SInt, t)}
}

func one1seg(its ...Item) Seg { return Seg{n: one, x: Fresh("i", SInt), items: its} }

// appendSegs concatenates contents, merging adjacent single segments
func appendSegs(c *Content, segs ...Seg) *Content {
	out := &Content{bad: c.bad, segs: append([]Seg{}, c.segs...)}
	for _, s := range segs {
		if s.n == zero {
			continue
		}
		out.segs = append(out.segs, s)
	}
	return out
}

// segAt looks for the item lying exactly at position pos
func (c *Content) find(pc *PC, pos *Term) (it Item, ok bool) {
	if c == nil || c.bad != "" {
		return
	}
	off := zero
	for _, s := range c.segs {
		rel := Sub(pos, off)
		st := s.stride()
		io := zero
		for _, item := range s.items {
			var idx *Term
			r := Sub(rel, io)
			if s.n == one {
				if r == zero {
					idx = zero
				} else if !r.isConst() && pc.equal(r, zero) {
					idx = zero
				}
			} else if idx = exactDiv(r, st); idx == nil {
				if q := exactDiv(pc.eqSubst(r), st); q != nil {
					idx = q
				}
			}
			if idx != nil && pc.implied(And(Ge0(idx), Lt(idx, s.n))) {
				return Item{item.kind, Subst(item.t, s.x, idx), Subst(item.size, s.x, idx)}, true
			}
			io = Add(io, item.size)
		}
		off = Add(off, s.size())
	}
	return
}
func (c *Content) size() *Term {
	off := zero
	for _, s := range c.segs {
		off = Add(off, s.size())
	}
	return off
}

// ---------------------------------------------------------------- object access

func (x *Exec) nat(st *State, v Val, kind string) (*Obj, *Nat) {
	if iv, ok := v.(IfaceV); ok {
		v = iv.v
	}
	p, ok := v.(Ptr)
	if !ok || len(p.path) > 0 {
		return nil, nil
	}
	n, ok := st.get(p.o).(*Nat)
	if !ok || (kind != "" && n.kind != kind) {
		return nil, nil
	}
	return p.o, n
}

func newNat(st *State, kind string, f map[string]Val) Ptr {
	return Ptr{o: st.alloc(kind, nil, &Nat{kind, f})}
}

func nt(n *Nat, k string) *Term {
	t, _ := n.f[k].(*Term)
	return t
}

// ---------------------------------------------------------------- reading

// source of a reader: the file path and current position; adv moves it forward
type source struct {
	path, pos *Term
	adv       func(n *Term)
	raw       bool // unbuffered file
}

func (x *Exec) source(st *State, v Val) *source {
	o, n := x.nat(st, v, "")
	if n == nil {
		return nil
	}
	switch n.kind {
	case "file":
		return &source{nt(n, "path"), nt(n, "pos"), func(k *Term) {
			st.heap[o] = n.with("pos", Add(nt(n, "pos"), k))
		}, true}
	case "breader":
		fo, fn := x.nat(st, n.f["file"], "file")
		if fn == nil {
			return nil
		}
		if nt(n, "touched") == tFalse {
			n = n.with("touched", tTrue).with("pos", nt(fn, "pos")).with("gen", nt(fn, "gen"))
			st.heap[o] = n
			st.heap[fo] = fn.with("pos", x.unk("ahead", SInt))
		} else if nt(n, "gen") != nt(fn, "gen") {
			st.badf("read from a bufio.Reader whose file was repositioned")
		}
		return &source{nt(fn, "path"), nt(n, "pos"), func(k *Term) {
			st.heap[o] = n.with("pos", Add(nt(n, "pos"), k))
		}, false}
	}
	return nil
}

// touch prepares the buffered readers before a loop, so that the first read isn't special
func (x *Exec) fileOf(st *State, path *Term) *Content {
	c := st.fs[path]
	if c == nil {
		return &Content{bad: "unknown file"}
	}
	return c
}

// readOne reads one item of the given kind; on mismatch the value is arbitrary
func (x *Exec) readOne(st *State, s *source, kind string, sort Sort) *Term {
	c := x.fileOf(st, s.path)
	if it, ok := c.find(st.pc, s.pos); ok && it.kind == kind && it.t.sort == sort {
		return it.t
	}
	if debugRead {
		fmt.Printf("READ %s at %s of %s: no match in %s\n", kind, s.pos, s.path, c)
	}
	return x.unk("garbage", sort)
}

var debugRead bool

func pointKind(t types.Type) (kind string, sort Sort) {
	switch typeKey(t) {
	case gc + ".G1Affine":
		return "g1", SG1
	case gc + ".G2Affine":
		return "g2", SG2
	case gc + "/fr.Element":
		return "fr", SF
	}
	return "", 0
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func scalarKind(t types.Type) (string, Sort) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", 0
	}
	switch b.Kind() {
	case types.Uint64, types.Int64:
		return "be64", SInt
	case types.Uint32, types.Int32:
		return "be32", SInt
	case types.Uint16, types.Int16:
		return "be16", SInt
	case types.Uint8, types.Int8:
		return "u8", SInt
	case types.Bool:
		return "bool", SBool
	}
	return "", 0
}

// seqAt reads n items of one kind starting at pos as an array over x
func (x *Exec) seqAt(st *State, path, pos, n *Term, kind string, sort Sort, elem types.Type) *Arr {
	j := Fresh("j", SInt)
	c := x.fileOf(st, path)
	pc := st.pc.and(Ge0(j)).and(Lt(j, n))
	it, ok := c.find(pc, Add(pos, Mul(j, I(itemSize[kind]))))
	var v *Term
	if ok && it.kind == kind && it.t.sort == sort {
		v = it.t
	} else {
		v = UF("garbage@"+x.site(), sort, append(append([]*Term{}, x.clocks...), j)...)
	}
	return &Arr{elem: elem, ws: []Wr{{x: j, v: v}}}
}

// pkind: the representation of points is told by the data; a file holds points of one representation
func (x *Exec) pkind(st *State, src *source, k string) string {
	if k == "fr" {
		return k
	}
	if src != nil {
		for _, s := range x.fileOf(st, src.path).segs {
			for _, i := range s.items {
				if i.kind == "g1r" || i.kind == "g2r" {
					return k + "r"
				}
			}
		}
	}
	return k + "c"
}

func (x *Exec) decode(st *State, o *Obj, d *Nat, arg Val) []Out {
	ok := st.newOk("read")
	iv, isI := arg.(IfaceV)
	var p Ptr
	if isI {
		p, isI = iv.v.(Ptr)
	}
	s := x.source(st, d.f["r"])
	if !isI || s == nil {
		st.badf("Decode of %s from %s", valString(arg), valString(d.f["r"]))
		return one1(st, ErrV{ok})
	}
	el := ptrElem(iv.t)
	adv := func(n *Term) {
		s.adv(n)
		d = d.with("n", Add(nt(d, "n"), n))
		st.heap[o] = d
	}
	if k, sort := pointKind(el); k != "" {
		v := x.readOne(st, s, x.pkind(st, s, k), sort)
		st.store(p, v)
		adv(I(itemSize[x.pkind(st, s, k)]))
		return one1(st, ErrV{ok})
	}
	if k, sort := scalarKind(el); k != "" {
		v := x.readOne(st, s, k, sort)
		if sort == SInt && v.op == OUF {
			bits, _ := bitsOf(el)
			if bits < 63 && bits > 0 {
				st.assume(And(Ge0(v), Lt(v, I(1<<uint(bits)))))
			} else {
				st.assume(Ge0(v))
			}
		}
		st.store(p, v)
		adv(I(itemSize[k]))
		return one1(st, ErrV{ok})
	}
	if sl, isS := el.Underlying().(*types.Slice); isS {
		k, sort := pointKind(sl.Elem())
		if k != "" {
			k = x.pkind(st, s, k)
			l := x.readOne(st, s, "be32", SInt)
			st.assume(And(Ge0(l), Lt(l, I(1<<32))))
			arr := x.seqAt(st, s.path, Add(s.pos, I(4)), l, k, sort, sl.Elem())
			if old, isSl := st.load(p).(SliceV); isSl && old.o != nil && len(old.path) == 0 {
				if old.o.fam == "" {
					st.heap[old.o] = Poison{"overwritten by Decode"}
				}
			}
			ob := st.alloc("decoded", nil, arr)
			st.store(p, SliceV{o: ob, off: zero, len: l, cap: l, elem: sl.Elem()})
			adv(Add(I(4), Mul(l, I(itemSize[k]))))
			return one1(st, ErrV{ok})
		}
		if k, sort := scalarKind(sl.Elem()); k != "" { // binary.Read: exactly len elements
			if old, isSl := st.load(p).(SliceV); isSl && old.o != nil {
				arr := x.seqAt(st, s.path, s.pos, old.len, k, sort, sl.Elem())
				st.heap[old.o] = st.storePath(st.get(old.o), old.path, arr)
				adv(Mul(old.len, I(itemSize[k])))
				return one1(st, ErrV{ok})
			}
		}
	}
	st.badf("Decode into %v", iv.t)
	return one1(st, ErrV{ok})
}

// bytes read exactly
func (x *Exec) readBytes(st *State, s *source, n *Term) *Term {
	c := x.fileOf(st, s.path)
	if k, ok := n.constInt(); ok {
		var parts []*Term
		pos := s.pos
		left := k
		for left > 0 {
			it, ok := c.find(st.pc, pos)
			if !ok {
				parts = nil
				break
			}
			sz, isC := it.size.constInt()
			if !isC || sz > left {
				parts = nil
				break
			}
			if it.t.sort == SBytes {
				parts = append(parts, it.t)
			} else {
				parts = append(parts, UF(it.kind, SBytes, it.t))
			}
			left -= sz
			pos = Add(pos, it.size)
		}
		if parts != nil {
			return Cat(parts...)
		}
		if k <= 8 {
			var ps []*Term
			for i := int64(0); i < k; i++ {
				b := UF(fmt.Sprintf("garbage%d@%s", i, x.site()), SInt, x.clocks...)
				st.assume(And(Ge0(b), Le(b, I(255))))
				ps = append(ps, UF("u8", SBytes, b))
			}
			return Cat(ps...)
		}
		if k == 32 {
			return UF("hash32g@"+x.site(), SBytes, x.clocks...)
		}
	}
	r := x.unk("garbageBytes", SBytes)
	st.assume(Eq(bytesLen(r), n))
	return r
}

// ---------------------------------------------------------------- writing

// write appends data to a writer and returns the ok literal
func (x *Exec) write(st *State, w Val, segs ...Seg) *Term {
	o, n := x.nat(st, w, "")
	if n == nil {
		st.badf("write to %s", valString(w))
		return Fresh("ok", SBool)
	}
	switch n.kind {
	case "file":
		ok := st.newOk("write")
		x.appendFile(st, o, segs)
		return ok
	case "bwriter":
		c, _ := n.f["pend"].(*Content)
		st.heap[o] = n.with("pend", appendSegs(c, segs...)).with("used", tTrue)
		ok := Fresh("ok:bwrite", SBool)
		st.assume(Implies(nt(n, "ep"), ok))
		return ok
	case "sha", "buffer":
		b := nt(n, "b")
		if b == nil {
			b = emptyBytes
		}
		for _, s := range segs {
			if s.n != one {
				st.badf("hash of a sequence")
				continue
			}
			for _, i := range s.items {
				if i.t.sort == SBytes {
					b = Cat(b, i.t)
				} else {
					b = Cat(b, UF(i.kind, SBytes, i.t))
				}
			}
		}
		st.heap[o] = n.with("b", b)
		return tTrue
	}
	st.badf("write to %s", n.kind)
	return Fresh("ok", SBool)
}

func (x *Exec) appendFile(st *State, fo *Obj, segs []Seg) {
	_, n := x.nat(st, Ptr{o: fo}, "file")
	p := nt(n, "path")
	if m, _ := nt(n, "mode").constInt(); m == 0 {
		st.badf("write to a file opened for reading")
	}
	c := appendSegs(x.fileOf(st, p), segs...)
	for ob, v := range st.heap {
		if b, ok := v.(*Nat); ok && b.kind == "bwriter" {
			if f, ok := b.f["file"].(Ptr); ok {
				fn, _ := st.get(f.o).(*Nat)
				pc, _ := b.f["pend"].(*Content)
				if fn != nil && nt(fn, "path") == p && len(pc.segs) > 0 && ob != x.flushing {
					c.bad = "written while a bufio.Writer of the same file holds data"
				}
			}
		}
	}
	st.fs[p] = c
}

func (x *Exec) flush(st *State, o *Obj, n *Nat) *Term {
	f, _ := n.f["file"].(Ptr)
	c, _ := n.f["pend"].(*Content)
	if f.o == nil {
		st.badf("flush")
		return Fresh("ok", SBool)
	}
	x.flushing = o
	x.appendFile(st, f.o, c.segs)
	x.flushing = nil
	ep := nt(n, "ep")
	st.heap[o] = n.with("pend", &Content{}).with("ep", st.newOk("write")).with("used", tFalse)
	return ep
}

// itemsOf translates an encoded Go value
func (x *Exec) itemsOf(st *State, v Val, t types.Type, raw bool) ([]Seg, bool) {
	ptr := false
	if el := ptrElem(t); el != nil {
		if p, ok := v.(Ptr); ok {
			v, t, ptr = st.load(p), el, true
		}
	}
	// points are encoded through pointers, slices of points by value
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if k, _ := pointKind(sl.Elem()); k != "" && ptr {
			return nil, false
		}
	} else if k, _ := pointKind(t); k != "" && !ptr {
		return nil, false
	}
	suffix := "c"
	if raw {
		suffix = "r"
	}
	if k, sort := pointKind(t); k != "" {
		tv, ok := v.(*Term)
		if !ok || tv.sort != sort {
			return nil, false
		}
		if k != "fr" {
			k += suffix
		}
		return []Seg{one1seg(mkItem(k, tv))}, true
	}
	if k, sort := scalarKind(t); k != "" {
		tv, ok := v.(*Term)
		if !ok || tv.sort != sort {
			return nil, false
		}
		return []Seg{one1seg(mkItem(k, tv))}, true
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		s, ok := v.(SliceV)
		if !ok {
			return nil, false
		}
		k, sort := pointKind(sl.Elem())
		var out []Seg
		if k != "" {
			if k != "fr" {
				k += suffix
			}
			out = append(out, one1seg(mkItem("be32", s.len)))
		} else if k, sort = scalarKind(sl.Elem()); k == "" {
			return nil, false
		}
		if s.o == nil {
			return out, true
		}
		j := Fresh("i", SInt)
		e, ok := x.elemAt(st, s, j).(*Term)
		if !ok || e.sort != sort {
			return nil, false
		}
		if s.len != zero {
			out = append(out, Seg{n: s.len, x: j, items: []Item{mkItem(k, e)}})
		}
		return out, true
	}
	return nil, false
}

func (x *Exec) encode(st *State, o *Obj, e *Nat, arg Val) []Out {
	iv, ok := arg.(IfaceV)
	if ok {
		segs, ok := x.itemsOf(st, iv.v, iv.t, nt(e, "raw") == tTrue)
		if ok {
			n := zero
			for _, s := range segs {
				n = Add(n, s.size())
			}
			st.heap[o] = e.with("n", Add(nt(e, "n"), n))
			return one1(st, ErrV{x.write(st, e.f["w"], segs...)})
		}
	}
	st.badf("Encode of %s", valString(arg))
	return one1(st, ErrV{Fresh("ok", SBool)})
}

// ---------------------------------------------------------------- gob

var gobReg = map[*Term]Val{}
var gobTypes = map[string]types.Type{}

func flatTerms(v Val, out *[]*Term) bool {
	switch v := v.(type) {
	case *Term:
		*out = append(*out, v)
		return true
	case *StructV:
		for _, f := range v.f {
			if !flatTerms(f, out) {
				return false
			}
		}
		return true
	}
	return false
}
func unflat(t types.Type, ts *[]*Term) Val {
	if _, ok := scalarSort(t); ok {
		r := (*ts)[0]
		*ts = (*ts)[1:]
		return r
	}
	s := t.Underlying().(*types.Struct)
	f := make([]Val, s.NumFields())
	for i := range f {
		f[i] = unflat(s.Field(i).Type(), ts)
	}
	return &StructV{t, f}
}

func gobTerm(v Val, t types.Type) *Term {
	var ts []*Term
	n := "gobval:" + typeKey(t)
	gobTypes[n] = t
	if flatTerms(v, &ts) {
		return UF(n, SAny, ts...)
	}
	for k, o := range gobReg {
		if sameVal(o, v) {
			return k
		}
	}
	k := Fresh("gobval", SAny)
	gobReg[k] = v
	return k
}
func gobVal(t *Term, want types.Type) (Val, bool) {
	if v, ok := gobReg[t]; ok {
		if s, ok := v.(*StructV); ok && !types.Identical(s.t, want) {
			return nil, false
		}
		return v, true
	}
	if t.op == OUF {
		if ty, ok := gobTypes[t.name]; ok && types.Identical(ty, want) {
			ts := t.args
			return unflat(ty, &ts), true
		}
	}
	return nil, false
}
