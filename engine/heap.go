package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	t types.Type
	f []Val
}
type NilV struct{}
type Poison struct{ why string }

// Obj is a heap location
type Obj struct {
	id   int
	name string
	t    types.Type // type of the content
	fam  string     // nonempty: symbolic family object, content generated on demand
	idx  []*Term
	site string
	// array of an append that moved: its capacity is unknown, and it is given up (becomes poison) with the next append
	grown, maybeNil bool
}
type PE struct {
	field int
	idx   *Term // non nil: array element
	opq   string
}
type Ptr struct {
	o    *Obj
	path []PE
}
type SliceV struct {
	o             *Obj // nil: nil slice
	path          []PE
	off, len, cap *Term
	elem          types.Type
}
type IfaceV struct {
	t types.Type
	v Val
}
type ErrV struct{ ok *Term } // an error value: nil iff ok
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	name string // intrinsic
}
type TupleV []Val
type Nat struct { // native object
	kind string
	f    map[string]Val
}

func (n *Nat) with(k string, v Val) *Nat {
	m := map[string]Val{}
	for a, b := range n.f {
		m[a] = b
	}
	m[k] = v
	return &Nat{n.kind, m}
}

// Arr: functional array. Later writes win; the first one is the base and covers everything.
type Wr struct {
	lo, hi *Term // nil,nil: everything
	x      *Term // index variable
	v      Val
	sw     *swapSet // the write exchanges elements: only these change
}

// swapSet: of the n elements from off on, element off+i is exchanged with element off+bitrev(n,i) when the first
// (last: the later) of i and bitrev(n,i) is in [lo,hi)
type swapSet struct {
	off, n, lo, hi *Term
	last           bool
}

// in: element off+k is exchanged (with itself if it is its own reversal)
func (s *swapSet) in(j *Term) *Term {
	k := Sub(j, s.off)
	rev := bitRev(s.n, k)
	in := func(t *Term) *Term { return And(Le(s.lo, t), Lt(t, s.hi)) }
	if s.last {
		return Or(And(Le(rev, k), in(k)), And(Lt(k, rev), in(rev)))
	}
	return Or(And(Le(k, rev), in(k)), And(Lt(rev, k), in(rev)))
}
func (s *swapSet) mapped(f func(*Term) *Term) *swapSet {
	if s == nil {
		return nil
	}
	return &swapSet{f(s.off), f(s.n), f(s.lo), f(s.hi), s.last}
}

// touched: the write may change element j, or read it
func (w *Wr) touched(j *Term) *Term {
	c := And(Le(w.lo, j), Lt(j, w.hi))
	if w.sw != nil {
		c = And(c, w.sw.in(j))
	}
	return c
}

type Arr struct {
	elem types.Type
	ws   []Wr
	ver  string // tag of a havocked base
}

// Content of a file / stream of written data
type Item struct {
	kind string
	t    *Term
	size *Term
}
type Seg struct {
	n     *Term
	x     *Term // index variable
	items []Item
}
type Content struct {
	segs []Seg
	bad  string
}

func (s Seg) stride() *Term {
	t := zero
	for _, i := range s.items {
		t = Add(t, i.size)
	}
	return t
}
func (s Seg) size() *Term { return Mul(s.n, s.stride()) }

var objCnt int

func newObj(name string, t types.Type) *Obj {
	objCnt++
	return &Obj{id: objCnt, name: name, t: t}
}

var famTab = map[string]*Obj{}

func famObj(name string, t types.Type, idx []*Term) *Obj {
	k := name + ids(idx)
	if o, ok := famTab[k]; ok {
		return o
	}
	o := newObj(name, t)
	o.fam = name
	o.idx = append([]*Term{}, idx...)
	famTab[k] = o
	return o
}

// ---------------------------------------------------------------- types

const gc = "github.com/consensys/gnark-crypto/ecc/bn254"

func typeKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

// opaque scalars
func scalarSort(t types.Type) (Sort, bool) {
	switch typeKey(t) {
	case gc + ".G1Affine", gc + ".G1Jac":
		return SG1, true
	case gc + ".G2Affine", gc + ".G2Jac":
		return SG2, true
	case gc + "/fr.Element", "math/big.Int":
		return SF, true
	case gc + "/fp.Element", gc + "/fr/pedersen.Key":
		return SAny, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SInt, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		}
	}
	return 0, false
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return zero
	case SBool:
		return tFalse
	case SF:
		return F(0)
	case SG1, SG2:
		return O(s)
	case SStr:
		return StrLit("")
	case SBytes:
		return emptyBytes
	}
	return Var("zero", SAny)
}
func StrLit(s string) *Term { return Var("\""+s+"\"", SStr) }

func isByteSlice(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isByte(s.Elem())
	}
	return false
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func zeroVal(t types.Type) Val {
	if s, ok := scalarSort(t); ok {
		return zeroTerm(s)
	}
	if k := natKind(t); k != "" {
		if k == "waitgroup" {
			return &Nat{k, map[string]Val{"n": zero, "out": zero}}
		}
		return &Nat{k, map[string]Val{}}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return &StructV{t, f}
	case *types.Array:
		return zeroArr(u.Elem())
	case *types.Slice:
		return SliceV{elem: u.Elem(), off: zero, len: zero, cap: zero}
	}
	return NilV{}
}
func zeroArr(elem types.Type) *Arr {
	return &Arr{elem: elem, ws: []Wr{{x: Fresh("j", SInt), v: zeroVal(elem)}}}
}

func natKind(t types.Type) string {
	switch typeKey(t) {
	case "sync.WaitGroup":
		return "waitgroup"
	case "sync.Mutex":
		return "mutex"
	case "bytes.Buffer":
		return "buffer"
	}
	return ""
}

// symVal builds a symbolic value of a Go type out of uninterpreted functions of idx
func symVal(t types.Type, name string, idx ...*Term) Val {
	if s, ok := scalarSort(t); ok {
		if len(idx) == 0 {
			return Var(name, s)
		}
		return UF(name, s, idx...)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = symVal(u.Field(i).Type(), name+"."+u.Field(i).Name(), idx...)
		}
		return &StructV{t, f}
	case *types.Array:
		return symArr(u.Elem(), name, idx)
	case *types.Slice:
		o := famObj(name+"[]", t, idx)
		var l *Term
		if len(idx) == 0 {
			l = UF(name+".len", SInt)
		} else {
			l = UF(name+".len", SInt, idx...)
		}
		return SliceV{o: o, off: zero, len: l, cap: l, elem: u.Elem()}
	case *types.Pointer:
		o := famObj(name+"*", u.Elem(), idx)
		return Ptr{o: o}
	}
	return Poison{"symbolic " + name}
}
func symArr(elem types.Type, name string, idx []*Term) *Arr {
	x := Fresh("j", SInt)
	return &Arr{elem: elem, ws: []Wr{{x: x, v: symVal(elem, name, append(append([]*Term{}, idx...), x)...)}}}
}

// famContent is the content of a family object
func famContent(o *Obj) Val {
	if strings.HasSuffix(o.fam, "[]") {
		return symArr(o.t.Underlying().(*types.Slice).Elem(), o.fam, o.idx)
	}
	return symVal(o.t, strings.TrimSuffix(o.fam, "*"), o.idx...)
}

// ---------------------------------------------------------------- mapping terms

func mapVal(v Val, f func(*Term) *Term) Val {
	switch v := v.(type) {
	case *Term:
		return f(v)
	case *StructV:
		out := make([]Val, len(v.f))
		for i := range v.f {
			out[i] = mapVal(v.f[i], f)
		}
		return &StructV{v.t, out}
	case *Arr:
		out := &Arr{elem: v.elem, ver: v.ver}
		for _, w := range v.ws {
			n := Wr{x: w.x, v: mapVal(w.v, f), sw: w.sw.mapped(f)}
			if w.lo != nil {
				n.lo, n.hi = f(w.lo), f(w.hi)
			}
			out.ws = append(out.ws, n)
		}
		return out
	case Ptr:
		return Ptr{mapObj(v.o, f), mapPath(v.path, f)}
	case SliceV:
		n := v
		if v.o != nil {
			n.o = mapObj(v.o, f)
			n.path = mapPath(v.path, f)
		}
		n.off, n.len, n.cap = f(v.off), f(v.len), f(v.cap)
		return n
	case IfaceV:
		return IfaceV{v.t, mapVal(v.v, f)}
	case ErrV:
		return ErrV{f(v.ok)}
	case FuncV:
		out := v
		out.bind = nil
		for _, b := range v.bind {
			out.bind = append(out.bind, mapVal(b, f))
		}
		return out
	case TupleV:
		out := make(TupleV, len(v))
		for i := range v {
			out[i] = mapVal(v[i], f)
		}
		return out
	case *Nat:
		m := map[string]Val{}
		for k, x := range v.f {
			m[k] = mapVal(x, f)
		}
		return &Nat{v.kind, m}
	case *Content:
		return mapContent(v, f)
	}
	return v
}
func mapObj(o *Obj, f func(*Term) *Term) *Obj {
	if o == nil || o.fam == "" || len(o.idx) == 0 {
		return o
	}
	idx := make([]*Term, len(o.idx))
	for i := range idx {
		idx[i] = f(o.idx[i])
	}
	return famObj(o.fam, o.t, idx)
}
func mapPath(p []PE, f func(*Term) *Term) []PE {
	if len(p) == 0 {
		return p
	}
	out := make([]PE, len(p))
	for i, e := range p {
		out[i] = e
		if e.idx != nil {
			out[i].idx = f(e.idx)
		}
	}
	return out
}
func mapContent(c *Content, f func(*Term) *Term) *Content {
	out := &Content{bad: c.bad}
	for _, s := range c.segs {
		n := Seg{n: f(s.n), x: s.x}
		for _, i := range s.items {
			n.items = append(n.items, Item{i.kind, f(i.t), f(i.size)})
		}
		out.segs = append(out.segs, n)
	}
	return out
}

func substVal(v Val, m map[*Term]*Term) Val {
	if len(m) == 0 {
		return v
	}
	return mapVal(v, func(t *Term) *Term { return SubstM(t, m) })
}

// termsOf calls f on every term inside v
func termsOf(v Val, f func(*Term)) {
	mapVal(v, func(t *Term) *Term { f(t); return t })
}
func valOccurs(v Val, x *Term) bool {
	r := false
	termsOf(v, func(t *Term) {
		if !r && occurs(t, x) {
			r = true
		}
	})
	return r
}

func valString(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case TupleV:
		var s []string
		for _, x := range v {
			s = append(s, valString(x))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *Term:
		return v.String()
	case *StructV:
		var s []string
		for _, x := range v.f {
			s = append(s, valString(x))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *Arr:
		var s []string
		for _, w := range v.ws {
			if w.lo == nil {
				s = append(s, fmt.Sprintf("*->\\%s.%s", w.x, valString(w.v)))
			} else {
				s = append(s, fmt.Sprintf("[%s,%s)->\\%s.%s", w.lo, w.hi, w.x, valString(w.v)))
			}
		}
		return "arr<" + strings.Join(s, "; ") + ">"
	case Ptr:
		return fmt.Sprintf("&%s#%d%v", v.o.name, v.o.id, v.path)
	case SliceV:
		if v.o == nil {
			return "nil[]"
		}
		return fmt.Sprintf("slice(%s#%d,%s,%s)", v.o.name, v.o.id, v.off, v.len)
	case IfaceV:
		return fmt.Sprintf("iface(%v,%s)", v.t, valString(v.v))
	case ErrV:
		return "err(ok=" + v.ok.String() + ")"
	case *Nat:
		var ks []string
		for k := range v.f {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var s []string
		for _, k := range ks {
			s = append(s, k+"="+valString(v.f[k]))
		}
		return v.kind + "{" + strings.Join(s, ",") + "}"
	case *Content:
		return v.String()
	case Poison:
		return "poison(" + v.why + ")"
	}
	return fmt.Sprintf("%T", v)
}
func (c *Content) String() string {
	var s []string
	for _, g := range c.segs {
		var it []string
		for _, i := range g.items {
			it = append(it, i.kind+":"+i.t.String())
		}
		s = append(s, fmt.Sprintf("%s x \\%s.{%s}", g.n, g.x, strings.Join(it, " ")))
	}
	b := ""
	if c.bad != "" {
		b = " BAD:" + c.bad
	}
	return "content[" + strings.Join(s, " | ") + b + "]"
}

// ---------------------------------------------------------------- state

type Fal struct {
	lit  *Term
	what string
}

type State struct {
	heap   map[*Obj]Val
	fs     map[*Term]*Content // by path
	pc     *PC
	fall   []Fal
	bad    []string // things the engine could not follow: nothing is claimed about such a path
	defer_ int
	g      *goFrame // the goroutine this runs in
	pend   []*pending
	guards []*guard
	closed *State // when the last channel was closed, outside a goroutine
}

func newState() *State {
	return &State{heap: map[*Obj]Val{}, fs: map[*Term]*Content{}}
}
func (s *State) clone() *State {
	n := &State{heap: make(map[*Obj]Val, len(s.heap)), fs: make(map[*Term]*Content, len(s.fs)), pc: s.pc}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.fs {
		n.fs[k] = v
	}
	n.fall = append([]Fal{}, s.fall...)
	n.bad = append([]string{}, s.bad...)
	n.g = s.g
	n.pend = s.pend
	n.guards = s.guards
	n.closed = s.closed
	return n
}
func (s *State) assume(f *Term) { s.pc = s.pc.and(f) }
func (s *State) badf(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	for _, b := range s.bad {
		if b == m {
			return
		}
	}
	s.bad = append(s.bad, m)
	if debugBad {
		fmt.Println("BAD:", m)
	}
}

var debugBad bool

func (s *State) get(o *Obj) Val {
	if v, ok := s.heap[o]; ok {
		return v
	}
	if o.fam != "" {
		return famContent(o)
	}
	return nil
}
func (s *State) alloc(name string, t types.Type, v Val) *Obj {
	o := newObj(name, t)
	s.heap[o] = v
	return o
}
func (s *State) newOk(what string) *Term {
	ok := Fresh("ok:"+what, SBool)
	s.fall = append(s.fall, Fal{ok, what})
	return ok
}

// ---------------------------------------------------------------- arrays

func (s *State) arrRead(a *Arr, i *Term) Val {
	var pend []struct {
		c *Term
		v Val
	}
	for k := len(a.ws) - 1; k >= 0; k-- {
		w := a.ws[k]
		if w.lo == nil {
			v := substVal(w.v, map[*Term]*Term{w.x: i})
			for j := len(pend) - 1; j >= 0; j-- {
				v = s.iteVal(pend[j].c, pend[j].v, v)
			}
			return v
		}
		var c *Term
		if Sub(w.hi, w.lo) == one {
			c = Eq(i, w.lo)
		} else {
			c = And(Le(w.lo, i), Lt(i, w.hi))
		}
		switch s.pc.decide(c) {
		case 1:
			v := substVal(w.v, map[*Term]*Term{w.x: i})
			for j := len(pend) - 1; j >= 0; j-- {
				v = s.iteVal(pend[j].c, pend[j].v, v)
			}
			return v
		case -1:
			continue
		}
		pend = append(pend, struct {
			c *Term
			v Val
		}{c, substVal(w.v, map[*Term]*Term{w.x: i})})
	}
	panic("array without base")
}
func (a *Arr) write(lo, hi, x *Term, v Val) *Arr {
	n := &Arr{elem: a.elem, ver: a.ver}
	n.ws = append(append([]Wr{}, a.ws...), Wr{lo: lo, hi: hi, x: x, v: v})
	return n
}
func (s *State) arrWrite(a *Arr, i *Term, v Val) *Arr {
	// drop earlier point writes to the same index
	n := &Arr{elem: a.elem, ver: a.ver}
	for _, w := range a.ws {
		if w.lo != nil && w.lo == i && Sub(w.hi, w.lo) == one {
			continue
		}
		n.ws = append(n.ws, w)
	}
	n.ws = append(n.ws, Wr{lo: i, hi: Add(i, one), x: Fresh("j", SInt), v: v})
	return n
}

func (s *State) iteVal(c *Term, a, b Val) Val {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return Ite(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			out := make([]Val, len(x.f))
			for i := range x.f {
				out[i] = s.iteVal(c, x.f[i], y.f[i])
			}
			return &StructV{x.t, out}
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && x.o == y.o && len(x.path) == 0 && len(y.path) == 0 {
			n := x
			n.off, n.len, n.cap = Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap)
			return n
		}
	}
	if sameVal(a, b) {
		return a
	}
	return Poison{"merge of unlike values"}
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case NilV:
		_, ok := b.(NilV)
		return ok
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.o == y.o && samePath(x.path, y.path)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.o == y.o && samePath(x.path, y.path) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && sameVal(x.v, y.v)
	case ErrV:
		y, ok := b.(ErrV)
		return ok && x.ok == y.ok
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || len(x.ws) != len(y.ws) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.ws {
			p, q := x.ws[i], y.ws[i]
			if p.lo != q.lo || p.hi != q.hi {
				return false
			}
			if p.x == q.x {
				if !sameVal(p.v, q.v) {
					return false
				}
			} else if !sameVal(p.v, substVal(q.v, map[*Term]*Term{q.x: p.x})) {
				return false
			}
		}
		return true
	case *Nat:
		y, ok := b.(*Nat)
		if !ok || x.kind != y.kind || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for k := range x.f {
			if !sameVal(x.f[k], y.f[k]) {
				return false
			}
		}
		return true
	case *Content:
		y, ok := b.(*Content)
		if !ok || len(x.segs) != len(y.segs) || x.bad != y.bad {
			return false
		}
		for i := range x.segs {
			p, q := x.segs[i], y.segs[i]
			if p.n != q.n || len(p.items) != len(q.items) || p.x != q.x {
				return false
			}
			for j := range p.items {
				if p.items[j] != q.items[j] {
					return false
				}
			}
		}
		return true
	case Poison:
		_, ok := b.(Poison)
		return ok
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}
func samePath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- load / store

func (s *State) load(p Ptr) Val {
	v := s.get(p.o)
	if v == nil {
		s.badf("load of unknown object %s", p.o.name)
		return Poison{"unknown object"}
	}
	return s.loadPath(v, p.path)
}
func (s *State) loadPath(v Val, path []PE) Val {
	for _, e := range path {
		switch x := v.(type) {
		case *StructV:
			if e.idx != nil {
				s.badf("index into struct")
				return Poison{"path"}
			}
			v = x.f[e.field]
		case *Arr:
			if e.idx == nil {
				s.badf("field of array")
				return Poison{"path"}
			}
			v = s.arrRead(x, e.idx)
		case *Term:
			if x.sort == SBytes && e.idx != nil {
				v = byteAt(s.pc, x, e.idx)
				continue
			}
			// field of an opaque scalar
			v = UF(fmt.Sprintf("fld%d", e.field), SAny, x)
		case Poison:
			return x
		default:
			s.badf("load through %T", v)
			return Poison{"load"}
		}
	}
	return v
}
func (s *State) store(p Ptr, nv Val) {
	v := s.get(p.o)
	if v == nil {
		s.badf("store to unknown object %s", p.o.name)
		return
	}
	s.heap[p.o] = s.storePath(v, p.path, nv)
}
func (s *State) storePath(v Val, path []PE, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch x := v.(type) {
	case *StructV:
		f := append([]Val{}, x.f...)
		f[e.field] = s.storePath(x.f[e.field], path[1:], nv)
		return &StructV{x.t, f}
	case *Arr:
		if len(path) == 1 {
			return s.arrWrite(x, e.idx, nv)
		}
		return s.arrWrite(x, e.idx, s.storePath(s.arrRead(x, e.idx), path[1:], nv))
	case *Term:
		if x.sort == SBytes && e.idx != nil {
			if n, ok := bytesLen(x).constInt(); ok && n <= 64 {
				a := zeroArr(types.Typ[types.Uint8])
				for i := int64(0); i < n; i++ {
					a = s.arrWrite(a, I(i), byteAt(s.pc, x, I(i)))
				}
				return s.arrWrite(a, e.idx, nv)
			}
		}
	}
	s.badf("store through %T", v)
	return v
}

// ---------------------------------------------------------------- byte strings

// parts: u8(x) be16(x) ... with known lengths
func bytesLen(b *Term) *Term {
	switch b.op {
	case OCat:
		n := zero
		for _, a := range b.args {
			n = Add(n, bytesLen(a))
		}
		return n
	case OIte:
		return Ite(b.args[0], bytesLen(b.args[1]), bytesLen(b.args[2]))
	case OUF:
		switch base(b.name) {
		case "u8":
			return one
		case "be16":
			return two
		case "be32":
			return I(4)
		case "be64":
			return I(8)
		case "g1c", "sha256", "bytes32":
			return I(32)
		case "g1r", "g2c":
			return I(64)
		case "g2r":
			return I(128)
		case "zeros":
			return b.args[0]
		}
		if strings.HasPrefix(b.name, "hash32") {
			return I(32)
		}
	}
	if b.op == OVar && strings.HasPrefix(b.name, "hash32") {
		return I(32)
	}
	return UF("blen", SInt, b)
}
func byteAt(pc *PC, b, i *Term) *Term {
	parts := []*Term{b}
	if b.op == OCat {
		parts = b.args
	}
	for _, p := range parts {
		l := bytesLen(p)
		if pc.implied(Lt(i, l)) {
			if p.op == OUF && p.name == "u8" {
				return p.args[0]
			}
			if p.op == OUF && p.name == "zeros" {
				return zero
			}
			return UF("byteAt", SInt, p, i)
		}
		i = Sub(i, l)
	}
	return UF("byteAt", SInt, b, i)
}

// sliceBytes gives the content of a []byte slice as a Bytes term
func (s *State) sliceBytes(v SliceV) *Term {
	if v.o == nil {
		return emptyBytes
	}
	c := s.loadPath(s.get(v.o), v.path)
	switch x := c.(type) {
	case *Term:
		if x.sort == SBytes {
			if v.off == zero && s.pc.equal(v.len, bytesLen(x)) {
				return x
			}
			if r := cutBytes(s.pc, x, v.off, v.len); r != nil {
				return r
			}
		}
	case *Arr:
		if n, ok := v.len.constInt(); ok && n <= 64 {
			var ps []*Term
			for i := int64(0); i < n; i++ {
				e, ok := s.arrRead(x, Add(v.off, I(i))).(*Term)
				if !ok {
					s.badf("byte array element")
					return Fresh("bytes", SBytes)
				}
				ps = append(ps, UF("u8", SBytes, e))
			}
			return Cat(ps...)
		}
		if len(x.ws) == 1 {
			if z, ok := x.ws[0].v.(*Term); ok && z == zero {
				return UF("zeros", SBytes, v.len)
			}
		}
	}
	s.badf("bytes of %s", valString(c))
	return Fresh("bytes", SBytes)
}

// cutBytes returns b[off:off+n] if it falls on part boundaries or into zeros
func cutBytes(pc *PC, b, off, n *Term) *Term {
	parts := []*Term{b}
	if b.op == OCat {
		parts = b.args
	}
	if pc.equal(n, zero) {
		return emptyBytes
	}
	// drop the parts before off
	for !pc.equal(off, zero) {
		if len(parts) == 0 {
			return nil
		}
		l := bytesLen(parts[0])
		if pc.implied(Le(l, off)) {
			off = Sub(off, l)
			parts = parts[1:]
			continue
		}
		if parts[0].op != OUF || parts[0].name != "zeros" || !pc.implied(Le(off, l)) {
			return nil
		}
		parts = append([]*Term{UF("zeros", SBytes, Sub(l, off))}, parts[1:]...)
		off = zero
	}
	var out []*Term
	for !pc.equal(n, zero) {
		if len(parts) == 0 {
			return nil
		}
		l := bytesLen(parts[0])
		if pc.implied(Le(l, n)) {
			n = Sub(n, l)
			out = append(out, parts[0])
			parts = parts[1:]
			continue
		}
		if parts[0].op != OUF || parts[0].name != "zeros" || !pc.implied(Le(n, l)) {
			return nil
		}
		out = append(out, UF("zeros", SBytes, n))
		n = zero
	}
	return Cat(out...)
}

// setBytes overwrites the content of a []byte slice
func (s *State) setBytes(v SliceV, b *Term) {
	if v.o == nil {
		return
	}
	whole := false
	c := s.loadPath(s.get(v.o), v.path)
	switch x := c.(type) {
	case *Term:
		whole = v.off == zero && s.pc.equal(v.len, bytesLen(x))
	case *Arr:
		whole = v.off == zero && s.pc.equal(v.len, v.cap)
		if !whole {
			if n, ok := v.len.constInt(); ok && n <= 64 && allBytes(b) {
				for i := int64(0); i < n; i++ {
					x = s.arrWrite(x, Add(v.off, I(i)), byteAt(s.pc, b, I(i)))
				}
				s.heap[v.o] = s.storePath(s.get(v.o), v.path, x)
				return
			}
		}
	}
	if !whole {
		t, ok := c.(*Term)
		size := Add(v.off, v.cap)
		if x, isA := c.(*Arr); isA && len(x.ws) == 1 && x.ws[0].lo == nil && x.ws[0].v == Val(zero) {
			t, ok = UF("zeros", SBytes, size), true
		} else if n, small := size.constInt(); isA && small && n <= 64 {
			w := v
			w.off, w.len, w.cap = zero, size, size
			t, ok = s.sliceBytes(w), true
		}
		if ok {
			end := Add(v.off, v.len)
			p, q := cutBytes(s.pc, t, zero, v.off), cutBytes(s.pc, t, end, Sub(bytesLen(t), end))
			if p != nil && q != nil && s.pc.equal(bytesLen(b), v.len) {
				s.heap[v.o] = s.storePath(s.get(v.o), v.path, Cat(p, b, q))
				return
			}
		}
		s.badf("partial overwrite of bytes")
		return
	}
	s.heap[v.o] = s.storePath(s.get(v.o), v.path, b)
}

// allBytes: every byte of b is known by itself
func allBytes(b *Term) bool {
	if b.op == OCat {
		for _, a := range b.args {
			if !allBytes(a) {
				return false
			}
		}
		return true
	}
	return b.op == OUF && (b.name == "u8" || b.name == "zeros")
}

func (s *State) newBytes(b *Term) SliceV {
	o := s.alloc("bytes", nil, b)
	l := bytesLen(b)
	return SliceV{o: o, off: zero, len: l, cap: l, elem: types.Typ[types.Uint8]}
}
