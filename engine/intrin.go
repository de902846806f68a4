package main

// Contracts (trusted) of the standard library, gnark and gnark-crypto functions used by the code.

import (
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"strings"
)

func short(name string) string {
	name = strings.ReplaceAll(name, gc, "bn254")
	return strings.ReplaceAll(name, "github.com/consensys/", "")
}

var g1gen = Var("G1gen", SG1)
var g2gen = Var("G2gen", SG2)

func init() {
	for _, n := range []string{"G1gen", "G2gen", "rnd", "nz", "rho", "hashG2"} {
		nonZeroNames[n] = true
	}
}

// T loads a term through a pointer or takes it as is
func (x *Exec) T(st *State, v Val, s Sort) *Term {
	if p, ok := v.(Ptr); ok {
		v = st.load(p)
	}
	if iv, ok := v.(IfaceV); ok {
		return x.T(st, iv.v, s)
	}
	if t, ok := v.(*Term); ok && t.sort == s {
		return t
	}
	st.badf("expected %v, found %s (%s)", s, valString(v), x.where())
	return x.unk("unk", s)
}
func (x *Exec) where() string {
	if x.cur != nil && x.cur.Parent() != nil {
		return x.prog.prog.Fset.Position(x.cur.Pos()).String()
	}
	return ""
}
func (x *Exec) set(st *State, v Val, t Val) {
	if p, ok := v.(Ptr); ok {
		st.store(p, t)
		return
	}
	st.badf("store through %s", valString(v))
}

func seqTerm(st *State, x *Exec, s SliceV) Val { return s }

var okErr = ErrV{tTrue}

func pairTerm(a, b *Term) *Term {
	r := F(0)
	for _, p := range linOf(a) {
		for _, q := range linOf(b) {
			c := Mul(p.c, q.c)
			r = Add(r, Mul(c, pairAtom(p.p, q.p)))
		}
	}
	return r
}
func pairAtom(p, q *Term) *Term {
	if p.op == OPre {
		v := Fresh("x", SInt)
		return Pre(p.args[0], v, pairTerm(openBV(p.args[1], p.lvl, v), q))
	}
	if q.op == OPre {
		v := Fresh("x", SInt)
		return Pre(q.args[0], v, pairTerm(p, openBV(q.args[1], q.lvl, v)))
	}
	return UF("pair", SF, p, q)
}

var frOne = F(1)

func (x *Exec) intrinsic(name string, sig *types.Signature, a []Val, st *State) []Out {
	n := short(name)
	x.used[n]++
	x.useAll(st, a)
	self := func() []Out { return one1(st, a[0]) }
	// ------------------------------------------------ points
	for _, g := range []struct {
		pre  string
		s    Sort
		kind string
	}{{"bn254.G1Affine", SG1, "g1"}, {"bn254.G1Jac", SG1, "g1"}, {"bn254.G2Affine", SG2, "g2"}, {"bn254.G2Jac", SG2, "g2"}} {
		m := ""
		if strings.HasPrefix(n, "(*"+g.pre+").") {
			m = n[len(g.pre)+4:]
		} else if strings.HasPrefix(n, "("+g.pre+").") {
			m = n[len(g.pre)+3:]
		}
		if m == "" {
			continue
		}
		T := func(i int) *Term { return x.T(st, a[i], g.s) }
		switch m {
		case "Set", "FromAffine", "FromJacobian":
			x.set(st, a[0], T(1))
			return self()
		case "Add":
			x.set(st, a[0], Add(T(1), T(2)))
			return self()
		case "Sub":
			x.set(st, a[0], Sub(T(1), T(2)))
			return self()
		case "Neg":
			x.set(st, a[0], Neg(T(1)))
			return self()
		case "Double":
			x.set(st, a[0], Add(T(1), T(1)))
			return self()
		case "AddAssign", "AddMixed":
			x.set(st, a[0], Add(T(0), T(1)))
			return self()
		case "SubAssign":
			x.set(st, a[0], Sub(T(0), T(1)))
			return self()
		case "DoubleAssign":
			x.set(st, a[0], Add(T(0), T(0)))
			return self()
		case "ScalarMultiplication":
			x.set(st, a[0], Scale(x.T(st, a[2], SF), T(1)))
			return self()
		case "ScalarMultiplicationBase":
			g := g1gen
			if g.sort != T(0).sort {
				g = g2gen
			}
			x.set(st, a[0], Scale(x.T(st, a[1], SF), g))
			return self()
		case "setInfinity", "SetInfinity":
			x.set(st, a[0], O(g.s))
			return self()
		case "Equal":
			return one1(st, Eq(T(0), T(1)))
		case "IsInfinity":
			return one1(st, Eq0(T(0)))
		case "IsOnCurve", "IsInSubGroup":
			return one1(st, tTrue)
		case "Marshal":
			return one1(st, st.newBytes(UF(g.kind+"r", SBytes, T(0))))
		case "Bytes":
			return one1(st, UF(g.kind+"c", SBytes, T(0)))
		case "RawBytes":
			return one1(st, UF(g.kind+"r", SBytes, T(0)))
		case "MultiExp":
			ps, ok1 := a[1].(SliceV)
			fs, ok2 := a[2].(SliceV)
			if ok1 && ok2 {
				if ps.o == nil || fs.o == nil {
					x.set(st, a[0], O(g.s))
					return one1(st, a[0], ErrV{Eq(ps.len, fs.len)})
				}
				j := Fresh("j", SInt)
				p, k1 := x.elemAt(st, ps, j).(*Term)
				f, k2 := x.elemAt(st, fs, j).(*Term)
				if k1 && k2 {
					pc := st.pc.and(Ge0(j)).and(Lt(j, ps.len))
					if hasCond(p) {
						p = pc.mergeCases(p)
					}
					if hasCond(f) {
						f = pc.mergeCases(f)
					}
					x.set(st, a[0], SumR(zero, ps.len, j, Scale(f, p)))
					return one1(st, a[0], ErrV{Eq(ps.len, fs.len)})
				}
			}
			st.badf("MultiExp")
			return one1(st, a[0], ErrV{Fresh("ok", SBool)})
		case "String":
			return one1(st, x.unk("str", SStr))
		}
		st.badf("no contract for %s", n)
		return []Out{{st: st, ret: x.poisonResults(sig)}}
	}
	// ------------------------------------------------ scalars
	for _, pre := range []string{"bn254/fr.Element", "math/big.Int"} {
		m := ""
		if strings.HasPrefix(n, "(*"+pre+").") {
			m = n[len(pre)+4:]
		} else if strings.HasPrefix(n, "("+pre+").") {
			m = n[len(pre)+3:]
		}
		if m == "" {
			continue
		}
		T := func(i int) *Term { return x.T(st, a[i], SF) }
		switch m {
		case "Set", "SetBigInt":
			x.set(st, a[0], T(1))
			return self()
		case "SetOne":
			x.set(st, a[0], F(1))
			return self()
		case "SetZero":
			x.set(st, a[0], F(0))
			return self()
		case "SetUint64", "SetInt64":
			x.set(st, a[0], Emb(x.T(st, a[1], SInt)))
			return self()
		case "Mul":
			x.set(st, a[0], Mul(T(1), T(2)))
			return self()
		case "Add":
			x.set(st, a[0], Add(T(1), T(2)))
			return self()
		case "Sub":
			x.set(st, a[0], Sub(T(1), T(2)))
			return self()
		case "Div":
			if pre != "math/big.Int" {
				x.set(st, a[0], Mul(T(1), Inv(T(2))))
				return self()
			}
		case "Neg":
			x.set(st, a[0], Neg(T(1)))
			return self()
		case "Square":
			x.set(st, a[0], Mul(T(1), T(1)))
			return self()
		case "Double":
			x.set(st, a[0], Add(T(1), T(1)))
			return self()
		case "Inverse":
			x.set(st, a[0], Inv(T(1)))
			return self()
		case "ModInverse":
			x.set(st, a[0], Inv(T(1)))
			return self()
		case "BigInt", "ToBigIntRegular":
			x.set(st, a[1], T(0))
			return one1(st, a[1])
		case "Equal":
			return one1(st, Eq(T(0), T(1)))
		case "IsZero":
			return one1(st, Eq0(T(0)))
		case "IsOne":
			return one1(st, Eq(T(0), F(1)))
		case "SetRandom":
			if pre != "math/big.Int" {
				x.set(st, a[0], UF("rnd!"+x.site(), SF, x.clocks...))
				return one1(st, a[0], okErr)
			}
		case "Exp":
			if pre != "math/big.Int" {
				e := x.T(st, a[2], SF)
				if c, ok := fConstVal(e); ok {
					x.set(st, a[0], PowF(T(1), IntB(c)))
					return self()
				}
				if e.op == OUF && e.name == "emb" {
					x.set(st, a[0], PowF(T(1), e.args[0]))
					return self()
				}
			}
		case "String":
			return one1(st, x.unk("str", SStr))
		}
		st.badf("no contract for %s", n)
		return []Out{{st: st, ret: x.poisonResults(sig)}}
	}
	switch n {
	case "math/big.NewInt":
		o := st.alloc("bigint", nil, Emb(x.T(st, a[0], SInt)))
		return one1(st, Ptr{o: o})
	case "bn254/fr.NewElement":
		return one1(st, Emb(x.T(st, a[0], SInt)))
	case "bn254/fr.One":
		return one1(st, F(1))
	case "(*bn254/fp.Element).IsZero", "(*bn254/internal/fptower.E2).IsZero":
		t, _ := x.fieldOf(st, a[0])
		if t != nil {
			return one1(st, Eq0(t))
		}
	case "bn254.Generators":
		return one1(st, g1gen, g2gen, g1gen, g2gen)
	case "bn254.HashToG2":
		m, ok1 := a[0].(SliceV)
		d, ok2 := a[1].(SliceV)
		if ok1 && ok2 {
			return one1(st, UF("hashG2", SG2, st.sliceBytes(m), st.sliceBytes(d)), okErr)
		}
	case "bn254.PairingCheck":
		p, ok1 := a[0].(SliceV)
		q, ok2 := a[1].(SliceV)
		if ok1 && ok2 {
			k, c1 := p.len.constInt()
			k2, c2 := q.len.constInt()
			if c1 && c2 && k == k2 && k < 16 {
				s := F(0)
				good := true
				for i := int64(0); i < k; i++ {
					u, k1 := x.elemAt(st, p, I(i)).(*Term)
					v, k2 := x.elemAt(st, q, I(i)).(*Term)
					if k1 && k2 && u.sort == SG1 && v.sort == SG2 {
						s = Add(s, pairTerm(u, v))
					} else {
						good = false
					}
				}
				if good {
					return one1(st, Eq0(s), okErr)
				}
			}
		}
	// ------------------------------------------------ encoders
	case "bn254.NewDecoder":
		f := map[string]Val{"r": a[0], "n": zero}
		if s, ok := a[len(a)-1].(SliceV); ok && s.o != nil && s.len != zero {
			st.badf("decoder options")
		}
		if iv, ok := a[0].(IfaceV); ok {
			f["r"] = iv.v
		}
		return one1(st, newNat(st, "dec", f))
	case "bn254.NewEncoder":
		f := map[string]Val{"w": a[0], "n": zero, "raw": tFalse}
		if iv, ok := a[0].(IfaceV); ok {
			f["w"] = iv.v
		}
		if s, ok := a[len(a)-1].(SliceV); ok && s.o != nil {
			if k, ok := s.len.constInt(); ok {
				for i := int64(0); i < k; i++ {
					if o, ok := x.elemAt(st, s, I(i)).(FuncV); ok && o.name == "opt.raw" {
						f["raw"] = tTrue
					} else {
						st.badf("encoder option")
					}
				}
			}
		}
		return one1(st, newNat(st, "enc", f))
	case "bn254.RawEncoding":
		return one1(st, FuncV{name: "opt.raw"})
	case "(*bn254.Decoder).Decode":
		if o, d := x.nat(st, a[0], "dec"); d != nil {
			return x.decode(st, o, d, a[1])
		}
	case "(*bn254.Decoder).BytesRead":
		if _, d := x.nat(st, a[0], "dec"); d != nil {
			// every point may come in the uncompressed encoding, which is longer
			src := x.sourcePath(st, d.f["r"])
			return one1(st, Add(nt(d, "n"), UF("slack", SInt, src)))
		}
	case "(*bn254.Encoder).Encode":
		if o, e := x.nat(st, a[0], "enc"); e != nil {
			return x.encode(st, o, e, a[1])
		}
	case "(*bn254.Encoder).BytesWritten":
		if _, e := x.nat(st, a[0], "enc"); e != nil {
			return one1(st, nt(e, "n"))
		}
	// ------------------------------------------------ files
	case "os.Open", "os.Create", "os.OpenFile":
		p := x.T(st, a[0], SStr)
		mode := int64(0)
		if n == "os.Create" {
			mode = 1
		}
		if n == "os.OpenFile" {
			fl, ok := x.T(st, a[1], SInt).constInt()
			switch {
			case ok && fl == 0:
			case ok && fl&0x3 != 0 && fl&0x200 != 0:
				mode = 1
			case ok && fl&0x3 != 0 && fl&0x400 != 0:
				mode = 2
			default:
				st.badf("OpenFile flags")
			}
		}
		ok := st.newOk("open")
		f := newNat(st, "file", map[string]Val{"path": p, "pos": zero, "mode": I(mode), "gen": zero, "open": ok})
		if mode == 1 {
			st.fs[p] = &Content{}
		}
		return one1(st, f, ErrV{ok})
	case "(*os.File).Close":
		return one1(st, okErr)
	case "(*os.File).Sync":
		return one1(st, ErrV{st.newOk("sync")})
	case "(*os.File).Seek":
		o, f := x.nat(st, a[0], "file")
		if f == nil {
			break
		}
		off, wh := x.T(st, a[1], SInt), x.T(st, a[2], SInt)
		if m, _ := nt(f, "mode").constInt(); m != 0 {
			st.badf("Seek on an output file")
		}
		ok := st.newOk("seek")
		w, _ := wh.constInt()
		var pos *Term
		switch w {
		case 0:
			pos = off
		case 1:
			pos = Add(nt(f, "pos"), off)
		default:
			pos = Add(x.fileOf(st, nt(f, "path")).size(), off)
		}
		st.heap[o] = f.with("pos", pos).with("gen", Add(nt(f, "gen"), one))
		return one1(st, pos, ErrV{ok})
	case "(*os.File).Write", "(*bufio.Writer).Write", "(*bytes.Buffer).Write", "invoke.Write":
		if s, ok := a[1].(SliceV); ok {
			b := st.sliceBytes(s)
			var its []Item
			parts := []*Term{b}
			if b.op == OCat {
				parts = b.args
			}
			for _, p := range parts {
				k, isK := itemSize[p.name]
				if p.op == OUF && isK && len(p.args) == 1 && k > 0 {
					its = append(its, Item{p.name, p.args[0], I(k)})
				} else {
					its = append(its, Item{"bytes", p, bytesLen(p)})
				}
			}
			if len(its) == 0 {
				return one1(st, s.len, okErr)
			}
			ok := x.write(st, unI(a[0]), one1seg(its...))
			return one1(st, s.len, ErrV{ok})
		}
	case "invoke.Sum":
		if _, h := x.nat(st, a[0], "sha"); h != nil {
			pre, ok := a[1].(SliceV)
			if _, isNil := a[1].(NilV); isNil || ok {
				b := nt(h, "b")
				if b == nil {
					b = emptyBytes
				}
				r := UF("sha256", SBytes, b)
				if ok && pre.o != nil {
					r = Cat(st.sliceBytes(pre), r)
				}
				return one1(st, st.newBytes(r))
			}
		}
	case "invoke.Reset":
		if o, h := x.nat(st, a[0], "sha"); h != nil {
			st.heap[o] = h.with("b", emptyBytes)
			return one1(st)
		}
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Buffer).Reset":
		if o, h := x.nat(st, a[0], "buffer"); h != nil {
			b := nt(h, "b")
			if b == nil {
				b = emptyBytes
			}
			switch name[len("(*bytes.Buffer)."):] {
			case "Bytes":
				return one1(st, st.newBytes(b))
			case "Len":
				return one1(st, bytesLen(b))
			}
			st.heap[o] = h.with("b", emptyBytes)
			return one1(st)
		}
	case "crypto/sha256.New":
		return one1(st, IfaceV{nil, newNat(st, "sha", map[string]Val{"b": emptyBytes})})
	case "crypto/sha256.Sum256":
		if s, ok := a[0].(SliceV); ok {
			return one1(st, UF("sha256", SBytes, st.sliceBytes(s)))
		}
	case "bytes.Equal":
		u, ok1 := a[0].(SliceV)
		v, ok2 := a[1].(SliceV)
		if ok1 && ok2 {
			return one1(st, Eq(st.sliceBytes(u), st.sliceBytes(v)))
		}
	case "bufio.NewReader", "bufio.NewReaderSize":
		if _, b := x.nat(st, a[0], "breader"); b != nil {
			return one1(st, unI(a[0])) // an adequate buffered reader is returned as is
		}
		return one1(st, newNat(st, "breader", map[string]Val{"file": unI(a[0]), "touched": tFalse, "pos": zero, "gen": zero}))
	case "(*bufio.Reader).Reset":
		if o, b := x.nat(st, a[0], "breader"); b != nil {
			st.heap[o] = b.with("file", unI(a[1])).with("touched", tFalse)
			return one1(st)
		}
	case "(*bufio.Reader).Discard":
		if s := x.source(st, a[0]); s != nil {
			k := x.T(st, a[1], SInt)
			s.adv(k)
			return one1(st, k, ErrV{st.newOk("read")})
		}
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return one1(st, newNat(st, "bwriter", map[string]Val{"file": unI(a[0]), "pend": &Content{}, "ep": st.newOk("write"), "used": tFalse}))
	case "(*bufio.Writer).Flush":
		if o, w := x.nat(st, a[0], "bwriter"); w != nil {
			return one1(st, ErrV{x.flush(st, o, w)})
		}
	case "io.ReadFull":
		if b, ok := a[1].(SliceV); ok {
			if s := x.source(st, unI(a[0])); s != nil {
				ok := st.newOk("read")
				v := x.readBytes(st, s, b.len)
				st.setBytes(b, v)
				s.adv(b.len)
				return one1(st, b.len, ErrV{ok})
			}
		}
	case "(*bufio.Reader).Read", "(*os.File).Read", "invoke.Read":
		if b, ok := a[1].(SliceV); ok {
			if s := x.source(st, unI(a[0])); s != nil {
				ok := st.newOk("read")
				k := x.unk("short", SInt)
				st.assume(And(Ge0(k), Le(k, b.len)))
				if b.o != nil {
					if r := x.unk("shortbytes", SBytes); len(b.path) == 0 {
						st.assume(Eq(bytesLen(r), b.len))
						st.setBytes(b, r)
					}
				}
				s.adv(k)
				return one1(st, k, ErrV{ok})
			}
		}
	case "(*bufio.Reader).ReadByte":
		if s := x.source(st, a[0]); s != nil {
			ok := st.newOk("read")
			v := x.readOne(st, s, "u8", SInt)
			st.assume(And(Ge0(v), Le(v, I(255))))
			s.adv(one)
			return one1(st, v, ErrV{ok})
		}
	case "encoding/binary.Read":
		if s := x.source(st, unI(a[0])); s != nil {
			p := newNat(st, "dec", map[string]Val{"r": unI(a[0]), "n": zero})
			o, d := x.nat(st, p, "dec")
			arg := a[2]
			if iv, ok := arg.(IfaceV); ok {
				if sl, ok := iv.v.(SliceV); ok {
					po := st.alloc("tmp", nil, sl)
					arg = IfaceV{types.NewPointer(iv.t), Ptr{o: po}}
				}
			}
			return x.decode(st, o, d, arg)
		}
	case "encoding/binary.Write":
		p := newNat(st, "enc", map[string]Val{"w": unI(a[0]), "n": zero, "raw": tFalse})
		o, e := x.nat(st, p, "enc")
		return x.encode(st, o, e, a[2])
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		if s, ok := a[1].(SliceV); ok {
			kind := map[byte]string{'6': "be16", '2': "be32", '4': "be64"}[n[len(n)-1]]
			b := st.sliceBytes(SliceV{o: s.o, path: s.path, off: s.off, len: I(itemSize[kind]), cap: s.cap, elem: s.elem})
			if b.op == OUF && b.name == kind {
				return one1(st, b.args[0])
			}
			v := UF("dec"+kind, SInt, b)
			lim := map[string]uint{"be16": 16, "be32": 32, "be64": 62}[kind]
			st.assume(And(Ge0(v), Lt(v, I(1<<lim))))
			return one1(st, v)
		}
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		if s, ok := a[1].(SliceV); ok {
			kind := map[byte]string{'6': "be16", '2': "be32", '4': "be64"}[n[len(n)-1]]
			s.len = I(itemSize[kind])
			st.setBytes(s, UF(kind, SBytes, x.T(st, a[2], SInt)))
			return one1(st)
		}
	case "encoding/gob.NewDecoder":
		return one1(st, newNat(st, "gobdec", map[string]Val{"r": unI(a[0])}))
	case "encoding/gob.NewEncoder":
		return one1(st, newNat(st, "gobenc", map[string]Val{"w": unI(a[0]), "first": tTrue}))
	case "(*encoding/gob.Encoder).Encode":
		if o, g := x.nat(st, a[0], "gobenc"); g != nil {
			if iv, ok := a[1].(IfaceV); ok {
				if nt(g, "first") != tTrue {
					st.badf("second Encode of a gob encoder")
				}
				st.heap[o] = g.with("first", tFalse)
				v, t := iv.v, iv.t
				if el := ptrElem(t); el != nil {
					if p, ok := v.(Ptr); ok {
						v, t = st.load(p), el
					}
				}
				k := gobTerm(v, t)
				return one1(st, ErrV{x.write(st, g.f["w"], one1seg(Item{"gob", k, UF("gobsz", SInt, k)}))})
			}
		}
	case "(*encoding/gob.Decoder).Decode":
		if _, g := x.nat(st, a[0], "gobdec"); g != nil {
			iv, ok := a[1].(IfaceV)
			s := x.source(st, g.f["r"])
			if !ok || s == nil {
				break
			}
			p, ok := iv.v.(Ptr)
			if !ok {
				break
			}
			okl := st.newOk("read")
			t := ptrElem(iv.t)
			if !sameVal(st.load(p), zeroVal(t)) {
				st.badf("gob Decode into a non-zero value")
			}
			it, found := x.fileOf(st, s.path).find(st.pc, s.pos)
			if found && it.kind == "gob" {
				if v, ok := gobVal(it.t, t); ok {
					st.store(p, v)
					if s.raw {
						s.adv(x.unk("overread", SInt))
					} else {
						s.adv(it.size)
					}
					return one1(st, ErrV{okl})
				}
			}
			if debugRead {
				fmt.Println("GOB mismatch at", s.pos, x.fileOf(st, s.path))
			}
			st.store(p, x.unkVal(t, "garbage"))
			k := x.unk("gobsize", SInt)
			st.assume(Ge0(k))
			s.adv(k)
			return one1(st, ErrV{okl})
		}
	// ------------------------------------------------ numbers
	case "math.Pow":
		b, e := x.T(st, a[0], SInt), x.T(st, a[1], SInt)
		if b == two {
			return one1(st, Pow2(e))
		}
		if b.op == OConst && e.op == OConst && b.n.Sign() > 0 && e.n.Sign() >= 0 && e.n.IsInt64() && e.n.Int64() <= 64 {
			if v := new(big.Int).Exp(b.n, e.n, nil); v.BitLen() <= 53 {
				return one1(st, IntB(v))
			}
		}
	case "math.Min":
		return one1(st, Min(x.T(st, a[0], SInt), x.T(st, a[1], SInt)))
	case "math.Max":
		return one1(st, Max(x.T(st, a[0], SInt), x.T(st, a[1], SInt)))
	case "math/bits.TrailingZeros64", "math/bits.TrailingZeros":
		v := x.T(st, a[0], SInt)
		if e := log2Of(v); e != nil {
			return one1(st, e)
		}
		return one1(st, UF("ctz", SInt, v))
	case "math/bits.Reverse64":
		return one1(st, UF("reverse64", SInt, x.T(st, a[0], SInt)))
	case "math/bits.Len64", "math/bits.Len":
		v := x.T(st, a[0], SInt)
		if e := log2Of(v); e != nil {
			return one1(st, Add(e, one))
		}
		return one1(st, UF("bitlen", SInt, v))
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		c := Var("numCPU", SInt)
		if n != "runtime.NumCPU" {
			c = Var("maxProcs", SInt)
		}
		st.assume(Ge0(Sub(c, one)))
		return one1(st, c)
	case "gnark-crypto/ecc.NextPowerOfTwo":
		return one1(st, nextPow2(x.T(st, a[0], SInt)))
	// ------------------------------------------------ errors, printing
	case "errors.New", "fmt.Errorf":
		return one1(st, ErrV{tFalse})
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprintf":
		return one1(st, x.unk("n", SInt), okErr)
	case "log.Println", "log.Printf", "log.Print":
		return one1(st)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		return []Out{{st: st, panic: true, why: n}}
	case "fmt.Sprintf":
		if f := x.T(st, a[0], SStr); isLit(f) {
			if s, ok := a[1].(SliceV); ok {
				if r := x.sprintf(st, litOf(f), s); r != nil {
					return one1(st, r)
				}
			}
		}
		return one1(st, x.unk("sprintf", SStr))
	case "fmt.Sprint", "fmt.Sprintln", "encoding/hex.EncodeToString":
		return one1(st, x.unk("str", SStr))
	case "time.Now", "time.Since", "(time.Duration).String", "(time.Duration).Seconds":
		return []Out{{st: st, ret: x.poisonResults(sig)}}
	case "strconv.Atoi":
		s := x.T(st, a[0], SStr)
		// on an error the number is 0 or the nearest bound of int, as documented
		ok, n := UF("atoiOK", SBool, s), UF("atoi", SInt, s)
		top := new(big.Int).Lsh(big.NewInt(1), 63)
		st.assume(Or(ok, Or(Eq(n, I(0)), Or(Eq(n, IntB(new(big.Int).Sub(top, big.NewInt(1)))), Eq(n, IntB(new(big.Int).Neg(top)))))))
		return one1(st, n, ErrV{ok})
	case "strconv.Itoa":
		return one1(st, UF("itoa", SStr, x.T(st, a[0], SInt)))
	// ------------------------------------------------ sync
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return x.syncOp(st, n, a)
	}
	if r := x.gnark(n, sig, a, st); r != nil {
		return r
	}
	if strings.HasSuffix(n, ").Error") {
		return one1(st, x.unk("str", SStr))
	}
	if strings.HasSuffix(n, ".init") {
		return one1(st)
	}
	st.badf("no contract for %s (%s)", n, x.where())
	return []Out{{st: st, ret: x.poisonResults(sig)}}
}

func unI(v Val) Val {
	if iv, ok := v.(IfaceV); ok {
		return iv.v
	}
	return v
}

func (x *Exec) sourcePath(st *State, v Val) *Term {
	_, n := x.nat(st, v, "")
	if n == nil {
		return Fresh("path", SStr)
	}
	if n.kind == "breader" {
		return x.sourcePath(st, n.f["file"])
	}
	if p := nt(n, "path"); p != nil {
		return p
	}
	return Fresh("path", SStr)
}

// fieldOf: a pointer to the first coordinate of a point yields the point
func (x *Exec) fieldOf(st *State, v Val) (*Term, int) {
	p, ok := v.(Ptr)
	if !ok || len(p.path) == 0 && p.o == nil {
		return nil, 0
	}
	if k := len(p.path); k > 0 && p.path[k-1].idx == nil {
		b := st.load(Ptr{p.o, p.path[:k-1]})
		if t, ok := b.(*Term); ok && (t.sort == SG1 || t.sort == SG2) && p.path[k-1].field == 0 {
			return t, 0
		}
	}
	return nil, 0
}

func (x *Exec) sprintf(st *State, f string, args SliceV) *Term {
	n, ok := args.len.constInt()
	if !ok {
		return nil
	}
	r := StrLit("")
	k := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = strCat(r, StrLit(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) || k >= n || (f[i] != 's' && f[i] != 'v') {
			return nil
		}
		v, ok := x.elemAt(st, args, I(k)).(IfaceV)
		if !ok {
			return nil
		}
		t, ok := v.v.(*Term)
		if !ok || t.sort != SStr {
			return nil
		}
		r = strCat(r, t)
		k++
	}
	return r
}

// implication of library values from gnark (constraint systems, fft domains, commitment keys)
func (x *Exec) gnark(n string, sig *types.Signature, a []Val, st *State) []Out {
	switch n {
	// ------------------------------------------------ command line (github.com/urfave/cli)
	case "(*github.com/urfave/cli/v2.Context).Args":
		return one1(st, IfaceV{nil, newNat(st, "cliargs", nil)})
	case "(*github.com/urfave/cli/v2.Context).NArg", "invoke.Len":
		if _, c := x.nat(st, a[0], ""); c != nil && (c.kind == "cliargs" || c.kind == "clictx") {
			return one1(st, cliN)
		}
	case "invoke.Present":
		if _, c := x.nat(st, a[0], "cliargs"); c != nil {
			return one1(st, Ge0(Sub(cliN, one)))
		}
	case "invoke.First":
		if _, c := x.nat(st, a[0], "cliargs"); c != nil {
			return one1(st, cliArg(zero))
		}
	case "invoke.Get":
		if _, c := x.nat(st, a[0], "cliargs"); c != nil {
			return one1(st, cliArg(x.T(st, a[1], SInt)))
		}
	case "invoke.Slice":
		if _, c := x.nat(st, a[0], "cliargs"); c != nil {
			j := Fresh("j", SInt)
			el := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			o := st.alloc("args", nil, &Arr{elem: el, ws: []Wr{{x: j, v: cliArg(j)}}})
			return one1(st, SliceV{o: o, off: zero, len: cliN, cap: cliN, elem: el})
		}
	case "(*github.com/urfave/cli/v2.App).Run":
		if p, ok := a[0].(Ptr); ok {
			cliRuns = append(cliRuns, cliRun{st.clone(), st.load(p), a[1]})
			return one1(st, ErrV{st.newOk("command")})
		}
	// ------------------------------------------------ constraint systems
	case "(*gnark/constraint/bn254.R1CS).ReadFrom":
		if p, ok := a[0].(Ptr); ok {
			src := x.source(st, unI(a[1]))
			if src == nil {
				break
			}
			t := x.readOne(st, src, "r1cs", SAny)
			okv := st.newOk("reading the circuit")
			if t.op == OVar {
				st.store(p, symVal(sig.Recv().Type().(*types.Pointer).Elem(), t.name))
				return one1(st, Fresh("n", SInt), ErrV{okv})
			}
		}
	case "(*gnark/constraint.R1CSCore).GetNbConstraints", "(*gnark/constraint.R1CSCore).GetNbR1C":
		// without lazy constraints (those only come from the parted form)
		if v, ok := x.structField(st, a[0], "Constraints").(SliceV); ok {
			return one1(st, v.len)
		}
	case "(*gnark/constraint.System).GetNbPublicVariables":
		if v, ok := x.structField(st, a[0], "Public").(SliceV); ok {
			return one1(st, v.len)
		}
	case "(*gnark/constraint.System).GetNbSecretVariables":
		if v, ok := x.structField(st, a[0], "Secret").(SliceV); ok {
			return one1(st, v.len)
		}
	case "(*gnark/constraint.System).GetNbInternalVariables":
		if v, ok := x.structField(st, a[0], "NbInternalVariables").(*Term); ok {
			return one1(st, v)
		}
	case "(*gnark/constraint.Term).WireID", "(*gnark/constraint.Term).CoeffID":
		f := "VID"
		if strings.HasSuffix(n, "CoeffID") {
			f = "CID"
		}
		if v, ok := x.structField(st, a[0], f).(*Term); ok {
			return one1(st, v)
		}
	case "(*gnark/constraint.Commitment).Is":
		if v, ok := x.structField(st, a[0], "Committed").(SliceV); ok {
			return one1(st, Not(Eq0(v.len)))
		}
	case "(*gnark/constraint.Commitment).PrivateCommitted":
		v, ok := x.structField(st, a[0], "Committed").(SliceV)
		p, ok2 := x.structField(st, a[0], "NbPrivateCommitted").(*Term)
		if ok && ok2 {
			v.off, v.len, v.cap = Add(v.off, Sub(v.len, p)), p, Sub(v.cap, Sub(v.len, p))
			return one1(st, v)
		}
	case "gnark/backend/groth16.NewVerifyingKey":
		return one1(st, IfaceV{sig.Results().At(0).Type(), newNat(st, "vk", map[string]Val{"from": StrLit("")})})
	case "invoke.ReadFrom":
		if o, v := x.nat(st, a[0], "vk"); v != nil {
			if _, f := x.nat(st, unI(a[1]), "file"); f != nil {
				// reading a file that couldn't be opened fails
				ok := st.newOk("reading the verifying key")
				st.assume(Implies(ok, nt(f, "open")))
				st.heap[o] = v.with("from", nt(f, "path"))
				return one1(st, Fresh("n", SInt), ErrV{ok})
			}
		}
	case "invoke.ExportSolidity":
		if _, v := x.nat(st, a[0], "vk"); v != nil {
			return one1(st, ErrV{x.write(st, unI(a[1]), one1seg(Item{"solidity", UF("solidity", SAny, nt(v, "from")), Fresh("size", SInt)}))})
		}
	case "bn254/fr/pedersen.Setup":
		if s, ok := a[0].(SliceV); ok {
			j := Fresh("j", SInt)
			k := x.unk("pedkey", SAny)
			r := pedKey{n: s.len, x: j}
			if s.o != nil {
				r.v, _ = x.elemAt(st, s, j).(*Term)
			}
			pedReg[k] = r
			return one1(st, k, ErrV{st.newOk("random")})
		}
	case "(*bn254/fr/pedersen.Key).WriteTo":
		k := x.T(st, a[0], SAny)
		it := mkItem("pedkey", k)
		return one1(st, it.size, ErrV{x.write(st, unI(a[1]), one1seg(it))})
	case "bn254/fr/fft.NewDomain":
		c := nextPow2(x.T(st, a[0], SInt))
		return one1(st, Ptr{o: st.alloc("domain", nil, domainVal(sig.Results().At(0).Type().(*types.Pointer).Elem(), c))})
	case "(*bn254/fr/fft.Domain).WriteTo":
		p, ok := a[0].(Ptr)
		if !ok {
			break
		}
		d, ok := st.load(p).(*StructV)
		if !ok || !sameVal(d, domainVal(d.t, d.f[0].(*Term))) {
			break
		}
		return one1(st, I(168), ErrV{x.write(st, unI(a[1]), one1seg(domainItem(d.f[0].(*Term))))})
	}
	return nil
}

// log2Of is the logarithm of a power of two
func log2Of(v *Term) *Term {
	if c, ok := v.constInt(); ok && c > 0 && c&(c-1) == 0 {
		return I(int64(bits.TrailingZeros64(uint64(c))))
	}
	if v.op == OUF && v.name == "nextpow2" {
		return UF("clog2", SInt, v.args[0])
	}
	ms := monosOf(v)
	if len(ms) == 1 && len(ms[0].fs) == 1 && ms[0].fs[0].a.op == OPow2 && ms[0].fs[0].e == one {
		if c := ms[0].c; c.Sign() > 0 && c.TrailingZeroBits() == uint(c.BitLen()-1) {
			return Add(I(int64(c.TrailingZeroBits())), ms[0].fs[0].a.args[0])
		}
	}
	return nil
}

func init() {
	ufFacts["clog2"] = func(t *Term) []*Term {
		a := t.args[0]
		return []*Term{Ge0(t), Eq(Pow2(t), UF("nextpow2", SInt, a)), Implies(Le(one, a), And(Le(a, Pow2(t)), Lt(Pow2(t), MulC(2, a))))}
	}
}

// structField reads a field of the structure a pointer leads to
func (x *Exec) structField(st *State, p Val, name string) Val {
	q, ok := p.(Ptr)
	if !ok {
		return nil
	}
	v, ok := st.load(q).(*StructV)
	if !ok {
		return nil
	}
	s := v.t.Underlying().(*types.Struct)
	for i := range v.f {
		if s.Field(i).Name() == name {
			return v.f[i]
		}
	}
	return nil
}

// the arguments of a command
var cliN = UF("cli.args.len", SInt)

func cliArg(i *Term) *Term { return UF("cli.arg", SStr, i) }

type cliRun struct {
	st   *State
	app  Val
	args Val
}

var cliRuns []cliRun

// commitment keys made by pedersen.Setup, and the basis they were made of
type pedKey struct{ n, x, v *Term }

var pedReg = map[*Term]pedKey{}

func domainItem(card *Term) Item { return Item{"domain", UF("domain", SAny, card), I(168)} }

// domainVal is the FFT domain with the given cardinality (a power of two)
func domainVal(t types.Type, card *Term) Val {
	v := zeroVal(t).(*StructV)
	s := t.Underlying().(*types.Struct)
	w := UF("omega", SF, card)
	for i := range v.f {
		switch s.Field(i).Name() {
		case "Cardinality":
			v.f[i] = card
		case "CardinalityInv":
			v.f[i] = Inv(Emb(card))
		case "Generator":
			v.f[i] = w
		case "GeneratorInv":
			v.f[i] = Inv(w)
		default:
			v.f[i] = symVal(s.Field(i).Type(), "domain."+s.Field(i).Name(), card)
		}
	}
	return v
}
