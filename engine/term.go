package main

// Hash-consed terms with normal forms.
//   Int  : polynomials with integer coefficients over atoms
//   F    : Laurent polynomials over atoms (exponents are Int terms) with integer coefficients
//   G1/G2: linear combinations of point atoms with F coefficients
//   sums : prefix sums  pre(n, \j. body)  =  sum over 0 <= j < n of body, extended to all integers by telescoping

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SF
	SG1
	SG2
	SBytes
	SStr
	SAny
)

var sortNames = []string{"Int", "Bool", "F", "G1", "G2", "Bytes", "Str", "Any"}

func (s Sort) String() string { return sortNames[s] }

type Op uint8

const (
	OConst Op = iota // Int, Bool(0/1)
	OVar
	OBV
	OUF
	OPoly
	OLin
	OPre // prefix sum: args[0]=hi, args[1]=body (over BV(level n))
	OIte
	ONot
	OAnd
	OOr
	OLe0 // args[0] >= 0  (Int)
	OEq0 // args[0] == 0  (Int, F, G1, G2)
	OEq  // generic equality of Bytes, Str, Any
	OMin
	OMax
	ODiv // Euclidean
	OMod
	OPow2
	OCat // Bytes
)

type Factor struct {
	a *Term // atom
	e *Term // Int exponent
}
type Mono struct {
	c  *big.Int
	fs []Factor
}
type LTerm struct {
	c *Term // F
	p *Term // atom
}

type Term struct {
	id    int
	op    Op
	sort  Sort
	name  string
	n     *big.Int
	lvl   int // BV level, or (OPre) level of the bound variable
	args  []*Term
	monos []Mono
	lin   []LTerm
	maxbv int  // largest BV level occurring free or bound in the term
	hasV  bool // contains variables (non ground)
}

var termTab = map[string]*Term{}
var termCnt int

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	termCnt++
	t.id = termCnt
	if t.op == OBV {
		t.maxbv = t.lvl
	}
	if t.op == OPre && t.lvl > t.maxbv {
		t.maxbv = t.lvl
	}
	up := func(x *Term) {
		if x.maxbv > t.maxbv {
			t.maxbv = x.maxbv
		}
		t.hasV = t.hasV || x.hasV
	}
	for _, a := range t.args {
		up(a)
	}
	for _, m := range t.monos {
		for _, f := range m.fs {
			up(f.a)
			up(f.e)
		}
	}
	for _, l := range t.lin {
		up(l.c)
		up(l.p)
	}
	if t.op == OVar || t.op == OBV {
		t.hasV = true
	}
	termTab[key] = t
	return t
}

func ids(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, ",%d", t.id)
	}
	return b.String()
}

// ---------------------------------------------------------------- basics

func IntB(n *big.Int) *Term {
	return intern("i"+n.String(), func() *Term { return &Term{op: OConst, sort: SInt, n: new(big.Int).Set(n)} })
}
func I(n int64) *Term { return IntB(big.NewInt(n)) }

var zero, one, two = I(0), I(1), I(2)
var tTrue = intern("true", func() *Term { return &Term{op: OConst, sort: SBool, n: big.NewInt(1)} })
var tFalse = intern("false", func() *Term { return &Term{op: OConst, sort: SBool, n: big.NewInt(0)} })

func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Var(name string, s Sort) *Term {
	return intern("v"+s.String()+":"+name, func() *Term { return &Term{op: OVar, sort: s, name: name} })
}

var freshCnt int

func Fresh(prefix string, s Sort) *Term {
	freshCnt++
	return Var(fmt.Sprintf("%s!%d", prefix, freshCnt), s)
}
func BV(l int) *Term {
	return intern(fmt.Sprintf("b%d", l), func() *Term { return &Term{op: OBV, sort: SInt, lvl: l} })
}
func raw(op Op, s Sort, name string, args ...*Term) *Term {
	return intern(fmt.Sprintf("%d/%d/%s(%s", op, s, name, ids(args)), func() *Term {
		return &Term{op: op, sort: s, name: name, args: append([]*Term{}, args...)}
	})
}

// UF applies an uninterpreted function; rules registered in ufRules may rewrite it.
var ufRules = map[string]func(args []*Term) *Term{}

func UF(name string, s Sort, args ...*Term) *Term {
	if r, ok := ufRules[name]; ok {
		if t := r(args); t != nil {
			return t
		}
	}
	return raw(OUF, s, name, args...)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) constInt() (int64, bool) {
	if t.op == OConst && t.sort == SInt && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}

// ---------------------------------------------------------------- polynomials

func monoKey(fs []Factor) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%d^%d;", f.a.id, f.e.id)
	}
	return b.String()
}

func monosOf(t *Term) []Mono {
	switch {
	case t.op == OPoly:
		return t.monos
	case t.op == OConst:
		if t.n.Sign() == 0 {
			return nil
		}
		return []Mono{{c: t.n}}
	default:
		return []Mono{{c: big.NewInt(1), fs: []Factor{{t, one}}}}
	}
}

func fConst(n *big.Int) *Term {
	return intern("f"+n.String(), func() *Term {
		return &Term{op: OPoly, sort: SF, monos: constMonos(n)}
	})
}
func constMonos(n *big.Int) []Mono {
	if n.Sign() == 0 {
		return nil
	}
	return []Mono{{c: new(big.Int).Set(n)}}
}
func F(n int64) *Term { return fConst(big.NewInt(n)) }

func fConstVal(t *Term) (*big.Int, bool) {
	if t.op != OPoly || t.sort != SF {
		return nil, false
	}
	if len(t.monos) == 0 {
		return big.NewInt(0), true
	}
	if len(t.monos) == 1 && len(t.monos[0].fs) == 0 {
		return t.monos[0].c, true
	}
	return nil, false
}

// mkPoly builds a term out of monomials (already with sorted factors)
func mkPoly(s Sort, ms []Mono) *Term {
	acc := map[string]int{}
	out := make([]Mono, 0, len(ms))
	keys := []string{}
	for _, m := range ms {
		if s == SF && len(foldUF) > 0 {
			m = foldMono(m)
		}
		k := monoKey(m.fs)
		if i, ok := acc[k]; ok {
			out[i].c = new(big.Int).Add(out[i].c, m.c)
		} else {
			acc[k] = len(out)
			out = append(out, m)
			keys = append(keys, k)
		}
	}
	type km struct {
		k string
		m Mono
	}
	var l []km
	for i := range out {
		if out[i].c.Sign() != 0 && !(s == SF && contradictory(out[i].fs)) {
			l = append(l, km{keys[i], out[i]})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
	if s == SInt {
		if len(l) == 0 {
			return zero
		}
		if len(l) == 1 {
			if len(l[0].m.fs) == 0 {
				return IntB(l[0].m.c)
			}
			if len(l[0].m.fs) == 1 && l[0].m.fs[0].e == one && l[0].m.c.IsInt64() && l[0].m.c.Int64() == 1 {
				return l[0].m.fs[0].a
			}
		}
	} else {
		if len(l) == 1 && len(l[0].m.fs) == 1 && l[0].m.fs[0].e == one && l[0].m.c.IsInt64() && l[0].m.c.Int64() == 1 {
			return l[0].m.fs[0].a
		}
	}
	if s == SF {
		if len(l) == 0 {
			return intern("f0", func() *Term { return &Term{op: OPoly, sort: SF} })
		}
		if len(l) == 1 && len(l[0].m.fs) == 0 {
			return fConst(l[0].m.c)
		}
	}
	var kb strings.Builder
	fmt.Fprintf(&kb, "p%d:", s)
	fin := make([]Mono, len(l))
	for i, x := range l {
		fmt.Fprintf(&kb, "%s*%s+", x.m.c.String(), x.k)
		fin[i] = x.m
	}
	return intern(kb.String(), func() *Term { return &Term{op: OPoly, sort: s, monos: fin} })
}

// order parameters: an atom z registered here satisfies z^m = -1 for the Int atom m
var halfOrder = map[*Term]*Term{}

// normFactors merges equal atoms, sorts, and returns a sign
func normFactors(fs []Factor) ([]Factor, int) {
	m := map[*Term]*Term{}
	var order []*Term
	for _, f := range fs {
		if e, ok := m[f.a]; ok {
			m[f.a] = Add(e, f.e)
		} else {
			m[f.a] = f.e
			order = append(order, f.a)
		}
	}
	sign := 1
	var out []Factor
	for _, a := range order {
		e := m[a]
		if ho, ok := halfOrder[a]; ok {
			var s int
			e, s = reduceHalfOrder(e, ho)
			sign *= s
		}
		if e == zero {
			continue
		}
		if a.op == OIte && a.sort == SF && isIndicator(a) {
			if c, ok := e.constInt(); ok && c >= 1 {
				e = one
			}
		}
		out = append(out, Factor{a, e})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].a.id < out[j].a.id })
	return out, sign
}

// foldUF has the values of functions at constants: [x = c]*f(x) is [x = c]*foldUF[f](c)
var foldUF = map[string]map[int64]int64{}

func foldMono(m Mono) Mono {
	for i, f := range m.fs {
		tab := foldUF[f.a.name]
		if f.a.op != OUF || tab == nil || f.e != one {
			continue
		}
		for _, g := range m.fs {
			if !isIndicator(g.a) || g.a.args[0].op != OEq0 || g.a.args[0].args[0].sort != SInt {
				continue
			}
			e := g.a.args[0].args[0]
			c, ok := Sub(f.a.args[0], e).constInt()
			if !ok {
				c, ok = Add(f.a.args[0], e).constInt()
			}
			if v, known := tab[c]; ok && known {
				fs := append(append([]Factor{}, m.fs[:i]...), m.fs[i+1:]...)
				return Mono{c: new(big.Int).Mul(m.c, big.NewInt(v)), fs: fs}
			}
		}
	}
	return m
}

// contradictory: two of the factors are indicators of x = c and x = d, c != d
func contradictory(fs []Factor) bool {
	for i, f := range fs {
		if !isIndicator(f.a) || f.a.args[0].op != OEq0 {
			continue
		}
		for _, g := range fs[:i] {
			if !isIndicator(g.a) || g.a.args[0].op != OEq0 {
				continue
			}
			a, b := f.a.args[0].args[0], g.a.args[0].args[0]
			if a.sort == SInt && b.sort == SInt {
				if c, ok := Sub(a, b).constInt(); ok && c != 0 {
					return true
				}
			}
		}
	}
	return false
}

// indicator of a condition; conjunctions and disjunctions of equalities are split
func indicator(c *Term) *Term {
	if (c.op == OAnd || c.op == OOr) && len(c.args) <= 8 {
		eqs := true
		for _, a := range c.args {
			if a.op == ONot {
				a = a.args[0]
			}
			if a.op != OEq0 || a.args[0].sort != SInt {
				eqs = false
			}
		}
		if eqs {
			p := F(1)
			for _, a := range c.args {
				if c.op == OOr {
					a = Not(a)
				}
				p = Mul(p, Ind(a))
			}
			if c.op == OOr {
				p = Sub(F(1), p)
			}
			return p
		}
	}
	return raw(OIte, SF, "", c, F(1), F(0))
}

func isIndicator(t *Term) bool {
	return t.op == OIte && t.args[1] == F(1) && t.args[2] == F(0)
}

// z^m = -1: drop even multiples of m from the exponent, and replace one m by a sign
func reduceHalfOrder(e, m *Term) (*Term, int) {
	ms := monosOf(e)
	sign := 1
	var out []Mono
	for _, x := range ms {
		var rest []Factor
		found := false
		for _, f := range x.fs {
			if f.a == m && !found {
				found = true
				if c, ok := f.e.constInt(); ok && c > 1 {
					rest = append(rest, Factor{f.a, I(c - 1)})
				}
				continue
			}
			rest = append(rest, f)
		}
		if !found {
			if mc, ok := m.constInt(); ok && len(x.fs) == 0 {
				// constant exponent: reduce modulo 2m
				r := new(big.Int).Mod(x.c, big.NewInt(2*mc))
				if r.Cmp(big.NewInt(mc)) >= 0 {
					r.Sub(r, big.NewInt(mc))
					sign = -sign
				}
				out = append(out, Mono{c: r})
				continue
			}
			if mc, ok := m.constInt(); ok && new(big.Int).Mod(x.c, big.NewInt(2*mc)).Sign() == 0 {
				continue
			}
			out = append(out, x)
			continue
		}
		if x.c.Bit(0) == 0 {
			continue // even multiple of m
		}
		if len(rest) == 0 {
			sign = -sign
			continue
		}
		// odd multiple of m*rest: keep c = 1
		out = append(out, Mono{c: big.NewInt(1), fs: x.fs})
	}
	return mkPoly(SInt, out), sign
}

func sortOfPoly(a, b *Term) Sort { return a.sort }

func Add(ts ...*Term) *Term {
	if len(ts) == 0 {
		return zero
	}
	s := ts[0].sort
	if s == SG1 || s == SG2 {
		var l []LTerm
		for _, t := range ts {
			l = append(l, linOf(t)...)
		}
		return mkLin(s, l)
	}
	var ms []Mono
	for _, t := range ts {
		if t.sort != s {
			panic(fmt.Sprintf("Add sorts %v %v: %v", s, t.sort, ts))
		}
		ms = append(ms, monosOf(t)...)
	}
	return mkPoly(s, ms)
}
func Neg(t *Term) *Term {
	if t.sort == SG1 || t.sort == SG2 {
		return Scale(F(-1), t)
	}
	ms := monosOf(t)
	out := make([]Mono, len(ms))
	for i, m := range ms {
		out[i] = Mono{c: new(big.Int).Neg(m.c), fs: m.fs}
	}
	return mkPoly(t.sort, out)
}
func Sub(a, b *Term) *Term {
	if a == b && (a.sort == SInt) {
		return zero
	}
	return Add(a, Neg(b))
}
func Mul(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("Mul sorts")
	}
	var out []Mono
	for _, x := range monosOf(a) {
		for _, y := range monosOf(b) {
			fs := append(append([]Factor{}, x.fs...), y.fs...)
			nf, sg := normFactors(fs)
			c := new(big.Int).Mul(x.c, y.c)
			if sg < 0 {
				c.Neg(c)
			}
			out = append(out, Mono{c: c, fs: nf})
		}
	}
	return mkPoly(a.sort, out)
}
func MulC(n int64, a *Term) *Term {
	if a.sort == SF {
		return Mul(F(n), a)
	}
	return Mul(I(n), a)
}

// PowF raises an F term to an Int exponent
func PowF(a, e *Term) *Term {
	if c, ok := e.constInt(); ok && c >= 0 && c <= 8 {
		r := F(1)
		for i := int64(0); i < c; i++ {
			r = Mul(r, a)
		}
		return r
	}
	ms := monosOf(a)
	if len(ms) == 1 && (ms[0].c.IsInt64() && (ms[0].c.Int64() == 1 || ms[0].c.Int64() == -1)) {
		var fs []Factor
		for _, f := range ms[0].fs {
			fs = append(fs, Factor{f.a, Mul(f.e, e)})
		}
		nf, sg := normFactors(fs)
		c := big.NewInt(int64(sg))
		r := mkPoly(SF, []Mono{{c: c, fs: nf}})
		if ms[0].c.Int64() == -1 {
			r = Mul(r, UF("sgn", SF, e))
		}
		return r
	}
	atom := UF("fatom", SF, a)
	nf, sg := normFactors([]Factor{{atom, e}})
	return mkPoly(SF, []Mono{{c: big.NewInt(int64(sg)), fs: nf}})
}
func Inv(a *Term) *Term { return PowF(a, I(-1)) }

// Emb embeds an Int term in the field
func Emb(n *Term) *Term {
	if n.op == OConst {
		return fConst(n.n)
	}
	if n.op == OIte {
		return Ite(n.args[0], Emb(n.args[1]), Emb(n.args[2]))
	}
	ms := monosOf(n)
	r := F(0)
	for _, m := range ms {
		x := fConst(m.c)
		for _, f := range m.fs {
			x = Mul(x, PowF(UF("emb", SF, f.a), f.e))
		}
		r = Add(r, x)
	}
	return r
}

// ---------------------------------------------------------------- points

func linOf(t *Term) []LTerm {
	if t.op == OLin {
		return t.lin
	}
	return []LTerm{{F(1), t}}
}
func O(s Sort) *Term { return mkLin(s, nil) }

func mkLin(s Sort, ls []LTerm) *Term {
	acc := map[*Term]*Term{}
	var order []*Term
	for _, l := range ls {
		if c, ok := acc[l.p]; ok {
			acc[l.p] = Add(c, l.c)
		} else {
			acc[l.p] = l.c
			order = append(order, l.p)
		}
	}
	var out []LTerm
	for _, p := range order {
		if acc[p] != F(0) {
			out = append(out, LTerm{acc[p], p})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].p.id < out[j].p.id })
	if len(out) == 1 && out[0].c == F(1) {
		return out[0].p
	}
	var kb strings.Builder
	fmt.Fprintf(&kb, "L%d:", s)
	for _, l := range out {
		fmt.Fprintf(&kb, "%d.%d+", l.c.id, l.p.id)
	}
	return intern(kb.String(), func() *Term { return &Term{op: OLin, sort: s, lin: out} })
}
func Scale(c, p *Term) *Term {
	if c == F(1) {
		return p
	}
	ls := linOf(p)
	out := make([]LTerm, len(ls))
	for i, l := range ls {
		out[i] = LTerm{Mul(c, l.c), l.p}
	}
	return mkLin(p.sort, out)
}

// ---------------------------------------------------------------- booleans, comparisons

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == ONot:
		return a.args[0]
	case a.op == OLe0:
		// not (x >= 0)  <=>  -x-1 >= 0
		return Ge0(Sub(Neg(a.args[0]), one))
	}
	return raw(ONot, SBool, "", a)
}
func nary(op Op, ts []*Term, unit, absorb *Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var addAll func(t *Term) bool
	addAll = func(t *Term) bool {
		if t == absorb {
			return false
		}
		if t == unit || set[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !addAll(a) {
					return false
				}
			}
			return true
		}
		if set[Not(t)] {
			return false
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !addAll(t) {
			return absorb
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return raw(op, SBool, "", out...)
}
func And(ts ...*Term) *Term { return nary(OAnd, ts, tTrue, tFalse) }
func Or(ts ...*Term) *Term  { return nary(OOr, ts, tFalse, tTrue) }
func Implies(a, b *Term) *Term {
	return Or(Not(a), b)
}

func gcdNorm(t *Term, eq bool) *Term {
	ms := monosOf(t)
	g := new(big.Int)
	var c0 *big.Int
	for _, m := range ms {
		if len(m.fs) == 0 {
			c0 = m.c
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Sign() == 0 || g.Cmp(big.NewInt(1)) == 0 {
		return t
	}
	if eq && c0 != nil && new(big.Int).Mod(c0, g).Sign() != 0 {
		return nil
	}
	var out []Mono
	for _, m := range ms {
		q := new(big.Int)
		if len(m.fs) == 0 {
			q.Div(m.c, g) // Euclidean = floor for positive divisor
		} else {
			q.Quo(m.c, g)
		}
		out = append(out, Mono{c: q, fs: m.fs})
	}
	return mkPoly(t.sort, out)
}

func Ge0(t *Term) *Term {
	if t.op == OConst {
		return B(t.n.Sign() >= 0)
	}
	if t.op == OIte && t.args[1].isConst() && t.args[2].isConst() {
		return boolIte(t.args[0], Ge0(t.args[1]), Ge0(t.args[2]))
	}
	t = gcdNorm(t, false)
	return raw(OLe0, SBool, "", t)
}
func boolIte(c, a, b *Term) *Term {
	return Or(And(c, a), And(Not(c), b))
}
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(Sub(Sub(b, a), one)) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	switch a.sort {
	case SInt, SF, SG1, SG2:
		return Eq0(Sub(a, b))
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
		return boolIte(a, b, Not(b))
	case SStr:
		if a.op == OVar && strings.HasPrefix(a.name, "\"") && b.op == OVar && strings.HasPrefix(b.name, "\"") {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw(OEq, SBool, "", a, b)
}

func Eq0(d *Term) *Term {
	if z, ok := isZeroTerm(d); ok {
		return B(z)
	}
	if d.sort == SInt {
		d = gcdNorm(d, true)
		if d == nil {
			return tFalse
		}
		if d.op == OIte && d.args[1].isConst() && d.args[2].isConst() {
			return boolIte(d.args[0], Eq0(d.args[1]), Eq0(d.args[2]))
		}
	}
	// sign normalisation
	n := Neg(d)
	if n.id < d.id {
		d = n
	}
	// strip a common unit of a single term (points: c*P = 0 with c a monomial of nonzero atoms is kept as is)
	return raw(OEq0, SBool, "", d)
}

// isZeroTerm decides trivially whether a term is zero
func isZeroTerm(d *Term) (bool, bool) {
	switch d.sort {
	case SInt:
		if d.op == OConst {
			return d.n.Sign() == 0, true
		}
	case SF:
		d = telescope(d)
		if c, ok := fConstVal(d); ok {
			return c.Sign() == 0, true
		}
		if nonZeroF(d) {
			return false, true
		}
	case SG1, SG2:
		d = telescope(d)
		if d.op == OLin && len(d.lin) == 0 {
			return true, true
		}
		if nonZeroG(d) {
			return false, true
		}
	}
	return false, false
}

// atoms known (or assumed, up to negligible probability) to be different from zero / infinity
var nonZeroNames = map[string]bool{}

func nonZeroF(d *Term) bool {
	ms := monosOf(d)
	if len(ms) != 1 {
		return false
	}
	if ms[0].c.Sign() == 0 {
		return false
	}
	for _, f := range ms[0].fs {
		if f.a.op == OUF && f.a.name == "pair" && nonZeroG(mkLin(SG1, []LTerm{{F(1), f.a.args[0]}})) && nonZeroG(mkLin(SG2, []LTerm{{F(1), f.a.args[1]}})) {
			continue
		}
		if !(f.a.op == OUF || f.a.op == OVar) || !nonZeroNames[base(f.a.name)] {
			return false
		}
	}
	return true
}
func base(n string) string {
	if i := strings.IndexAny(n, "!#"); i >= 0 {
		return n[:i]
	}
	return n
}
func nonZeroG(d *Term) bool {
	ls := linOf(d)
	if len(ls) != 1 {
		return false
	}
	p := ls[0].p
	return nonZeroF(ls[0].c) && (p.op == OUF || p.op == OVar) && nonZeroNames[base(p.name)]
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		return boolIte(c, a, b)
	}
	if c.op == OEq0 && c.args[0].sort == SInt {
		// if (x == 0) then f(x) else f(x): try solving for a variable and collapse
		if v, e := solveVar(c.args[0]); v != nil {
			if Subst(b, v, e) == Subst(a, v, e) {
				return b
			}
		}
	}
	if a.sort == SF {
		// ite(c,a,b) = b + ind(c)*(a-b)
		ind := indicator(c)
		if a == F(1) && b == F(0) {
			return ind
		}
		return Add(b, Mul(ind, Sub(a, b)))
	}
	if a.sort == SG1 || a.sort == SG2 {
		return Add(b, Scale(indicator(c), Sub(a, b)))
	}
	return raw(OIte, a.sort, "", c, a, b)
}
func Ind(c *Term) *Term { return Ite(c, F(1), F(0)) }

// solveVar: from p == 0 finds v (a variable, coefficient +-1) and e with v = e
func solveVar(p *Term) (*Term, *Term) {
	ms := monosOf(p)
	var best *Term
	var bc int64
	for _, m := range ms {
		if len(m.fs) == 1 && m.fs[0].e == one && (m.fs[0].a.op == OVar || m.fs[0].a.op == OBV) && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1) {
			a := m.fs[0].a
			n := 0
			for _, m2 := range ms {
				for _, f := range m2.fs {
					if occurs(f.a, a) || occurs(f.e, a) {
						n++
					}
				}
			}
			if n == 1 && (best == nil || a.id > best.id) {
				best, bc = a, m.c.Int64()
			}
		}
	}
	if best == nil {
		return nil, nil
	}
	// p = bc*best + rest = 0  => best = -rest/bc
	rest := Sub(p, MulC(bc, best))
	if bc == 1 {
		return best, Neg(rest)
	}
	return best, rest
}

func Min(a, b *Term) *Term {
	if a == b {
		return a
	}
	if d := Sub(a, b); d.op == OConst {
		if d.n.Sign() <= 0 {
			return a
		}
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw(OMin, SInt, "", a, b)
}
func Max(a, b *Term) *Term {
	if a == b {
		return a
	}
	if d := Sub(a, b); d.op == OConst {
		if d.n.Sign() >= 0 {
			return a
		}
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw(OMax, SInt, "", a, b)
}
func Div(a, b *Term) *Term {
	if b == one {
		return a
	}
	if x, ok := a.constInt(); ok {
		if y, ok := b.constInt(); ok && y > 0 && x >= 0 {
			return I(x / y)
		}
	}
	if q := exactDiv(a, b); q != nil {
		return q
	}
	return raw(ODiv, SInt, "", a, b)
}
func Mod(a, b *Term) *Term {
	if b == one {
		return zero
	}
	if x, ok := a.constInt(); ok {
		if y, ok := b.constInt(); ok && y > 0 {
			return I(((x % y) + y) % y)
		}
	}
	return raw(OMod, SInt, "", a, b)
}
func Pow2(e *Term) *Term {
	if c, ok := e.constInt(); ok && c >= 0 && c < 4096 {
		return IntB(new(big.Int).Lsh(big.NewInt(1), uint(c)))
	}
	// 2^(e+c) = 2^c * 2^e
	if e.op == OPoly {
		var rest []Mono
		var c0 int64
		for _, m := range e.monos {
			if len(m.fs) == 0 && m.c.IsInt64() {
				c0 = m.c.Int64()
			} else {
				rest = append(rest, m)
			}
		}
		if c0 > 0 {
			return Mul(Pow2(I(c0)), Pow2(mkPoly(SInt, rest)))
		}
	}
	return raw(OPow2, SInt, "", e)
}

// exactDiv returns q with a = q*b if a is syntactically divisible by b
func exactDiv(a, b *Term) *Term {
	bm := monosOf(b)
	if len(bm) == 0 {
		return nil
	}
	if a == zero {
		return zero
	}
	if len(bm) == 1 {
		var out []Mono
		for _, m := range monosOf(a) {
			q, r := new(big.Int).QuoRem(m.c, bm[0].c, new(big.Int))
			if r.Sign() != 0 {
				return nil
			}
			fs := append([]Factor{}, m.fs...)
			for _, f := range bm[0].fs {
				ok := false
				for i := range fs {
					if fs[i].a == f.a {
						d := Sub(fs[i].e, f.e)
						if c, isC := d.constInt(); isC && c >= 0 {
							fs[i].e = d
							ok = true
						}
					}
				}
				if !ok {
					return nil
				}
			}
			nf, _ := normFactors(fs)
			out = append(out, Mono{c: q, fs: nf})
		}
		return mkPoly(a.sort, out)
	}
	return nil
}

// ---------------------------------------------------------------- bytes

func Cat(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		if t.op == OCat {
			parts = append(parts, t.args...)
		} else {
			parts = append(parts, t)
		}
	}
	// two bytes of a 16 bit number
	for i := 0; i+1 < len(parts); i++ {
		if h, l := parts[i], parts[i+1]; h.op == OUF && l.op == OUF && h.name == "u8" && l.name == "u8" && l.args[0].op == OMod {
			x, m := l.args[0].args[0], l.args[0].args[1]
			if m == I(256) && h.args[0] == Div(x, m) {
				parts = append(append(append([]*Term{}, parts[:i]...), UF("be16", SBytes, x)), parts[i+2:]...)
			}
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return raw(OCat, SBytes, "", parts...)
}

var emptyBytes = raw(OCat, SBytes, "")

// ---------------------------------------------------------------- substitution

func occurs(t, v *Term) bool {
	return occursM(t, v, map[*Term]bool{})
}
func occursM(t, v *Term, seen map[*Term]bool) bool {
	if t == v {
		return true
	}
	if !t.hasV && v.op == OVar {
		return false
	}
	if b, ok := seen[t]; ok {
		return b
	}
	seen[t] = false
	r := false
	for _, a := range t.args {
		if occursM(a, v, seen) {
			r = true
		}
	}
	for _, m := range t.monos {
		for _, f := range m.fs {
			if occursM(f.a, v, seen) || occursM(f.e, v, seen) {
				r = true
			}
		}
	}
	for _, l := range t.lin {
		if occursM(l.c, v, seen) || occursM(l.p, v, seen) {
			r = true
		}
	}
	seen[t] = r
	return r
}

func Subst(t, v, e *Term) *Term { return SubstM(t, map[*Term]*Term{v: e}) }

func SubstM(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	onlyVars := true
	for k := range m {
		if k.op != OVar {
			onlyVars = false
		}
	}
	return Rewrite(t, func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		return nil
	}, onlyVars)
}

// Rewrite rebuilds t bottom-up; f may replace a subterm (checked before descending)
func Rewrite(t *Term, f func(*Term) *Term, onlyVars bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if onlyVars && !t.hasV {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if x := f(t); x != nil {
			r = x
		} else {
			r = rebuild(t, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case OConst, OVar, OBV:
		return t
	case OPoly:
		ch := false
		for _, m := range t.monos {
			for _, f := range m.fs {
				if rec(f.a) != f.a || rec(f.e) != f.e {
					ch = true
				}
			}
		}
		if !ch {
			return t
		}
		var out *Term
		if t.sort == SInt {
			out = zero
		} else {
			out = F(0)
		}
		acc := []*Term{out}
		for _, m := range t.monos {
			var x *Term
			if t.sort == SInt {
				x = IntB(m.c)
			} else {
				x = fConst(m.c)
			}
			for _, f := range m.fs {
				a, e := rec(f.a), rec(f.e)
				if t.sort == SInt {
					c, _ := e.constInt()
					for i := int64(0); i < c; i++ {
						x = Mul(x, a)
					}
				} else {
					x = Mul(x, PowF(a, e))
				}
			}
			acc = append(acc, x)
		}
		return Add(acc...)
	case OLin:
		ch := false
		var acc []*Term
		for _, l := range t.lin {
			c, p := rec(l.c), rec(l.p)
			if c != l.c || p != l.p {
				ch = true
			}
			acc = append(acc, Scale(c, p))
		}
		if !ch {
			return t
		}
		return Add(append([]*Term{O(t.sort)}, acc...)...)
	case OPre:
		hi := rec(t.args[0])
		// open with a fresh variable
		x := Fresh("x", SInt)
		body := openBV(t.args[1], t.lvl, x)
		nb := rec(body)
		if hi == t.args[0] && nb == body {
			return t
		}
		return Pre(hi, x, nb)
	}
	ch := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = rec(a)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.op {
	case OUF:
		return UF(t.name, t.sort, args...)
	case OIte:
		return Ite(args[0], args[1], args[2])
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OLe0:
		return Ge0(args[0])
	case OEq0:
		return Eq0(args[0])
	case OEq:
		return Eq(args[0], args[1])
	case OMin:
		return Min(args[0], args[1])
	case OMax:
		return Max(args[0], args[1])
	case ODiv:
		return Div(args[0], args[1])
	case OMod:
		return Mod(args[0], args[1])
	case OPow2:
		return Pow2(args[0])
	case OCat:
		return Cat(args...)
	}
	panic("rebuild")
}

func openBV(body *Term, lvl int, x *Term) *Term {
	return SubstM(body, map[*Term]*Term{BV(lvl): x})
}

// ---------------------------------------------------------------- prefix sums

// Pre(hi, x, body): sum of body over 0 <= x < hi
func Pre(hi, x, body *Term) *Term {
	s := body.sort
	if hi == zero {
		if s == SF {
			return F(0)
		}
		return O(s)
	}
	if c, ok := hi.constInt(); ok && c > 0 && c <= 8 {
		acc := Subst(body, x, zero)
		for i := int64(1); i < c; i++ {
			acc = Add(acc, Subst(body, x, I(i)))
		}
		return acc
	}
	if s == SF {
		var acc = F(0)
		for _, m := range monosOf(body) {
			outer, inner := splitMono(m, x)
			if inner == F(1) {
				acc = Add(acc, Mul(outer, Emb(hi)))
				continue
			}
			acc = Add(acc, Mul(outer, shiftPre(hi, x, inner)))
		}
		return acc
	}
	acc := O(s)
	for _, l := range linOf(body) {
		for _, m := range monosOf(l.c) {
			outer, inner := splitMono(m, x)
			if !occurs(l.p, x) {
				acc = Add(acc, Scale(Mul(outer, Pre(hi, x, inner)), l.p))
				continue
			}
			acc = Add(acc, Scale(outer, shiftPre(hi, x, Scale(inner, l.p))))
		}
	}
	return acc
}

// SumR: sum over lo <= x < hi
func SumR(lo, hi, x, body *Term) *Term {
	return Sub(Pre(hi, x, body), Pre(lo, x, body))
}

// splitMono splits a monomial in the part free of x and the part with x
func splitMono(m Mono, x *Term) (*Term, *Term) {
	outer := fConst(m.c)
	inner := F(1)
	for _, f := range m.fs {
		if occurs(f.a, x) {
			inner = Mul(inner, PowF(f.a, f.e))
			continue
		}
		if !occurs(f.e, x) {
			outer = Mul(outer, PowF(f.a, f.e))
			continue
		}
		// split the exponent: monomials with x / without x
		var with, without []Mono
		for _, em := range monosOf(f.e) {
			w := false
			for _, ef := range em.fs {
				if occurs(ef.a, x) {
					w = true
				}
			}
			if w {
				with = append(with, em)
			} else {
				without = append(without, em)
			}
		}
		inner = Mul(inner, PowF(f.a, mkPoly(SInt, with)))
		outer = Mul(outer, PowF(f.a, mkPoly(SInt, without)))
	}
	return outer, inner
}

// shiftPre canonicalises the origin of the summation variable: if the arguments of an
// uninterpreted function in the body have the form x+c, sums over y = x+c instead.
func shiftPre(hi, x, body *Term) *Term {
	off := findOffset(body, x)
	if off == nil || off == zero {
		return closePre(hi, x, body)
	}
	b := Subst(body, x, Sub(x, off))
	if bb := simplifyShift(b); bb != nil {
		b = bb
	}
	// body may have regained outer factors (exponents)
	if b.sort == SF {
		return Sub(Pre(Add(hi, off), x, b), Pre(off, x, b))
	}
	return Sub(preNoShift(Add(hi, off), x, b), preNoShift(off, x, b))
}
func simplifyShift(t *Term) *Term { return nil }

func preNoShift(hi, x, body *Term) *Term {
	acc := O(body.sort)
	for _, l := range linOf(body) {
		for _, m := range monosOf(l.c) {
			outer, inner := splitMono(m, x)
			if !occurs(l.p, x) {
				acc = Add(acc, Scale(Mul(outer, Pre(hi, x, inner)), l.p))
				continue
			}
			b := Scale(inner, l.p)
			acc = Add(acc, Scale(outer, closePre(hi, x, b)))
		}
	}
	return acc
}

// findOffset finds c in the canonical occurrence f(.., x+c, ..)
func findOffset(t, x *Term) *Term {
	type cand struct {
		key string
		off *Term
	}
	var best *cand
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.hasV {
			return
		}
		seen[t] = true
		if t.op == OUF {
			for i, a := range t.args {
				if a.sort != SInt || !occurs(a, x) {
					continue
				}
				off := Sub(a, x)
				if occurs(off, x) {
					continue
				}
				c := &cand{fmt.Sprintf("%s/%d", t.name, i), off}
				if best == nil || c.key < best.key || (c.key == best.key && c.off.id < best.off.id) {
					best = c
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a)
				rec(f.e)
			}
		}
		for _, l := range t.lin {
			rec(l.c)
			rec(l.p)
		}
	}
	rec(t)
	if best == nil {
		return nil
	}
	return best.off
}

func closePre(hi, x, body *Term) *Term {
	if hi == zero {
		if body.sort == SF {
			return F(0)
		}
		return O(body.sort)
	}
	lvl := body.maxbv + 1
	b := Subst(body, x, BV(lvl))
	return intern(fmt.Sprintf("S%d:%d,%d", lvl, hi.id, b.id), func() *Term {
		return &Term{op: OPre, sort: body.sort, lvl: lvl, args: []*Term{hi, b}}
	})
}

// telescope rewrites prefix sums over the same body whose bounds differ by a small constant
func telescope(t *Term) *Term {
	type grp struct{ his []*Term }
	groups := map[string][]*Term{}
	seen := map[*Term]bool{}
	var pres []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OPre {
			pres = append(pres, t)
		}
		if t.op == OLin {
			for _, l := range t.lin {
				rec(l.c)
				rec(l.p)
			}
		}
		if t.op == OPoly {
			for _, m := range t.monos {
				for _, f := range m.fs {
					rec(f.a)
				}
			}
		}
	}
	rec(t)
	if len(pres) == 0 {
		return t
	}
	for _, p := range pres {
		k := fmt.Sprintf("%d/%d", p.lvl, p.args[1].id)
		groups[k] = append(groups[k], p)
	}
	repl := map[*Term]*Term{}
	for _, g := range groups {
		for _, p := range g {
			base := p
			var bd int64
			// constants are expanded against zero
			if c, ok := p.args[0].constInt(); ok && c > -64 && c < 64 {
				repl[p] = expandPre(p, zero, c)
				continue
			}
			for _, o := range g {
				if d, ok := Sub(p.args[0], o.args[0]).constInt(); ok && d > bd && d < 64 {
					base, bd = o, d
				}
			}
			if base != p {
				repl[p] = expandPre(p, base.args[0], bd)
			}
		}
	}
	if len(repl) == 0 {
		return t
	}
	return SubstM(t, repl)
}

// expandPre: pre(from+d) = pre(from) + sum_{i<d} body(from+i)
func expandPre(p, from *Term, d int64) *Term {
	var acc *Term
	if from == zero {
		if p.sort == SF {
			acc = F(0)
		} else {
			acc = O(p.sort)
		}
	} else {
		lvl, b := p.lvl, p.args[1]
		acc = intern(fmt.Sprintf("S%d:%d,%d", lvl, from.id, b.id), func() *Term {
			return &Term{op: OPre, sort: p.sort, lvl: lvl, args: []*Term{from, b}}
		})
	}
	if d >= 0 {
		for i := int64(0); i < d; i++ {
			acc = Add(acc, openBV(p.args[1], p.lvl, Add(from, I(i))))
		}
	} else {
		for i := d; i < 0; i++ {
			acc = Sub(acc, openBV(p.args[1], p.lvl, Add(from, I(i))))
		}
	}
	return acc
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return fmt.Sprint(t.n.Sign() != 0)
		}
		return t.n.String()
	case OVar:
		return t.name
	case OBV:
		return fmt.Sprintf("_%d", t.lvl)
	case OPoly:
		if len(t.monos) == 0 {
			return "0"
		}
		var s []string
		for _, m := range t.monos {
			var p []string
			if len(m.fs) == 0 || m.c.Cmp(big.NewInt(1)) != 0 {
				p = append(p, m.c.String())
			}
			for _, f := range m.fs {
				if f.e == one {
					p = append(p, f.a.String())
				} else {
					p = append(p, f.a.String()+"^("+f.e.String()+")")
				}
			}
			s = append(s, strings.Join(p, "*"))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OLin:
		if len(t.lin) == 0 {
			return "O"
		}
		var s []string
		for _, l := range t.lin {
			if l.c == F(1) {
				s = append(s, l.p.String())
			} else {
				s = append(s, l.c.String()+"."+l.p.String())
			}
		}
		return "[" + strings.Join(s, " + ") + "]"
	case OPre:
		return fmt.Sprintf("sum{_%d<%s: %s}", t.lvl, t.args[0], t.args[1])
	case OLe0:
		return "(" + t.args[0].String() + " >= 0)"
	case OEq0:
		return "(" + t.args[0].String() + " == 0)"
	}
	nm := t.name
	switch t.op {
	case OIte:
		nm = "ite"
	case ONot:
		nm = "not"
	case OAnd:
		nm = "and"
	case OOr:
		nm = "or"
	case OEq:
		nm = "eq"
	case OMin:
		nm = "min"
	case OMax:
		nm = "max"
	case ODiv:
		nm = "div"
	case OMod:
		nm = "mod"
	case OPow2:
		nm = "pow2"
	case OCat:
		nm = "cat"
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.String())
	}
	return nm + "(" + strings.Join(s, ",") + ")"
}
