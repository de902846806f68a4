package main

import (
	"fmt"
	"strings"
)

// Counting: for a predicate P over indices, cnt(n) is the number of indices below n that satisfy P, and pos(i)
// is the i-th index that does. (Beyond the range in use P is taken to hold infinitely often.)

type predicate struct {
	name string
	cond *Term // over predVar
	cand bool  // a candidate for the closed forms of counters
}

var preds []*predicate
var predVar = Var("x#", SInt)

// predOf registers the condition c over x, or finds it (neg: as the negation of a known one)
func predOf(c, x *Term, name string) (p *predicate, neg bool) {
	c = Subst(c, x, predVar)
	for _, p := range preds {
		if p.cond == c {
			return p, false
		}
		if p.cond == Not(c) {
			return p, true
		}
	}
	if name == "" {
		name = fmt.Sprint(len(preds))
	}
	p = &predicate{name: name, cond: c}
	preds = append(preds, p)
	ufRules["cnt#"+name] = func(a []*Term) *Term {
		if k, ok := a[0].constInt(); ok && k <= 0 {
			return zero
		}
		return nil
	}
	ufRules["pos#"+name] = func(a []*Term) *Term {
		if a[0].op == OUF && a[0].name == "cnt#"+name {
			x := a[0].args[0]
			return Ite(p.at(x), x, UF("posx#"+name, SInt, x))
		}
		return nil
	}
	ufFacts["cnt#"+name] = func(t *Term) []*Term {
		n := t.args[0]
		return []*Term{Implies(Ge0(n), And(Ge0(t), Le(t, n))), Implies(Lt(n, zero), Eq0(t))}
	}
	ufFacts["pos#"+name] = func(t *Term) []*Term {
		return []*Term{Implies(Ge0(t.args[0]), Le(t.args[0], t))}
	}
	ufFacts["posx#"+name] = func(t *Term) []*Term { return []*Term{Lt(t.args[0], t)} }
	return p, false
}

func (p *predicate) at(i *Term) *Term  { return Subst(p.cond, predVar, i) }
func (p *predicate) cnt(n *Term) *Term { return UF("cnt#"+p.name, SInt, n) }
func (p *predicate) pos(i *Term) *Term { return UF("pos#"+p.name, SInt, i) }

// counted is the number of true conditions c(x), x < n
func counted(c, x, n *Term) *Term {
	p, neg := predOf(c, x, "")
	if neg {
		return Sub(n, p.cnt(n))
	}
	return p.cnt(n)
}

func predNamed(uf string) *predicate {
	for _, p := range preds {
		if strings.HasSuffix(uf, "#"+p.name) {
			return p
		}
	}
	return nil
}

// pairFacts relates a new count or position to the ones seen before
func pairFacts(t, o *Term) []*Term {
	if t.name == "bitrev" && o.name == "bitrev" && t.args[0] == o.args[0] {
		// an involution
		x, y := t.args[1], o.args[1]
		return []*Term{Implies(Eq(t, y), Eq(x, o)), Implies(Eq(o, x), Eq(y, t)), Implies(Eq(t, o), Eq(x, y))}
	}
	k := strings.IndexByte(t.name, '#')
	l := strings.IndexByte(o.name, '#')
	if k < 0 || l < 0 || t.name[k:] != o.name[l:] {
		return nil
	}
	switch {
	case t.name[:k] == "pos" && o.name[:l] == "cnt":
		t, o = o, t
		fallthrough
	case t.name[:k] == "cnt" && o.name[:l] == "pos":
		n, i := t.args[0], o.args[0]
		g := And(Ge0(n), Ge0(i))
		return []*Term{Implies(And(g, Lt(i, t)), Lt(o, n)), Implies(And(g, Le(t, i)), Le(n, o))}
	case t.name[:k] == "cnt" && o.name[:l] == "cnt":
		a, b := t.args[0], o.args[0]
		p := predNamed(t.name)
		return []*Term{Implies(And(Ge0(a), Lt(a, b), p.at(a)), Lt(t, o)), Implies(And(Ge0(b), Lt(b, a), p.at(b)), Lt(o, t)),
			Implies(And(Ge0(a), Le(a, b)), And(Le(t, o), Le(Sub(o, t), Sub(b, a)))),
			Implies(And(Ge0(b), Le(b, a)), And(Le(o, t), Le(Sub(t, o), Sub(a, b))))}
	case t.name[:k] == "pos" && o.name[:l] == "pos":
		a, b := t.args[0], o.args[0]
		return []*Term{Implies(And(Ge0(a), Lt(a, b)), Lt(t, o)), Implies(And(Ge0(b), Lt(b, a)), Lt(o, t))}
	}
	return nil
}

// stepCounts rewrites cnt(c+1) to cnt(c) plus one if the predicate holds at c (c is not negative)
func stepCounts(t, c *Term) *Term {
	c1 := Add(c, one)
	return Rewrite(t, func(u *Term) *Term {
		if u.op == OUF && strings.HasPrefix(u.name, "cnt#") && u.args[0] == c1 {
			p := predNamed(u.name)
			return Add(p.cnt(c), Ite(p.at(c), one, zero))
		}
		return nil
	}, false)
}

// nextPow2 is the smallest power of two that isn't below t
func nextPow2(t *Term) *Term {
	if c, ok := t.constInt(); ok && c > 0 {
		p := int64(1)
		for p < c {
			p *= 2
		}
		return I(p)
	}
	if ms := monosOf(t); len(ms) == 1 && len(ms[0].fs) == 1 && ms[0].fs[0].a.op == OPow2 && ms[0].fs[0].e == one {
		if c := ms[0].c; c.Sign() > 0 && c.TrailingZeroBits() == uint(c.BitLen()-1) {
			return t
		}
	}
	return UF("nextpow2", SInt, t)
}

// partition: exactly one of the predicates holds for every index, so their counts add up. (The condition is to be
// shown by the caller.)
func partition(ps ...*predicate) (exactlyOne *Term) {
	for _, p := range ps {
		name := "cnt#" + p.name
		old := ufFacts[name]
		ufFacts[name] = func(t *Term) []*Term {
			s := zero
			for _, q := range ps {
				s = Add(s, q.cnt(t.args[0]))
			}
			return append(old(t), Implies(Ge0(t.args[0]), Eq(s, t.args[0])))
		}
	}
	x := Fresh("x", SInt)
	s := zero
	for _, p := range ps {
		s = Add(s, Ite(p.at(x), one, zero))
	}
	return Eq(s, one)
}
