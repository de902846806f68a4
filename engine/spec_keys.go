package main

import "fmt"

func init() {
	specs["C17"] = func(c *Ctx) { specPK(c, false) }
	specs["C18"] = func(c *Ctx) { specPK(c, true) }
	specs["C19"] = specC19
}

// keyWorld has a phase 2 file and the file of evaluations
type keyWorld struct {
	*world
	f    *p2
	info *Term
}

func (k *keyWorld) pt(n string, s Sort) func(i *Term) *Term {
	return func(i *Term) *Term { return UF("ev."+n, s, i) }
}

func (c *Ctx) keyWorld() *keyWorld {
	k := &keyWorld{world: c.world()}
	k.f = k.p2file("in")
	h := k.f.h
	k.info = Var("info", SAny)
	st := k.st
	v := symVal(k.typ2("github.com/consensys/gnark/constraint", "Commitment"), "info")
	gobReg[k.info] = v
	st.fs[StrLit("evals")] = &Content{segs: []Seg{
		one1seg(it("g1c", Var("ev.alpha", SG1)), it("g1c", Var("ev.beta", SG1)), it("g2c", Var("ev.beta2", SG2))),
		one1seg(it("be32", h["Wires"])), sq1("g1c", h["Wires"], k.pt("A", SG1)),
		one1seg(it("be32", h["Wires"])), sq1("g1c", h["Wires"], k.pt("B", SG1)),
		one1seg(it("be32", h["Wires"])), sq1("g2c", h["Wires"], k.pt("B2", SG2)),
		one1seg(it("be32", h["Public"])), sq1("g1c", h["Public"], k.pt("K", SG1)),
		one1seg(it("be32", h["PrivateCommitted"])), sq1("g1c", h["PrivateCommitted"], k.pt("CKK", SG1)),
		one1seg(Item{"gob", k.info, UF("gobsz", SInt, k.info)}),
	}}
	return k
}

func specC19(c *Ctx) {
	for _, split := range []bool{false, true} {
		k := c.keyWorld()
		n := "ExtractKeys"
		var outs []Out
		vk, ck := StrLit("vk"), (*Term)(nil)
		if split {
			n = "ExtractSplitKeys"
			s := Var("session", SStr)
			vk, ck = strCat(s, StrLit(".vk.save")), strCat(s, StrLit(".pk.CommitmentKey.save"))
			outs = k.run("/keys", n, k.f.path, s)
		} else {
			outs = k.run("/keys", n, k.f.path)
		}
		oks, _ := k.split(n, outs)
		c.ob(len(oks) > 0, n+"/can-succeed", "no successful outcome")
		for i, o := range oks {
			k.clean(n, i, o)
			m := fmt.Sprintf("%s/path%d/", n, i)
			pc := o.st.pc
			q := k.cursor(o.st, vk)
			key := q.popRecord("commitment key", 1)
			if !c.ob(q.bad == "" && key[0].kind == "pedkey", m+"commitment-key-first", "%s %v", q.bad, key) {
				continue
			}
			k.pedkey(m, pc, key[0].t)
			for _, e := range []struct {
				n, kind string
				t       *Term
			}{
				{"alpha", "g1r", Var("ev.alpha", SG1)}, {"beta", "g1r", Var("ev.beta", SG1)},
				{"beta-G2", "g2r", Var("ev.beta2", SG2)}, {"gamma", "g2r", G2gen},
				{"delta", "g1r", Var("in.D1", SG1)}, {"delta-G2", "g2r", Var("in.D2", SG2)},
				{"len-K", "be32", k.f.h["Public"]},
			} {
				q.one(e.n, e.kind, e.t)
				c.ob(q.bad == "", m+e.n, "%s", q.bad)
			}
			q.seq("K", "g1r", k.f.h["Public"], k.pt("K", SG1))
			c.ob(q.bad == "", m+"K", "%s", q.bad)
			q.take("info", one, func(*Term) []Item { return []Item{{"gob", k.info, UF("gobsz", SInt, k.info)}} })
			c.ob(q.end() == "", m+"commitment-info", "%s", q.bad)
			if split {
				q := k.cursor(o.st, ck)
				q.take("key", one, func(*Term) []Item { return []Item{key[0]} })
				c.ob(q.end() == "", m+"commitment-key-file", "%s", q.bad)
			}
		}
	}
}

// pedkey: the key was made of the commitment section
func (k *keyWorld) pedkey(m string, pc *PC, t *Term) {
	r, ok := pedReg[t]
	n := k.f.h["PrivateCommitted"]
	good := ok && pc.equal(r.n, n) && r.v != nil
	if good {
		good = pc.and(Ge0(r.x)).and(Lt(r.x, n)).equal(r.v, k.pt("CKK", SG1)(r.x))
	}
	k.c.ob(good, m+"commitment-key", "the key isn't made of the commitment section")
}

func specPK(c *Ctx, split bool) {
	k := c.keyWorld()
	x := predVar
	nonInf := map[string]*predicate{}
	for _, n := range []string{"A", "B"} {
		nonInf[n], _ = predOf(Not(Eq0(k.pt(n, SG1)(x))), x, "nonInf"+n)
	}
	nonInf["B2"], _ = predOf(Not(Eq0(k.pt("B2", SG2)(x))), x, "nonInfB2")
	w := k.f.h["Wires"]
	n := "ExtractKeys"
	var outs []Out
	if split {
		n = "ExtractSplitKeys"
		outs = k.run("/keys", n, k.f.path, Var("session", SStr))
	} else {
		outs = k.run("/keys", n, k.f.path)
	}
	oks, _ := k.split(n, outs)
	c.ob(len(oks) > 0, n+"/can-succeed", "no successful outcome")
	sec := map[string]func(q *cur, kind string){
		"Z": func(q *cur, kind string) {
			q.one("Z", "be32", Sub(k.f.h["Domain"], one))
			q.seq("Z", kind, Sub(k.f.h["Domain"], one), k.f.Z)
		},
		"K": func(q *cur, kind string) {
			q.one("K", "be32", k.f.h["Witness"])
			q.seq("K", kind, k.f.h["Witness"], k.f.K)
		},
	}
	for nm, s := range map[string]Sort{"A": SG1, "B": SG1, "B2": SG2} {
		nm, p, f := nm, nonInf[nm], k.pt(nm, s)
		sec[nm] = func(q *cur, kind string) {
			q.one("filtered "+nm, "be32", p.cnt(w))
			q.seq("filtered "+nm, kind, p.cnt(w), func(i *Term) *Term { return f(p.pos(i)) })
		}
	}
	for i, o := range oks {
		k.clean(n, i, o)
		m := fmt.Sprintf("%s/path%d/", n, i)
		tail := func(q *cur) {
			q.one("wires", "be64", w)
			q.one("infinite A", "be64", Sub(w, nonInf["A"].cnt(w)))
			q.one("infinite B", "be64", Sub(w, nonInf["B"].cnt(w)))
			c.ob(q.bad == "", m+"numbers", "%s", q.bad)
			q.seq("flags A", "bool", w, func(i *Term) *Term { return Eq0(k.pt("A", SG1)(i)) })
			c.ob(q.bad == "", m+"flags-A", "%s", q.bad)
			q.seq("flags B", "bool", w, func(i *Term) *Term { return Eq0(k.pt("B", SG1)(i)) })
			c.ob(q.end() == "", m+"flags-B", "%s", q.bad)
		}
		alpha, beta, beta2 := Var("ev.alpha", SG1), Var("ev.beta", SG1), Var("ev.beta2", SG2)
		d1, d2 := Var("in.D1", SG1), Var("in.D2", SG2)
		ones := func(q *cur, kind string, names []string, ts ...*Term) {
			for j, t := range ts {
				q.one(names[j], kind, t)
				c.ob(q.bad == "", m+names[j], "%s", q.bad)
			}
		}
		if !split {
			q := k.cursor(o.st, StrLit("pk"))
			q.take("domain", one, func(*Term) []Item { return []Item{domainItem(UF("nextpow2", SInt, k.f.h["Domain"]))} })
			c.ob(q.bad == "", m+"domain", "%s", q.bad)
			ones(q, "g1c", []string{"alpha", "beta", "delta"}, alpha, beta, d1)
			for _, s := range []string{"A", "B", "Z", "K"} {
				sec[s](q, "g1c")
				c.ob(q.bad == "", m+s, "%s", q.bad)
			}
			ones(q, "g2c", []string{"beta-G2", "delta-G2"}, beta2, d2)
			sec["B2"](q, "g2c")
			c.ob(q.bad == "", m+"B-G2", "%s", q.bad)
			tail(q)
			continue
		}
		part := func(s string) *cur { return k.cursor(o.st, strCat(Var("session", SStr), StrLit(".pk."+s+".save"))) }
		q := part("E")
		q.one("cardinality", "be64", k.f.h["Domain"])
		c.ob(q.bad == "", m+"domain", "%s", q.bad)
		ones(q, "g1r", []string{"alpha", "beta", "delta"}, alpha, beta, d1)
		ones(q, "g2r", []string{"beta-G2", "delta-G2"}, beta2, d2)
		tail(q)
		for _, s := range [][3]string{{"A", "A", "g1r"}, {"B1", "B", "g1r"}, {"Z", "Z", "g1r"}, {"K", "K", "g1r"}, {"B2", "B2", "g2r"}} {
			q := part(s[0])
			sec[s[1]](q, s[2])
			c.ob(q.end() == "", m+"part-"+s[0], "%s", q.bad)
		}
	}
}
