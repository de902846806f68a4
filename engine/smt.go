package main

// Integer / Boolean reasoning by z3 over the path condition. Field and group terms are opaque here.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type PC struct {
	up *PC
	f  *Term
	q  *QFact // quantified fact (f == nil)
	n  int
}

// QFact: for all lo <= x < hi: body
type QFact struct {
	lo, hi, x *Term
	body      []*Term
}

func (p *PC) and(f *Term) *PC {
	if f == tTrue {
		return p
	}
	if f.op == OAnd {
		for _, a := range f.args {
			p = p.and(a)
		}
		return p
	}
	if p.has(f) {
		return p
	}
	n := 0
	if p != nil {
		n = p.n
	}
	return &PC{up: p, f: f, n: n + 1}
}
func (p *PC) andQ(q *QFact) *PC {
	n := 0
	if p != nil {
		n = p.n
	}
	return &PC{up: p, q: q, n: n + 1}
}
func (p *PC) has(f *Term) bool {
	for x := p; x != nil; x = x.up {
		if x.f == f {
			return true
		}
	}
	return false
}
func (p *PC) facts() []*Term {
	var out []*Term
	for x := p; x != nil; x = x.up {
		if x.f != nil {
			out = append(out, x.f)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
func (p *PC) qfacts() []*QFact {
	var out []*QFact
	for x := p; x != nil; x = x.up {
		if x.q != nil {
			out = append(out, x.q)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// since returns the facts (and quantified facts) added after base
func (p *PC) since(base *PC) (fs []*Term, qs []*QFact) {
	for x := p; x != nil && x != base; x = x.up {
		if x.f != nil {
			fs = append(fs, x.f)
		} else {
			qs = append(qs, x.q)
		}
	}
	for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
		fs[i], fs[j] = fs[j], fs[i]
	}
	return
}

func pcOf(fs ...*Term) *PC {
	var p *PC
	for _, f := range fs {
		p = p.and(f)
	}
	return p
}

// ---------------------------------------------------------------- solver process

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	name    string
	queries int
	time    time.Duration
	unknown int
	retries int
	ready   bool
}

func newSolver(name string, args ...string) *Solver {
	s := &Solver{name: name}
	s.start(args)
	return s
}
func (s *Solver) start(args []string) {
	c := exec.Command(s.name, args...)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic("cannot start " + s.name + ": " + err.Error())
	}
	s.cmd, s.in, s.out = c, in, bufio.NewReader(out)
}

var z3 *Solver
var smtCache = map[string]int{}
var logSMT func(script string, res string)

// check returns 1 unsat, 0 sat, -1 unknown
func (s *Solver) check(script string) int {
	t0 := time.Now()
	s.queries++
	if !s.ready {
		io.WriteString(s.in, "(set-option :timeout 1500)\n")
		s.ready = true
	}
	io.WriteString(s.in, "(push)\n"+script+"(check-sat)\n(pop)\n")
	line, err := s.out.ReadString('\n')
	line = strings.TrimSpace(line)
	if err == nil && line != "sat" && line != "unsat" {
		// once more, without the incremental core
		s.retries++
		io.WriteString(s.in, "(reset)\n(set-option :timeout 4000)\n"+script+"(check-sat)\n(reset)\n")
		line, err = s.out.ReadString('\n')
		line = strings.TrimSpace(line)
		s.ready = false
	}
	s.time += time.Since(t0)
	if err != nil {
		panic("solver died: " + err.Error() + "\n" + script)
	}
	if logSMT != nil {
		logSMT(script, line)
	}
	switch line {
	case "unsat":
		if cross != nil {
			cross.add(script)
		}
		return 1
	case "sat":
		return 0
	case "unknown", "timeout":
		s.unknown++
		return -1
	}
	panic("solver: " + line + "\n" + script)
}

// facts about uninterpreted Int functions
var ufFacts = map[string]func(t *Term) []*Term{}

type enc struct {
	decl   map[string]string
	order  []string
	extra  []*Term // facts about atoms still to be added
	seen   map[*Term]bool
	pow2s  []*Term
	counts []*Term
	prods  []*Term
	memo   map[*Term]string
}

func (e *enc) declare(n, sorts, res string) {
	if _, ok := e.decl[n]; !ok {
		e.decl[n] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, sorts, res)
		e.order = append(e.order, n)
	}
}
func (e *enc) fact(fs ...*Term) { e.extra = append(e.extra, fs...) }

func (e *enc) str(t *Term) string {
	if s, ok := e.memo[t]; ok {
		return s
	}
	s := e.str1(t)
	e.memo[t] = s
	return s
}
func num(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (e *enc) str1(t *Term) string {
	if t.sort == SBool {
		switch t.op {
		case OConst:
			if t == tTrue {
				return "true"
			}
			return "false"
		case ONot:
			return "(not " + e.str(t.args[0]) + ")"
		case OAnd, OOr:
			o := "(and"
			if t.op == OOr {
				o = "(or"
			}
			for _, a := range t.args {
				o += " " + e.str(a)
			}
			return o + ")"
		case OLe0:
			return "(>= " + e.str(t.args[0]) + " 0)"
		case OEq0:
			if t.args[0].sort == SInt {
				return "(= " + e.str(t.args[0]) + " 0)"
			}
		case OUF:
			ok := len(t.args) > 0
			for _, a := range t.args {
				if a.sort != SInt {
					ok = false
				}
			}
			if ok {
				n := "|u" + t.name + "|"
				e.declare(n, strings.Repeat("Int ", len(t.args)), "Bool")
				o := "(" + n
				for _, a := range t.args {
					o += " " + e.str(a)
				}
				return o + ")"
			}
		}
		n := fmt.Sprintf("b%d", t.id)
		e.declare(n, "", "Bool")
		return n
	}
	if t.sort != SInt {
		n := fmt.Sprintf("o%d", t.id)
		e.declare(n, "", "Int")
		return n
	}
	switch t.op {
	case OConst:
		return num(t.n.String())
	case OVar, OBV:
		n := fmt.Sprintf("x%d", t.id)
		e.declare(n, "", "Int")
		return n
	case OPoly:
		var parts []string
		for _, m := range t.monos {
			c := num(m.c.String())
			if len(m.fs) == 0 {
				parts = append(parts, c)
				continue
			}
			deg := int64(0)
			for _, f := range m.fs {
				d, _ := f.e.constInt()
				deg += d
			}
			var a string
			if deg == 1 {
				a = e.str(m.fs[0].a)
			} else {
				mt := mkPoly(SInt, []Mono{{c: one.n, fs: m.fs}})
				n := fmt.Sprintf("m%d", mt.id)
				e.declare(n, "", "Int")
				a = n
				if !e.seen[mt] {
					e.seen[mt] = true
					e.prods = append(e.prods, mt)
					// products: split in first atom and rest
					f0 := m.fs[0].a
					rest := exactDiv(mt, f0)
					e.fact(Implies(And(Ge0(f0), Ge0(rest)), Ge0(mt)),
						Implies(And(Ge0(Sub(f0, one)), Ge0(Sub(rest, one))), Le(Add(f0, rest), Add(mt, one))),
						Implies(Eq0(f0), Eq0(mt)), Implies(Eq0(rest), Eq0(mt)))
					for _, f := range m.fs {
						if f.a.op == ODiv && f.e == one && len(m.fs) == 2 {
							// q <= b gives q*(a/b) <= a
							a, b, q := f.a.args[0], f.a.args[1], exactDiv(mt, f.a)
							if q == nil || q == b {
								continue
							}
							pos := And(Ge0(Sub(b, one)), Ge0(a))
							e.fact(Implies(And(pos, Le(q, b)), Le(mt, a)), Implies(And(pos, Lt(q, b)), Le(Add(mt, f.a), a)))
						}
					}
				}
			}
			if m.c.Cmp(one.n) == 0 {
				parts = append(parts, a)
			} else {
				parts = append(parts, "(* "+c+" "+a+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OIte:
		return "(ite " + e.str(t.args[0]) + " " + e.str(t.args[1]) + " " + e.str(t.args[2]) + ")"
	case OMin:
		a, b := e.str(t.args[0]), e.str(t.args[1])
		return "(ite (<= " + a + " " + b + ") " + a + " " + b + ")"
	case OMax:
		a, b := e.str(t.args[0]), e.str(t.args[1])
		return "(ite (>= " + a + " " + b + ") " + a + " " + b + ")"
	case ODiv, OMod:
		if c, ok := t.args[1].constInt(); ok && c > 0 {
			op := "div"
			if t.op == OMod {
				op = "mod"
			}
			return fmt.Sprintf("(%s %s %d)", op, e.str(t.args[0]), c)
		}
		n := fmt.Sprintf("d%d", t.id)
		e.declare(n, "", "Int")
		if !e.seen[t] {
			e.seen[t] = true
			a, b := t.args[0], t.args[1]
			pos := Ge0(Sub(b, one))
			if t.op == ODiv {
				e.fact(Implies(pos, And(Le(Mul(b, t), a), Lt(a, Add(Mul(b, t), b)))))
				e.fact(Implies(And(pos, Ge0(a)), And(Ge0(t), Le(t, a))))
			} else {
				q := raw(ODiv, SInt, "", a, b)
				e.fact(Implies(pos, And(Eq(t, Sub(a, Mul(b, q))), Ge0(t), Lt(t, b))))
			}
		}
		return n
	case OPow2:
		n := fmt.Sprintf("p%d", t.id)
		e.declare(n, "", "Int")
		if !e.seen[t] {
			e.seen[t] = true
			x := t.args[0]
			e.fact(Implies(Ge0(x), Ge0(Sub(t, one))), Implies(Ge0(Sub(x, one)), Ge0(Sub(t, two))),
				Implies(Eq0(x), Eq(t, one)), Implies(Le(x, I(28)), Le(t, I(1<<28))),
				Implies(Le(x, I(27)), Le(t, I(1<<27))), Implies(Le(I(28), x), Le(I(1<<28), t)))
			for _, o := range e.pow2s {
				y := o.args[0]
				e.fact(Implies(Lt(x, y), Le(MulC(2, t), o)), Implies(Lt(y, x), Le(MulC(2, o), t)),
					Implies(Eq(x, Add(y, one)), Eq(t, MulC(2, o))), Implies(Eq(y, Add(x, one)), Eq(o, MulC(2, t))))
			}
			for _, o := range e.pow2s {
				y := o.args[0]
				e.fact(Implies(Le(x, y), Le(t, o)), Implies(Le(y, x), Le(o, t)))
			}
			e.pow2s = append(e.pow2s, t)
		}
		return n
	case OUF:
		n := "|f" + t.name + "|"
		var ss, as []string
		for _, a := range t.args {
			ss = append(ss, "Int")
			as = append(as, e.str(a))
		}
		e.declare(n, strings.Join(ss, " "), "Int")
		if !e.seen[t] {
			e.seen[t] = true
			if f, ok := ufFacts[t.name]; ok {
				e.fact(f(t)...)
			}
			if strings.Contains(t.name, "#") || t.name == "bitrev" {
				for _, o := range e.counts {
					e.fact(pairFacts(t, o)...)
				}
				e.counts = append(e.counts, t)
			}
			if strings.HasSuffix(t.name, ".len") {
				e.fact(Ge0(t))
			}
		}
		if len(as) == 0 {
			return n
		}
		return "(" + n + " " + strings.Join(as, " ") + ")"
	}
	panic("smt: " + t.String())
}

// symbols of a fact, for relevance
var symMemo = map[*Term]map[*Term]bool{}

func symsOf(t *Term) map[*Term]bool {
	if s, ok := symMemo[t]; ok {
		return s
	}
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == OVar:
			out[t] = true
			return
		case t.sort != SInt && t.sort != SBool:
			out[t] = true
			return
		case t.sort == SBool && (t.op == OEq || (t.op == OEq0 && t.args[0].sort != SInt)):
			out[t] = true
			return
		case t.op == OUF && t.sort == SBool:
			out[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a)
			}
		}
	}
	rec(t)
	symMemo[t] = out
	return out
}

func relevant(fs []*Term, goal *Term) []*Term {
	syms := map[*Term]bool{}
	for s := range symsOf(goal) {
		syms[s] = true
	}
	in := make([]bool, len(fs))
	for ch := true; ch; {
		ch = false
		for i, f := range fs {
			if in[i] {
				continue
			}
			fsy := symsOf(f)
			hit := len(fsy) == 0
			for s := range fsy {
				if syms[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for s := range fsy {
					syms[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range fs {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

func buildScript(fs []*Term, goal *Term) string {
	e := &enc{decl: map[string]string{}, seen: map[*Term]bool{}, memo: map[*Term]string{}}
	var asserts []string
	for _, f := range fs {
		asserts = append(asserts, e.str(f))
	}
	asserts = append(asserts, "(not "+e.str(goal)+")")
	// an equality multiplied by the cofactor of a product that has one of its variables
	for _, mt := range e.prods {
		for _, f := range fs {
			if f.op != OEq0 || f.args[0].sort != SInt {
				continue
			}
			ms := monosOf(f.args[0])
			for _, m := range ms {
				if len(ms) <= 3 && len(m.fs) == 1 && m.fs[0].e == one && m.fs[0].a.op == OVar && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1) {
					if rest := exactDiv(mt, m.fs[0].a); rest != nil {
						e.fact(Eq0(Mul(f.args[0], rest)))
					}
				}
			}
		}
	}
	n := 0
	for len(e.extra) > 0 && n < 400 {
		x := e.extra
		e.extra = nil
		for _, f := range x {
			if f == tTrue {
				continue
			}
			n++
			asserts = append(asserts, e.str(f))
		}
	}
	var b strings.Builder
	for _, d := range e.order {
		b.WriteString(e.decl[d])
	}
	for _, a := range asserts {
		b.WriteString("(assert " + a + ")\n")
	}
	return b.String()
}

// implied: do the facts of pc imply goal?
func (p *PC) implied(goal *Term) bool {
	if goal == tTrue {
		return true
	}
	if p.has(goal) {
		return true
	}
	if goal != tFalse && p.has(Not(goal)) {
		// only if inconsistent; leave to the solver
	}
	if goal.op == OAnd {
		for _, a := range goal.args {
			if !p.implied(a) {
				return false
			}
		}
		return true
	}
	fs := p.facts()
	rel := fs
	if goal != tFalse {
		rel = relevant(fs, goal)
		if len(rel) == 0 && goal.op != OLe0 && goal.op != OEq0 && goal.op != OOr {
			return false
		}
	}
	var ks []int
	for _, f := range rel {
		ks = append(ks, f.id)
	}
	sort.Ints(ks)
	key := fmt.Sprint(ks, goal.id)
	if r, ok := smtCache[key]; ok {
		return r == 1
	}
	r := z3.check(buildScript(rel, goal))
	smtCache[key] = r
	return r == 1
}

func (p *PC) inconsistent() bool {
	for x := p; x != nil; x = x.up {
		if x.f == tFalse {
			return true
		}
	}
	return p.implied(tFalse)
}

// decide returns 1 (true), -1 (false), 0 (unknown)
func (p *PC) decide(c *Term) int {
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return -1
	}
	if p.implied(c) {
		return 1
	}
	if p.implied(Not(c)) {
		return -1
	}
	return 0
}

// ---------------------------------------------------------------- simplification under a path condition

func hasCond(t *Term) bool {
	return len(condsOf(t)) > 0
}

var condMemo = map[*Term][]*Term{}

// condsOf lists the conditions of if-then-else, min and max inside t (not under binders)
func condsOf(t *Term) []*Term {
	if r, ok := condMemo[t]; ok {
		return r
	}
	var out []*Term
	set := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		add := func(c *Term) {
			if !set[c] && !hasBV(c) {
				set[c] = true
				out = append(out, c)
			}
		}
		switch t.op {
		case OIte:
			rec(t.args[0])
			add(t.args[0])
			rec(t.args[1])
			rec(t.args[2])
			return
		case OMin, OMax:
			rec(t.args[0])
			rec(t.args[1])
			add(Le(t.args[0], t.args[1]))
			return
		case OPre:
			rec(t.args[0])
			rec(t.args[1])
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a)
				rec(f.e)
			}
		}
		for _, l := range t.lin {
			rec(l.c)
			rec(l.p)
		}
	}
	rec(t)
	condMemo[t] = out
	return out
}

var bvMemo = map[*Term]bool{}

func hasBV(t *Term) bool {
	if t.maxbv == 0 {
		return false
	}
	if r, ok := bvMemo[t]; ok {
		return r
	}
	// free bound variables: substitute and see
	r := false
	seen := map[*Term]bool{}
	var rec func(t *Term, bound map[int]bool)
	rec = func(t *Term, bound map[int]bool) {
		if t.maxbv == 0 || seen[t] {
			return
		}
		if t.op == OBV && !bound[t.lvl] {
			r = true
			return
		}
		if t.op == OPre {
			rec(t.args[0], bound)
			b2 := map[int]bool{t.lvl: true}
			for k := range bound {
				b2[k] = true
			}
			rec(t.args[1], b2)
			return
		}
		for _, a := range t.args {
			rec(a, bound)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a, bound)
				rec(f.e, bound)
			}
		}
		for _, l := range t.lin {
			rec(l.c, bound)
			rec(l.p, bound)
		}
	}
	rec(t, map[int]bool{})
	bvMemo[t] = r
	return r
}

// assumeCond rewrites t knowing that condition c has the given truth value
func assumeCond(t, c *Term, val bool) *Term {
	return Rewrite(t, func(x *Term) *Term {
		switch x.op {
		case OIte:
			if x.args[0] == c {
				if val {
					return assumeCond(x.args[1], c, val)
				}
				return assumeCond(x.args[2], c, val)
			}
		case OMin:
			if Le(x.args[0], x.args[1]) == c {
				if val {
					return assumeCond(x.args[0], c, val)
				}
				return assumeCond(x.args[1], c, val)
			}
		case OMax:
			if Le(x.args[0], x.args[1]) == c {
				if val {
					return assumeCond(x.args[1], c, val)
				}
				return assumeCond(x.args[0], c, val)
			}
		}
		if x.sort == SBool && x == c {
			return B(val)
		}
		return nil
	}, false)
}

// simp resolves the conditions of t that pc decides, and applies variable equalities
func (p *PC) simp(t *Term) *Term {
	for round := 0; round < 6; round++ {
		ch := false
		for _, c := range condsOf(t) {
			switch p.decide(c) {
			case 1:
				t = assumeCond(t, c, true)
				ch = true
			case -1:
				t = assumeCond(t, c, false)
				ch = true
			default:
				if c2 := p.narrow(c); c2 != c {
					t = Rewrite(t, func(x *Term) *Term {
						if x == c {
							return c2
						}
						return nil
					}, false)
					ch = true
				}
			}
			if ch {
				break
			}
		}
		if !ch {
			break
		}
	}
	return t
}

// eqSubst applies the Int equalities of pc as rewrite rules
func (p *PC) eqSubst(t *Term) *Term { return p.eqSubstM(t, false) }

func (p *PC) eqSubstM(t *Term, mm bool) *Term {
	for _, ae := range p.solved(mm) {
		if occurs(t, ae[0]) {
			t = SubstM(t, map[*Term]*Term{ae[0]: ae[1]})
		}
	}
	return t
}

type solvedKey struct {
	p  *PC
	mm bool
}

var solvedMemo = map[solvedKey][][2]*Term{}

// solved is the triangular form of the Int equalities of p
func (p *PC) solved(mm bool) [][2]*Term {
	if r, ok := solvedMemo[solvedKey{p, mm}]; ok {
		return r
	}
	var out [][2]*Term
	for _, f := range p.facts() {
		if f.op == OEq0 && f.args[0].sort == SInt || f.op == OLe0 && p.has(Ge0(Neg(f.args[0]))) {
			gs := []*Term{f.args[0]}
			if f.op == OEq0 && hasCond(f) {
				if h := p.simp(f.args[0]); h != f.args[0] {
					gs = append(gs, h)
				}
			}
			for _, g := range gs {
				for _, ae := range out {
					g = SubstM(g, map[*Term]*Term{ae[0]: ae[1]})
				}
				if a, e := solveAtom(g, mm); a != nil {
					out = append(out, [2]*Term{a, e})
				}
			}
		}
	}
	solvedMemo[solvedKey{p, mm}] = out
	return out
}

func solveAtom(p *Term, mm bool) (*Term, *Term) {
	if v, e := solveVar(p); v != nil {
		return v, e
	}
	ms := monosOf(p)
	for _, m := range ms {
		if len(m.fs) == 1 && m.fs[0].e == one && (m.fs[0].a.op == OUF || mm && (m.fs[0].a.op == OMin || m.fs[0].a.op == OMax)) && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1) {
			a := m.fs[0].a
			rest := Sub(p, MulC(m.c.Int64(), a))
			if occurs(rest, a) {
				continue
			}
			if m.c.Int64() == 1 {
				return a, Neg(rest)
			}
			return a, rest
		}
	}
	return nil, nil
}

// zero decides whether d = 0 follows from pc
func (p *PC) zero(d *Term) bool { return p.zeroD(d, 5) }

func (p *PC) zeroD(d *Term, depth int) bool {
	if d.sort == SInt {
		return p.implied(Eq0(d))
	}
	d = telescope(d)
	if z, ok := isZeroTerm(d); ok {
		return z
	}
	if d4 := telescope(p.eqSubstM(d, true)); d4 != d {
		if z, ok := isZeroTerm(d4); ok && z {
			return true
		}
	}
	d0 := d
	d = telescope(p.simp(d))
	if z, ok := isZeroTerm(d); ok && z {
		return true
	}
	// equalities that p implies, also those that simp has used up
	for _, c := range append(condsOf(d), condsOf(d0)...) {
		if c.op == OEq0 && c.args[0].sort == SInt && !p.has(c) && p.decide(c) == 1 {
			p = p.and(c)
		}
	}
	d2 := telescope(p.eqSubst(d))
	if e := p.eqSubst(d2); e != d2 {
		d2 = telescope(e)
	}
	if z, ok := isZeroTerm(d2); ok && z {
		return true
	}
	if d3 := p.unify(d2); d3 != d2 {
		if p.zeroD(d3, depth-1) {
			return true
		}
	}
	if d4 := telescope(p.eqSubstM(d, true)); d4 != d2 {
		if z, ok := isZeroTerm(d4); ok && z {
			return true
		}
	}
	if p.has(Eq0(d)) || p.has(Eq0(d2)) {
		return true
	}
	if depth <= 0 {
		return false
	}
	if p.inconsistent() {
		return true
	}
	// a permutation of up to two indices keeps them
	if occursUF(d2, "bitrev") {
		for _, t := range collectUF(d2, "bitrev") {
			if p.implied(Le(t.args[0], two)) && p.implied(Eq(t, t.args[1])) {
				return p.zeroD(SubstM(d2, map[*Term]*Term{t: t.args[1]}), depth-1)
			}
		}
	}
	// case split on a remaining condition
	for _, c := range condsOf(d2) {
		a := telescope(assumeCond(d2, c, true))
		b := telescope(assumeCond(d2, c, false))
		return p.split(c).zeroD(a, depth-1) && p.split(Not(c)).zeroD(b, depth-1)
	}
	return false
}

// split assumes c; a bound that p makes tight becomes an equality
func (p *PC) split(c *Term) *PC {
	q := p.and(c)
	if c.op == OLe0 && p.implied(Ge0(Neg(c.args[0]))) {
		q = q.and(Eq0(c.args[0]))
	}
	return q
}

// unify merges uninterpreted applications whose Int arguments are provably equal
func (p *PC) unify(d *Term) *Term {
	var ufs []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.op == OUF && len(t.args) > 0 && !hasBV(t)) || (t.op == OPre && !hasBV(t)) {
			ufs = append(ufs, t)
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f.a)
				rec(f.e)
			}
		}
		for _, l := range t.lin {
			rec(l.c)
			rec(l.p)
		}
	}
	rec(d)
	// the position of an index that is provably a count
	for _, u := range ufs {
		if !strings.HasPrefix(u.name, "pos#") {
			continue
		}
		q := predNamed(u.name)
		for _, m := range monosOf(u.args[0]) {
			for _, f := range m.fs {
				if f.a.op == OUF && strings.HasPrefix(f.a.name, "cnt#") && q != nil {
					if n := q.cnt(f.a.args[0]); p.implied(Eq(u.args[0], n)) {
						return SubstM(d, map[*Term]*Term{u: q.pos(n)})
					}
				}
			}
		}
	}
	if len(ufs) > 60 {
		return d
	}
	for i := range ufs {
		for j := i + 1; j < len(ufs); j++ {
			a, b := ufs[i], ufs[j]
			if a == b || a.op != b.op || a.name != b.name || a.sort != b.sort || len(a.args) != len(b.args) || occurs(a, b) || occurs(b, a) {
				continue
			}
			if a.op == OPre && (a.lvl != b.lvl || a.args[1] != b.args[1]) {
				continue
			}
			ok := true
			for k := range a.args {
				if a.args[k] == b.args[k] {
					continue
				}
				if a.args[k].sort != SInt || hasBV(a.args[k]) || hasBV(b.args[k]) || !p.implied(Eq(a.args[k], b.args[k])) {
					ok = false
					break
				}
			}
			if ok {
				if a.id < b.id {
					return SubstM(d, map[*Term]*Term{b: a})
				}
				return SubstM(d, map[*Term]*Term{a: b})
			}
		}
	}
	return d
}

// equal decides a = b under pc for any sort
func (p *PC) equal(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	switch a.sort {
	case SInt, SF, SG1, SG2:
		return p.zero(Sub(a, b))
	case SBool:
		if p.implied(Eq(a, b)) {
			return true
		}
		if p.boolEq(p.simp(a), p.simp(b)) {
			return true
		}
		if goal := p.eqSubst(Eq(a, b)); goal != tFalse && len(p.solved(false)) > 0 {
			q := p
			for _, f := range p.facts() {
				if g := p.eqSubst(f); g != f {
					q = q.and(g)
				}
			}
			return q.implied(goal)
		}
		return false
	case SBytes:
		return p.eqBytes(a, b, 4)
	}
	a, b = p.eqSubst(p.simp(a)), p.eqSubst(p.simp(b))
	if a == b {
		return true
	}
	if a.op == OIte {
		return p.and(a.args[0]).equal(a.args[1], b) && p.and(Not(a.args[0])).equal(a.args[2], b)
	}
	if b.op == OIte {
		return p.equal(b, a)
	}
	if a.op == OUF && b.op == OUF && a.name == b.name && len(a.args) == len(b.args) {
		for i := range a.args {
			if !p.equal(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return p.implied(Eq(a, b))
}

func (p *PC) boolEq(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == b.op && (a.op == OEq0 || a.op == ONot || a.op == OUF && a.name == b.name) && len(a.args) == len(b.args) {
		for i := range a.args {
			if !p.equal(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (p *PC) eqBytes(a, b *Term, depth int) bool {
	a, b = p.eqSubst(p.simp(a)), p.eqSubst(p.simp(b))
	if a == b {
		return true
	}
	if depth > 0 {
		cs := append(append([]*Term{}, condsOf(a)...), condsOf(b)...)
		for _, c := range cs {
			return p.and(c).eqBytes(assumeCond(a, c, true), assumeCond(b, c, true), depth-1) &&
				p.and(Not(c)).eqBytes(assumeCond(a, c, false), assumeCond(b, c, false), depth-1)
		}
	}
	pa, pb := []*Term{a}, []*Term{b}
	if a.op == OCat {
		pa = a.args
	}
	if b.op == OCat {
		pb = b.args
	}
	if len(pa) != len(pb) {
		return p.inconsistent()
	}
	for i := range pa {
		x, y := pa[i], pb[i]
		if x == y {
			continue
		}
		if x.op == OUF && y.op == OUF && x.name != y.name {
			if h := hashes[x.name]; h != nil {
				x = h(x.args[0])
			} else if h := hashes[y.name]; h != nil {
				y = h(y.args[0])
			}
		}
		if x.op != OUF || y.op != OUF || x.name != y.name || len(x.args) != len(y.args) {
			return p.inconsistent()
		}
		for k := range x.args {
			if !p.equal(x.args[k], y.args[k]) {
				return false
			}
		}
	}
	return true
}

func (s *Solver) stats() string {
	return fmt.Sprintf("%s: %d queries, %d unknown, %.1f s", s.name, s.queries, s.unknown, s.time.Seconds())
}

// mergeCases is simp, and drops case distinctions whose branches agree where they apply
func (p *PC) mergeCases(t *Term) *Term {
	t = p.simp(t)
	for round := 0; round < 4; round++ {
		ch := false
		for _, c := range condsOf(t) {
			if p.decide(c) != 0 {
				continue
			}
			a, b := assumeCond(t, c, true), assumeCond(t, c, false)
			if a == b {
				t, ch = a, true
				break
			}
			q := p.split(Not(c))
			if a2 := q.simp(a); q.equal(a2, b) {
				t, ch = p.simp(a), true
				break
			}
			q = p.split(c)
			if b2 := q.simp(b); q.equal(a, b2) {
				t, ch = p.simp(b), true
				break
			}
		}
		if !ch {
			break
		}
	}
	return t
}

// narrow drops the decided parts of a conjunction or disjunction
func (p *PC) narrow(c *Term) *Term {
	if c.op != OAnd && c.op != OOr {
		return c
	}
	var out []*Term
	for _, a := range c.args {
		d := p.decide(a)
		if c.op == OAnd && d == 1 || c.op == OOr && d == -1 {
			continue
		}
		out = append(out, p.narrow(a))
	}
	if c.op == OAnd {
		return And(out...)
	}
	return Or(out...)
}
