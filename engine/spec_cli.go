package main

import (
	"fmt"
	"go/types"
)

func init() { specs["C23"] = specC23 }

// the documented commands: the operation and its arguments (the numbers of the command's arguments; # for numbers)
var commands = []struct {
	name, pkg, fn string
	n             int
	args          []string
}{
	{"p1n", "/phase1", "Initialize", 2, []string{"#0", "1"}},
	{"p1c", "/phase1", "Contribute", 2, []string{"0", "1"}},
	{"p1v", "/phase1", "Verify", 1, []string{"0", "-"}},
	{"p1t", "/phase1", "Transform", 4, []string{"0", "1", "#2", "#3"}},
	{"p1vt", "/phase1", "Verify", 2, []string{"0", "1"}},
	{"p2n", "/phase2", "Initialize", 3, []string{"0", "1", "2"}},
	{"p2np", "/phase2", "InitializeFromPartedR1CS", 6, []string{"0", "1", "2", "#3", "#4", "#5"}},
	{"p2c", "/phase2", "Contribute", 2, []string{"0", "1"}},
	{"p2v", "/phase2", "Verify", 2, []string{"0", "1"}},
	{"key", "/keys", "ExtractKeys", 1, []string{"0"}},
	{"keys", "/keys", "ExtractSplitKeys", 2, []string{"0", "1"}},
	{"sol", "/keys", "ExportSol", 1, []string{"0"}},
}

// ranges of the numbers
func cliRange(name string) *Term {
	num := func(i int64) *Term { return UF("atoi", SInt, cliArg(I(i))) }
	switch name {
	case "p1n":
		return And(Ge0(Sub(num(0), one)), Le(num(0), I(26)))
	case "p1t":
		return And(Ge0(Sub(num(3), one)), Le(num(3), num(2)), Le(num(2), I(28)))
	}
	return tTrue
}

func specC23(c *Ctx) {
	callsPath := StrLit("#calls")
	mk := func() *world {
		w := c.world()
		for _, cmd := range commands {
			n := cmd.pkg + "." + cmd.fn
			f := c.prog.fn(cmd.pkg, cmd.fn)
			if !c.ob(f != nil, "operations"+n, "no function %s", n) {
				continue
			}
			w.x.contracts[f.String()] = func(x *Exec, st *State, a []Val) []Out {
				var ts []*Term
				for _, v := range a {
					t, ok := v.(*Term)
					if !ok {
						st.badf("argument %s", valString(v))
						t = Fresh("arg", SAny)
					}
					ts = append(ts, t)
				}
				ok := Fresh("ok:"+n, SBool)
				k := UF("call:"+n, SAny, append(ts, ok)...)
				old := st.fs[callsPath]
				st.fs[callsPath] = appendSegs(old, one1seg(Item{"call", k, one}))
				return one1(st, ErrV{ok})
			}
		}
		w.st.fs[callsPath] = &Content{}
		return w
	}
	// main
	cliRuns = nil
	w := mk()
	f := c.prog.fn("", "main")
	if !c.ob(f != nil, "main", "no function main") {
		return
	}
	outs := w.x.call(f, nil, nil, w.st.clone())
	c.done(w.x)
	c.ob(len(cliRuns) == 1, "main/runs-the-app", "the command line library is run %d times", len(cliRuns))
	for i, o := range outs {
		w.clean("main", i, o)
		if !o.panic {
			w.ioSound("main", i, o)
		} else {
			pc := o.st.pc
			for _, f := range o.st.fall {
				pc = pc.and(f.lit)
			}
			c.ob(pc.inconsistent(), fmt.Sprintf("main/exit%d/only-on-failure", i), "exits with %s although the command succeeded", o.why)
		}
		c.ob(len(o.st.fs[callsPath].segs) == 0, "main/only-through-commands", "an operation is run outside of the commands")
	}
	actions := map[string]FuncV{}
	for _, r := range cliRuns {
		app, ok := r.app.(*StructV)
		if !c.ob(ok, "main/app", "%s", valString(r.app)) {
			return
		}
		s := app.t.Underlying().(*types.Struct)
		for i := range app.f {
			n := s.Field(i).Name()
			switch n {
			case "Commands":
				sl, _ := app.f[i].(SliceV)
				k, isC := sl.len.constInt()
				c.ob(isC, "main/commands", "the list of commands has no fixed length")
				for j := int64(0); j < k; j++ {
					cp, ok := w.x.elemAt(r.st, sl, I(j)).(Ptr)
					if !c.ob(ok, "main/command", "not a command") {
						continue
					}
					cv, ok := r.st.load(cp).(*StructV)
					if !c.ob(ok, "main/command", "not a command") {
						continue
					}
					cs := cv.t.Underlying().(*types.Struct)
					name, plain := "", true
					var act FuncV
					for l := range cv.f {
						switch fn := cs.Field(l).Name(); fn {
						case "Name":
							if t, ok := cv.f[l].(*Term); ok && isLit(t) {
								name = litOf(t)
							}
						case "Action":
							act, _ = cv.f[l].(FuncV)
						case "Usage", "UsageText", "Description", "ArgsUsage", "Category", "HelpName", "CustomHelpTemplate", "Hidden", "BashComplete":
						default:
							plain = plain && sameVal(cv.f[l], zeroVal(cs.Field(l).Type()))
						}
					}
					c.ob(plain, "main/"+name+"/plain", "the command has flags, hooks or subcommands")
					c.ob(actions[name].fn == nil, "main/"+name+"/once", "the command is defined twice")
					actions[name] = act
				}
			case "Name", "Usage", "UsageText", "Description", "ArgsUsage", "Version", "HelpName", "Copyright", "Compiled", "Authors":
			default:
				c.ob(sameVal(app.f[i], zeroVal(s.Field(i).Type())), "main/app-"+n, "the app sets %s", n)
			}
		}
		want := symVal(types.NewSlice(types.Typ[types.String]), "os.Args")
		c.ob(sameVal(r.args, want), "main/os-args", "the app gets %s instead of the arguments of the process", valString(r.args))
	}
	for _, cmd := range commands {
		act := actions[cmd.name]
		if !c.ob(act.fn != nil, cmd.name+"/defined", "no such command") {
			continue
		}
		w := mk()
		w.st.assume(Ge0(cliN))
		ctx := newNat(w.st, "clictx", nil)
		outs := w.x.call(act.fn, []Val{ctx}, act.bind, w.st.clone())
		c.done(w.x)
		// what makes the arguments valid
		valid := And(Eq(cliN, I(int64(cmd.n))), cliRange(cmd.name))
		var want []*Term
		for _, a := range cmd.args {
			switch {
			case a == "-":
				want = append(want, StrLit(""))
			case a[0] == '#':
				s := cliArg(I(int64(a[1] - '0')))
				valid = And(valid, UF("atoiOK", SBool, s))
				want = append(want, UF("atoi", SInt, s))
			default:
				want = append(want, cliArg(I(int64(a[0]-'0'))))
			}
		}
		ran := false
		for i, o := range outs {
			m := fmt.Sprintf("%s/path%d/", cmd.name, i)
			pc := o.st.pc
			if o.panic {
				c.ob(pc.inconsistent(), m+"no-panic", "%s", o.why)
				continue
			}
			w.clean(cmd.name, i, o)
			calls := o.st.fs[callsPath].segs
			ok := okOf(o.ret)
			if !c.ob(ok != nil, m+"result", "returns %s", valString(TupleV(o.ret))) {
				continue
			}
			if len(calls) == 0 {
				c.ob(pc.decide(ok) == -1, m+"refused-with-error", "no operation is run but no error is returned")
				c.ob(pc.and(valid).inconsistent(), m+"refused-only-if-wrong", "valid arguments are refused: %v", pc.facts())
				continue
			}
			ran = true
			if !c.ob(len(calls) == 1, m+"one-operation", "%d operations are run", len(calls)) {
				continue
			}
			k := calls[0].items[0].t
			c.ob(k.name == "call:"+cmd.pkg+"."+cmd.fn && len(k.args) == len(want)+1, m+"operation", "runs %s", k)
			for j, t := range want {
				if j < len(k.args)-1 {
					c.ob(k.args[j].sort == t.sort && pc.equal(k.args[j], t), m+fmt.Sprintf("argument%d", j), "%s instead of %s", k.args[j], t)
				}
			}
			c.ob(pc.implied(valid), m+"only-valid-arguments", "runs although not %s", valid)
			c.ob(pc.equal(ok, k.args[len(k.args)-1]), m+"reports-the-result", "returns %s", valString(o.ret[0]))
		}
		c.ob(ran, cmd.name+"/runs", "the operation is never run")
	}
}

func okOf(ret []Val) *Term {
	if len(ret) == 0 {
		return nil
	}
	switch e := ret[len(ret)-1].(type) {
	case NilV:
		return tTrue
	case ErrV:
		return e.ok
	}
	return nil
}
