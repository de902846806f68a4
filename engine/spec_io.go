package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
)

// C22: whatever outcome reports success, every fallible operation on its path succeeded. The operations (opening,
// seeking, reading, writing, flushing, decoding, encoding) carry one literal each, per iteration inside loops.

type ioCase struct {
	name string
	run  func(c *Ctx, each func(w *world, name string, outs []Out))
}

func p1args(f func(w *world) []Val, pkg, fn string) func(c *Ctx, each func(w *world, name string, outs []Out)) {
	return func(c *Ctx, each func(w *world, name string, outs []Out)) {
		w := c.world()
		a := f(w)
		each(w, pkg+"."+fn, w.run(pkg, fn, a...))
	}
}

var ioCases = []ioCase{
	{"p1", func(c *Ctx, each func(w *world, name string, outs []Out)) {
		p1args(func(w *world) []Val { return []Val{w.intVar("power", 0, 27), Var("out", SStr)} }, "/phase1", "Initialize")(c, each)
		p1args(func(w *world) []Val {
			f := w.p1file("in", 0, 65535)
			for _, t := range []*Term{f.T(one), f.A(zero), f.B(zero), f.U(one)} {
				w.st.assume(Not(Eq0(t)))
			}
			return []Val{f.path, Var("out", SStr)}
		}, "/phase1", "Contribute")(c, each)
		p1args(func(w *world) []Val {
			in, out, a := transformWorld(w)
			return []Val{in, Var("outputPath", SStr), out, a}
		}, "/phase1", "Transform")(c, each)
	}},
	{"p1v", func(c *Ctx, each func(w *world, name string, outs []Out)) {
		p1args(func(w *world) []Val { return []Val{w.p1file("in", 0, 65535).path, StrLit("")} }, "/phase1", "Verify")(c, each)
		p1args(func(w *world) []Val {
			g := w.p1file("tr", 0, 65535)
			w.st.assume(Not(Eq(g.path, StrLit(""))))
			return []Val{w.p1file("in", 0, 65535).path, g.path}
		}, "/phase1", "Verify")(c, each)
	}},
	{"p2n", func(c *Ctx, each func(w *world, name string, outs []Out)) {
		w, _, _, outs, _ := runInit(c, "Initialize")
		each(w, "/phase2.Initialize", outs)
	}},
	{"p2np", func(c *Ctx, each func(w *world, name string, outs []Out)) {
		w, _, _, outs, _ := runInit(c, "InitializeFromPartedR1CS")
		each(w, "/phase2.InitializeFromPartedR1CS", outs)
	}},
	{"p2", func(c *Ctx, each func(w *world, name string, outs []Out)) {
		p1args(func(w *world) []Val {
			f := w.p2file("in")
			w.st.assume(Not(Eq0(Var("in.D1", SG1))))
			return []Val{f.path, Var("out", SStr)}
		}, "/phase2", "Contribute")(c, each)
		p1args(func(w *world) []Val { return []Val{w.p2file("in").path, w.p2file("or").path} }, "/phase2", "Verify")(c, each)
	}},
	{"keys", func(c *Ctx, each func(w *world, name string, outs []Out)) {
		k := c.keyWorld()
		each(k.world, "/keys.ExtractKeys", k.run("/keys", "ExtractKeys", k.f.path))
		k = c.keyWorld()
		each(k.world, "/keys.ExtractSplitKeys", k.run("/keys", "ExtractSplitKeys", k.f.path, Var("session", SStr)))
		p1args(func(w *world) []Val {
			s := Var("session", SStr)
			w.st.fs[strCat(s, StrLit(".vk.save"))] = &Content{segs: []Seg{one1seg(it("vk", Var("vk", SAny)))}}
			return []Val{s}
		}, "/keys", "ExportSol")(c, each)
	}},
}

func init() {
	for _, e := range ioCases {
		e := e
		parts["C22"] = append(parts["C22"], "C22/"+e.name)
		specs["C22/"+e.name] = func(c *Ctx) {
			e.run(c, func(w *world, name string, outs []Out) {
				oks, _ := w.split(name, outs)
				c.ob(len(oks) > 0, name+"/can-succeed", "no successful outcome")
				for i, o := range oks {
					w.clean(name, i, o)
					c.ob(len(o.st.fall) > 0, fmt.Sprintf("%s/path%d/does-io", name, i), "no fallible operation was seen")
					w.ioSound(name, i, o)
				}
			})
		}
	}
	// the commands report what the operations report, and the process what the commands report
	parts["C22"] = append(parts["C22"], "C22/cli")
	specs["C22/cli"] = func(c *Ctx) {
		specC23(c)
		var keep []Oblig
		for _, o := range c.res.Obligations {
			if strings.HasSuffix(o.Name, "/reports-the-result") || strings.HasSuffix(o.Name, "/io-errors-reported") || o.Name == "main" || o.Name == "main/runs-the-app" {
				keep = append(keep, o)
			}
		}
		c.res.Obligations = keep
	}
	parts["C13"] = []string{"C13/parted", "C13/regular"}
	specs["C13/parted"] = func(c *Ctx) { specInit(c, "C13", "InitializeFromPartedR1CS") }
	specs["C13/regular"] = func(c *Ctx) { specInit(c, "C13", "Initialize") }
}

// parts of a property are decided by processes of their own, at the same time
var parts = map[string][]string{}

func (c *Ctx) runParts(ps []string, repo, tier string) {
	res := make([]*Result, len(ps))
	errs := make([]string, len(ps))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, p := range ps {
		wg.Add(1)
		go func(i int, p string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			f, err := os.CreateTemp("", "vcg")
			if err != nil {
				errs[i] = err.Error()
				return
			}
			f.Close()
			defer os.Remove(f.Name())
			a := []string{"-repo", repo, "-prop", p, "-tier", tier, "-out", f.Name()}
			if verbose {
				a = append(a, "-v")
			}
			if debugBad {
				a = append(a, "-debug", "bad,read")
			}
			out, err := exec.Command("/proc/self/exe", a...).CombinedOutput()
			if verbose {
				os.Stdout.Write(out)
			}
			b, _ := os.ReadFile(f.Name())
			r := &Result{}
			if e := json.Unmarshal(b, r); e != nil || len(r.Obligations)+len(r.Unreached) == 0 {
				if len(out) > 2000 {
					out = out[len(out)-2000:]
				}
				errs[i] = fmt.Sprintf("%v %v %s", err, e, out)
				return
			}
			res[i] = r
		}(i, p)
	}
	wg.Wait()
	var solver []string
	seen := map[string]bool{}
	for i, p := range ps {
		if res[i] == nil {
			c.ob(false, p, "no result: %s", errs[i])
			continue
		}
		c.res.Obligations = append(c.res.Obligations, res[i].Obligations...)
		c.res.Unreached = append(c.res.Unreached, res[i].Unreached...)
		for f, why := range res[i].ParSeen {
			if c.parSeen == nil {
				c.parSeen = map[string]string{}
			}
			if c.parSeen[f] == "" {
				c.parSeen[f] = why
			}
		}
		for _, t := range res[i].Trusted {
			c.trust[t] = true
		}
		for _, t := range res[i].Functions {
			c.fns[t] = true
		}
		for _, t := range res[i].Assumptions {
			c.asm[t] = true
		}
		for _, l := range res[i].Loops {
			if !seen[l] {
				seen[l] = true
				c.res.Loops = append(c.res.Loops, l)
			}
		}
		solver = append(solver, res[i].Solver)
	}
	if c.parSeen != nil && len(c.res.Unreached) == 0 {
		c.parLocal("/lagrange", c.parSeen)
	}
	sort.Strings(c.res.Loops)
	c.res.Solver = strings.Join(solver, "; ")
}
