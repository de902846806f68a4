package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type Oblig struct {
	Name string `json:"name"`
	OK   bool   `json:"ok"`
	Why  string `json:"why,omitempty"`
}
type Result struct {
	Obligations []Oblig  `json:"obligations"`
	Trusted     []string `json:"trusted"`
	Functions   []string `json:"functions"`
	Loops       []string `json:"loops"`
	Solver      string   `json:"solver"`
	Assumptions []string `json:"assumptions"`
	Seconds     float64  `json:"seconds"`
	// Unreached tells what couldn't be brought under contract: nothing is claimed about it
	Unreached []string          `json:"unreached,omitempty"`
	ParSeen   map[string]string `json:"par_seen,omitempty"`
}

// Ctx collects the obligations of one property
type Ctx struct {
	prog  *Program
	res   *Result
	trust map[string]bool
	fns   map[string]bool
	loops map[string]string
	asm   map[string]bool
	tier  string
	// what was given to Parallelize, and why it isn't local
	parSeen map[string]string
	// report goroutines and what is written only (C21)
	effectsOnly bool
}

func (c *Ctx) ob(ok bool, name string, why string, a ...interface{}) bool {
	o := Oblig{Name: name, OK: ok}
	if !ok {
		o.Why = fmt.Sprintf(why, a...)
		if verbose {
			fmt.Printf("FAILED %s: %s\n", name, o.Why)
		}
	} else if verbose {
		fmt.Println("ok", name)
	}
	c.res.Obligations = append(c.res.Obligations, o)
	return ok
}

func (c *Ctx) unreach(why string) { c.res.Unreached = append(c.res.Unreached, why) }

var verbose bool
var specs = map[string]func(*Ctx){}

func (c *Ctx) exec() *Exec {
	x := &Exec{prog: c.prog, contracts: map[string]Contract{}, parSeen: map[string]string{}, used: map[string]int{}, funcs: map[string]int{}, loopsSeen: map[string]string{}, effectsOnly: c.effectsOnly}
	x.contracts[modPath+"/common.Parallelize"] = func(x *Exec, st *State, a []Val) []Out { return x.parallelize(st, a) }
	return x
}

func (c *Ctx) done(x *Exec) {
	for f := range x.funcs {
		c.fns[f] = true
	}
	for f := range x.used {
		c.trust[f] = true
	}
	for f, why := range x.parSeen {
		if c.parSeen != nil && c.parSeen[f] == "" {
			c.parSeen[f] = why
		}
	}
	for l, h := range x.loopsSeen {
		c.loops[l] = h
	}
	for _, n := range x.notes {
		c.asm[n] = true
	}
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	dbg := flag.String("debug", "", "")
	flag.BoolVar(&verbose, "v", false, "")
	flag.Parse()
	for _, d := range strings.Split(*dbg, ",") {
		switch d {
		case "bad":
			debugBad = true
		case "read":
			debugRead = true
		}
	}
	t0 := time.Now()
	z3 = newSolver("z3", "-in", "-smt2")
	c := &Ctx{res: &Result{}, trust: map[string]bool{}, fns: map[string]bool{}, loops: map[string]string{}, asm: map[string]bool{}, tier: *tier}
	var err error
	c.prog, err = loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	f := specs[*prop]
	ps := parts[*prop]
	if ps != nil {
		f = func(c *Ctx) { c.runParts(ps, *repo, *tier) }
	}
	if f == nil {
		fmt.Fprintln(os.Stderr, "no spec", *prop)
		os.Exit(3)
	}
	if *tier == "thorough" && ps == nil {
		cross = newCrossChecker(2, 400*time.Second)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if verbose {
					panic(r)
				}
				c.ob(false, "verifier", "verifier failed: %v", r)
			}
		}()
		f(c)
	}()
	if cross != nil {
		cross.finish(c)
	}
	c.res.Trusted, c.res.Functions, c.res.Assumptions = keys(c.trust), keys(c.fns), keys(c.asm)
	for l, h := range c.loops {
		c.res.Loops = append(c.res.Loops, l+": "+h)
	}
	sort.Strings(c.res.Loops)
	c.res.Seconds = time.Since(t0).Seconds()
	if ps == nil {
		c.res.Solver = z3.stats()
		if cross != nil {
			c.res.Solver += ", " + cross.String()
		}
	}
	j, _ := json.MarshalIndent(c.res, "", " ")
	if *out != "" {
		os.WriteFile(*out, append(j, '\n'), 0o644)
	} else {
		fmt.Println(string(j))
	}
	for _, o := range c.res.Obligations {
		if !o.OK {
			os.Exit(1)
		}
	}
}
