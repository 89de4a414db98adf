package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dump(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		verif, repo := os.Getenv("VERIF_DIR"), os.Getenv("VERIF_REPO")
		if verif == "" {
			verif = "/verif"
		}
		if repo == "" {
			repo = "/repo"
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		code := 0
		if f := os.Getenv("PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		for _, id := range strings.Split(os.Args[2], ",") {
			if runCheck(id, tier, verif, repo) != 0 {
				code = 1
			}
		}
		pprof.StopCPUProfile()
		os.Exit(code)
	}
	fmt.Println("usage: vt check ID[,ID...] [quick|thorough] | vt dump NAME...")
	os.Exit(2)
}

func dump(names []string) {
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	debugLoops = os.Getenv("LOOPS") != ""
	t0 := time.Now()
	debugTiming = true
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	c, err := newCtx(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t0), c.initProblems)
	for _, n := range names {
		if n == "inv" || n == "obl" {
			t0 := time.Now()
			r := c.inferInvariants()
			fmt.Println("rounds", r, time.Since(t0))
			for _, s := range c.inv.list() {
				fmt.Println("INV", s)
			}
			if n == "inv" {
				continue
			}
		}
		if n == "obl" {
			r := c.runObligations()
			fmt.Println("roots", len(r.roots), "fns", len(r.fns), "paths", r.paths, "steps", r.steps, "obl", len(r.obl))
			for _, o := range r.sorted() {
				if len(o.fails) > 0 {
					fmt.Println("OBL", o.kind, relName(o.fn), c.p.instrPos(o.instr), o.fails[0])
				}
			}
			for _, k := range sortedKeys(r.probs) {
				fmt.Println("PROBLEM", k)
			}
			continue
		}
		if n == "base" {
			var ks []*Term
			for a := range c.base.heap {
				ks = append(ks, a)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
			for _, a := range ks {
				fmt.Println(a, "=", c.base.heap[a])
			}
			for m, mc := range c.base.maps {
				fmt.Println("MAP", m, mc.exact, len(mc.entries))
				for _, e := range mc.entries {
					fmt.Println("   ", e.k, e.v)
				}
			}
			continue
		}
		for _, fn := range c.p.funcs {
			if relName(fn) != n {
				continue
			}
			if os.Getenv("SIZE") != "" {
				fmt.Println(n, c.sums.size(fn))
				continue
			}
			dumpFn(c, fn)
		}
	}
	fmt.Println("total", time.Since(t0))
}

func dumpFn(c *Ctx, fn *ssa.Function) {
	fmt.Println("=====", relName(fn))
	ex := c.exec()
	ex.obl = map[string]*Obl{}
	outs := ex.run0(fn, ex.symArgs(fn), ex.newRoot())
	for i, o := range outs {
		fmt.Printf("-- %d panic=%v %s\n", i, o.panic, o.pos)
		fmt.Println("   if", o.st.factString())
		for _, e := range o.st.ev.list() {
			fmt.Println("   ev", e)
		}
		for _, r := range o.rets {
			fmt.Println("   ret", o.st.canon(r))
		}
	}
	for _, k := range sortedKeys(ex.problems) {
		fmt.Println("PROBLEM", k)
	}
	var ks []string
	for k := range ex.obl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := ex.obl[k]
		if len(o.fails) > 0 {
			fmt.Println("OBL", o.kind, c.p.instrPos(o.instr), o.fails[0])
		}
	}
	fmt.Println("steps", ex.steps, "paths", ex.paths)
}
