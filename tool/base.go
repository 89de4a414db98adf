package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx: everything that the checks share.
type Ctx struct {
	p            *Prog
	mod          *Mods
	inv          *Invs
	base         *State
	sums         *Sums
	initProblems []string
	rootSet      map[*ssa.Function]bool
	initObjs     map[*Term]bool
	initOf       *State
}

func newCtx(dir string) (*Ctx, error) {
	T = newTerms()
	p, err := loadRepo(dir)
	if err != nil {
		return nil, err
	}
	c := &Ctx{p: p, mod: newMods(p), inv: &Invs{nonnil: map[string]bool{}, lower: map[string]int64{}}}
	c.sums = newSums(func() *Exec { return c.exec() })
	c.initBase()
	return c, nil
}

func (c *Ctx) exec() *Exec {
	ex := newExec(c.p, c.inv, c.mod)
	ex.base = c.base
	ex.sums = c.sums
	return ex
}

// initOrder: library packages, dependencies first.
func (c *Ctx) initOrder() []*ssa.Package {
	byPath := map[string]*ssa.Package{}
	for _, sp := range c.p.all {
		byPath[sp.Pkg.Path()] = sp
	}
	var out []*ssa.Package
	seen := map[string]bool{}
	var rec func(sp *ssa.Package)
	rec = func(sp *ssa.Package) {
		if seen[sp.Pkg.Path()] {
			return
		}
		seen[sp.Pkg.Path()] = true
		var deps []string
		for _, d := range sp.Pkg.Imports() {
			deps = append(deps, d.Path())
		}
		sort.Strings(deps)
		for _, d := range deps {
			if x := byPath[d]; x != nil {
				rec(x)
			}
		}
		out = append(out, sp)
	}
	for _, sp := range c.p.all {
		rec(sp)
	}
	return out
}

// initBase interprets the package initialisers: the state every other function starts in.
func (c *Ctx) initBase() {
	ex := newExec(c.p, c.inv, c.mod)
	ex.sums = c.sums
	st := newState(ex)
	for _, sp := range c.p.all {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				a := T.mk(Term{op: OpGlobal, g: g, typ: g.Type()})
				st.heap[a] = zeroValue(elemTypeOfAddr(a))
			}
		}
	}
	for _, sp := range c.initOrder() {
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		outs := ex.run0(fn, nil, st)
		var live []Outcome
		for _, o := range outs {
			if !o.panic {
				live = append(live, o)
			}
		}
		if len(live) != 1 {
			c.initProblems = append(c.initProblems, fmt.Sprintf("initialisation of %s has %d outcomes", sp.Pkg.Path(), len(live)))
			if len(live) == 0 {
				continue
			}
		}
		st = live[0].st
	}
	for k := range ex.problems {
		c.initProblems = append(c.initProblems, k)
	}
	sort.Strings(c.initProblems)
	st.ev = nil
	st.forder = nil
	// objects created by initialisers are shared
	for a := range st.heap {
		if a.op == OpGlobal {
			st.markEscaped(st.heap[a])
		}
	}
	c.base = st
}

func shortFn(s string) string { return strings.ReplaceAll(s, repoMod+"/", "") }

func itoa(i int) string { return fmt.Sprint(i) }
