package main

import (
	"fmt"
	"time"

	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole-library obligations: every instruction that can panic is proved safe on every
// abstract path of every entry function.

var debugTiming bool

type OblRun struct {
	obl   map[string]*Obl
	fns   map[*ssa.Function]bool
	roots []*ssa.Function
	paths int
	steps int
	probs map[string]string
	loops map[string][]*LoopRec // by header site
}

func exportedName(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

// entry functions: exported functions and methods, and functions used as values.
func (c *Ctx) entries() []*ssa.Function {
	taken := map[*ssa.Function]bool{}
	for _, fs := range c.p.taken {
		for _, f := range fs {
			taken[f] = true
		}
	}
	var out []*ssa.Function
	for _, fn := range c.p.funcs {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if exportedName(fn.Name()) || taken[fn] {
			out = append(out, fn)
			continue
		}
	}
	return out
}

// rootState assumes what an entry function may rely on: references of library types,
// functions, errors and readers that a caller passes are not nil.
func (c *Ctx) rootState(ex *Exec, fn *ssa.Function) (*State, []*Term) {
	st := ex.newRoot()
	args := ex.symArgs(fn)
	for i, p := range fn.Params {
		if assumedNonNil(p.Type()) {
			st.assumeQuiet(mkNot(mkEq(args[i], mkNil(nil))), true)
		}
	}
	return st, args
}

func assumedNonNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return isRepoType(t)
	case *types.Interface:
		if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return false
		}
		return true
	case *types.Signature:
		return true
	}
	return false
}

func (c *Ctx) runObligations() *OblRun {
	r := &OblRun{obl: map[string]*Obl{}, fns: map[*ssa.Function]bool{}, probs: map[string]string{}, loops: map[string][]*LoopRec{}}
	run := func(fn *ssa.Function) {
		ex := c.exec()
		ex.obl = r.obl
		ex.splitMaps = true
		ex.noForms = true
		ex.auto = 24
		ex.cut = func(f *ssa.Function) bool { return c.isEntryCut(f) }
		st, args := c.rootState(ex, fn)
		t0 := time.Now()
		ex.run0(fn, args, st)
		if d := time.Since(t0); debugTiming && d > 200*time.Millisecond {
			fmt.Println("TIME", relName(fn), d, ex.paths, ex.steps)
		}
		r.roots = append(r.roots, fn)
		r.paths += ex.paths
		r.steps += ex.steps
		for f := range ex.fnsSeen {
			r.fns[f] = true
		}
		for k, v := range ex.problems {
			r.probs[relName(fn)+": "+k] = v
		}
		for _, l := range ex.loopRecs {
			k := relName(l.fn) + "#" + itoa(l.header.Index)
			r.loops[k] = append(r.loops[k], l)
		}
	}
	for _, fn := range c.entries() {
		run(fn)
	}
	// what these do not reach, function literals last
	for _, literal := range []bool{false, true} {
		for _, fn := range c.p.funcs {
			if !r.fns[fn] && fn.Synthetic == "" && (literal || !strings.HasPrefix(fn.Name(), "init")) && (fn.Parent() != nil) == literal {
				run(fn)
			}
		}
	}
	return r
}

// isEntryCut: calls of exported functions are not entered (they are analysed on their
// own, without assumptions about their caller).
func (c *Ctx) isEntryCut(f *ssa.Function) bool { return false }

func (r *OblRun) sorted() []*Obl {
	var ks []string
	for k := range r.obl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Obl
	for _, k := range ks {
		out = append(out, r.obl[k])
	}
	return out
}
