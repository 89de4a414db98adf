package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Object invariants of the library's own struct types, inferred (Houdini): a candidate
// "field F of type S is never nil" or "integer field F of S is at least k" is kept if
// every store to the field outside a still private object respects it, and every object
// that is published (returned, stored, passed to code that is not entered) respects it.

func (c *Ctx) candidates() *Invs {
	inv := &Invs{nonnil: map[string]bool{}, lower: map[string]int64{}, elemBad: map[string]bool{}, cond: map[string][]condInv{}}
	for _, sp := range c.p.all {
		for _, mem := range sp.Members {
			tn, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				for j := 0; j < st.NumFields(); j++ {
					fb, fr := st.Field(i), st.Field(j)
					if b, ok := fb.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool || exportedName(fb.Name()) || exportedName(fr.Name()) {
						continue
					}
					if _, ok := fr.Type().Underlying().(*types.Pointer); ok {
						sk := structKey(types.NewPointer(tn.Type())) + "."
						inv.cond[sk+fr.Name()] = append(inv.cond[sk+fr.Name()], condInv{sk + fb.Name(), sk + fr.Name(), i, j, fb.Type(), fr.Type()})
					}
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				k := structKey(types.NewPointer(tn.Type())) + "." + f.Name()
				switch u := f.Type().Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
					inv.nonnil[k] = true
				case *types.Basic:
					if u.Info()&types.IsInteger != 0 && u.Info()&types.IsUnsigned == 0 && !exportedName(f.Name()) {
						inv.lower[k] = 1
					}
				}
			}
		}
	}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ms, ok := in.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				if k, ok := ms.Len.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
					continue
				}
				filled := false
				for _, r := range *ms.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
								filled = true
							}
						}
					}
				}
				if !filled {
					inv.elemBad[typeStr(ms.Type().Underlying().(*types.Slice).Elem())] = true
				}
			}
		}
	}
	return inv
}

// relevant: functions that may store to, or allocate, an object with a candidate field.
func (c *Ctx) relevant(inv *Invs) map[*ssa.Function]bool {
	base := map[*ssa.Function]bool{}
	structs := map[string]bool{}
	for k := range inv.nonnil {
		structs[k[:strings.LastIndex(k, ".")]] = true
	}
	for k := range inv.lower {
		structs[k[:strings.LastIndex(k, ".")]] = true
	}
	hasStruct := func(t types.Type) bool {
		for cl := range rootClasses(t) {
			if i := strings.LastIndex(cl, "."); i > 0 && structs[cl[:i]] {
				return true
			}
		}
		return false
	}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if x.Heap && hasStruct(x.Type()) {
						base[fn] = true
					}
				case *ssa.Store:
					for _, cl := range addrClasses(x.Addr, x.Val.Type()) {
						if i := strings.LastIndex(cl, "."); i > 0 && structs[cl[:i]] {
							base[fn] = true
						}
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, fn := range c.p.funcs {
		for _, g := range c.mod.reach(fn) {
			if base[g] {
				out[fn] = true
				break
			}
		}
	}
	return out
}

// inferInvariants runs the inference and leaves the result in c.inv.
func (c *Ctx) inferInvariants() (rounds int) {
	inv := c.candidates()
	c.inv = inv
	c.sums = newSums(func() *Exec { return c.exec() })
	rel := c.relevant(inv)
	for round := 1; round <= 8; round++ {
		dropped := map[string]bool{}
		low := map[string]int64{}
		dropCond := map[condInv]bool{}
		check := func(st *State, key string, v *Term, where string) {
			if inv.nonnil[key] && !dropped[key] && !st.nonnil(v) {
				if vv, k := st.eval(mkEq(v, mkNil(nil))); !k || vv {
					dropped[key] = true
					if debugLoops {
						println("INVDROP", key, where)
					}
				}
			}
			if lo, ok := inv.lower[key]; ok {
				if l, ok := low[key]; ok {
					lo = l
				}
				for ; lo >= -1; lo-- {
					if st.entails(toLin(v).scale(-1).add(lin{k: lo}, 1)) {
						break
					}
				}
				low[key] = lo
			}
		}
		for _, fn := range c.p.funcs {
			if fn.Synthetic != "" || !rel[fn] || fn.Parent() == nil && strings.HasPrefix(fn.Name(), "init") {
				continue
			}
			if fn.Parent() == nil && !c.isRoot(fn) || fn.Parent() != nil && !c.runsLater(fn) {
				continue
			}
			ex := c.exec()
			ex.splitMaps = true
			ex.auto = 24
			ex.noForms = true
			ex.cut = func(f *ssa.Function) bool { return !rel[f] }
			ex.onStore = func(st *State, a, v *Term, in ssa.Instruction) {
				if a.op == OpFieldAddr && !st.privateAlloc(addrRoot(a)) && !c.initObj(addrRoot(a)) {
					check(st, ex.fieldKey(a), v, ex.p.instrPos(in))
				}
			}
			ex.onEscape = func(st *State, root *Term) {
				if root.typ == nil {
					return
				}
				c.checkObj(ex, st, root, func(key string, v *Term) { check(st, key, v, "object of "+relName(fn)) })
			}
			st, args := c.rootState(ex, fn)
			for _, o := range ex.run0(fn, args, st) {
				if o.panic {
					continue
				}
				for _, r := range o.rets {
					o.st.markEscaped(r)
				}
				c.checkCond(ex, o.st, inv, dropCond)
			}
		}
		changed := false
		for k := range dropped {
			delete(inv.nonnil, k)
			changed = true
		}
		if len(dropCond) > 0 {
			changed = true
			for k, l := range inv.cond {
				var keep []condInv
				for _, ci := range l {
					if !dropCond[ci] {
						keep = append(keep, ci)
					}
				}
				inv.cond[k] = keep
			}
		}
		for k, lo := range low {
			if lo < -1 {
				delete(inv.lower, k)
				changed = true
			} else if lo != inv.lower[k] {
				inv.lower[k] = lo
				changed = true
			}
		}
		c.sums = newSums(func() *Exec { return c.exec() })
		rounds = round
		if !changed {
			return
		}
	}
	// no fixpoint: keep nothing
	c.inv = &Invs{nonnil: map[string]bool{}, lower: map[string]int64{}, elemBad: inv.elemBad}
	return
}

// checkCond: the conditional invariants of the objects that were changed.
func (c *Ctx) checkCond(ex *Exec, st *State, inv *Invs, drop map[condInv]bool) {
	for a := range st.heap {
		if a.op != OpFieldAddr || a.args[0].typ == nil {
			continue
		}
		k := ex.fieldKey(a)
		for _, l := range inv.cond {
			for _, ci := range l {
				if drop[ci] || ci.flag != k && ci.ref != k {
					continue
				}
				base := a.args[0]
				fl := st.load(mkFieldAddr(base, ci.fi, types.NewPointer(ci.ftyp)), ci.ftyp)
				rf := st.load(mkFieldAddr(base, ci.ri, types.NewPointer(ci.rtyp)), ci.rtyp)
				s2 := st.clone()
				if !s2.assumeQuiet(fl, true) {
					continue
				}
				if !s2.nonnil(rf) {
					drop[ci] = true
					if debugLoops {
						println("CONDDROP", ci.flag, ci.ref)
					}
				}
			}
		}
	}
}

// checkObj visits the candidate fields of a fresh object.
func (c *Ctx) checkObj(ex *Exec, st *State, root *Term, f func(string, *Term)) {
	p, ok := root.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	var rec func(a *Term, t types.Type)
	rec = func(a *Term, t types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || opaqueStruct(t) {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			fa := mkFieldAddr(a, i, types.NewPointer(ft))
			if _, ok := ft.Underlying().(*types.Struct); ok && !opaqueStruct(ft) {
				rec(fa, ft)
				continue
			}
			f(ex.fieldKey(fa), st.load(fa, ft))
		}
	}
	rec(root, p.Elem())
}

// initObj: an object made while the library initialises (registered prototypes); these
// are known concretely.
func (c *Ctx) initObj(root *Term) bool {
	if c.initObjs == nil || c.initOf != c.base {
		c.initObjs, c.initOf = map[*Term]bool{}, c.base
		add := func(t *Term) {
			if t != nil {
				contains(t, func(x *Term) bool {
					if freshRoot(x) {
						c.initObjs[x] = true
					}
					return false
				})
			}
		}
		for m, mc := range c.base.maps {
			c.initObjs[m] = true
			for _, e := range mc.entries {
				add(e.k)
				add(e.v)
			}
		}
		for a, v := range c.base.heap {
			c.initObjs[addrRoot(a)] = true
			add(v)
		}
	}
	return c.initObjs[root]
}

func (c *Ctx) isRoot(fn *ssa.Function) bool {
	if c.rootSet == nil {
		c.rootSet = map[*ssa.Function]bool{}
		for _, f := range c.entries() {
			c.rootSet[f] = true
		}
	}
	return c.rootSet[fn]
}

func (inv *Invs) list() []string {
	var out []string
	for k := range inv.nonnil {
		out = append(out, shortFn(k)+" != nil")
	}
	for _, l := range inv.cond {
		for _, ci := range l {
			out = append(out, shortFn(ci.flag)+" => "+shortFn(ci.ref)+" != nil")
		}
	}
	for k, v := range inv.lower {
		out = append(out, shortFn(k)+" >= "+itoa(int(v)))
	}
	sort.Strings(out)
	return out
}
