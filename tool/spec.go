package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Spec helps to state contracts: functions of the library are executed abstractly on an
// arbitrary state, and the values that the public interface would show before and after
// are compared.
type Spec struct {
	c  *Ctx
	r  *Report
	ex *Exec
	tt types.Type // *modsecurity.Transaction

	nonDisruptive map[string]bool
	// mode of the engine in runAny; zero is On
	runMode struct{ detection, notEnabled bool }
}

func (c *Ctx) spec(r *Report) *Spec {
	s := &Spec{c: c, r: r, ex: c.exec()}
	s.ex.noForms = true
	if t := c.p.typ("modsecurity", "Transaction"); t != nil {
		s.tt = types.NewPointer(t)
	} else {
		r.violate("anchor", "modsecurity", "type Transaction not found")
	}
	return s
}

// fork: another executor with the same settings, without problems.
func (s *Spec) sub() *Spec {
	n := *s
	n.ex = s.c.exec()
	n.ex.noForms = s.ex.noForms
	return &n
}

// done reports undecided parts.
func (s *Spec) done() {
	for _, k := range sortedKeys(s.ex.problems) {
		s.r.violate("undecided "+k, k, "the analysis could not decide: %s", k)
	}
}

func (s *Spec) state() *State { return s.ex.newRoot() }

// fieldIndex resolves a field, promoted ones included.
func fieldIndex(t types.Type, name string) ([]int, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	obj, ix, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, name)
	if v, ok := obj.(*types.Var); ok {
		return ix, v.Type()
	}
	// unexported or in another package: search by hand
	if st := derefStruct(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return []int{i}, st.Field(i).Type()
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Anonymous() {
				if ix, ft := fieldIndex(st.Field(i).Type(), name); ix != nil {
					return append([]int{i}, ix...), ft
				}
			}
		}
	}
	return nil, nil
}

// addr: the address of x.f1.f2... (x a pointer to a struct of type t).
func (s *Spec) addr(st *State, x *Term, t types.Type, path string) (*Term, types.Type) {
	cur, ct := x, t
	parts := strings.Split(path, ".")
	for pi, f := range parts {
		ix, _ := fieldIndex(ct, f)
		if ix == nil {
			s.r.violate("anchor", typeStr(t), "field %s not found", path)
			return nil, nil
		}
		for k, i := range ix {
			fs := derefStruct(ct)
			ft := fs.Field(i).Type()
			a := mkFieldAddr(cur, i, types.NewPointer(ft))
			if pi == len(parts)-1 && k == len(ix)-1 {
				return a, ft
			}
			if _, isStruct := ft.Underlying().(*types.Struct); isStruct {
				cur, ct = a, ft
				continue
			}
			cur, ct = st.load(a, ft), ft
		}
	}
	return nil, nil
}

func (s *Spec) get(st *State, x *Term, t types.Type, path string) *Term {
	a, ft := s.addr(st, x, t, path)
	if a == nil {
		return mkSym("?"+path, nil)
	}
	return st.norm(st.canon(st.load(a, ft)))
}

func (s *Spec) set(st *State, x *Term, t types.Type, path string, v *Term) {
	a, ft := s.addr(st, x, t, path)
	if a != nil {
		st.store(a, v, ft)
	}
}

// method of a type, nil (and a violation) if missing.
func (s *Spec) method(t types.Type, name string) *ssa.Function {
	m := s.c.p.method(t, name)
	if m == nil {
		s.r.violate("anchor", typeStr(t), "method %s not found", name)
	}
	return m
}

func (s *Spec) fn(pkg, name string) *ssa.Function {
	f := s.c.p.fnByName(pkg, name)
	if f == nil {
		s.r.violate("anchor", pkg, "function %s not found", name)
	}
	return f
}

// call executes fn on a copy of st; panicking outcomes are left out (C04 and C05 judge them).
func (s *Spec) call(st *State, fn *ssa.Function, args ...*Term) []Outcome {
	if fn == nil {
		return nil
	}
	s2 := st.clone()
	s2.ex = s.ex
	var out []Outcome
	for _, o := range s.ex.run0(fn, args, s2) {
		if o.panic {
			s.r.count("panicking paths left out", 1)
			continue
		}
		out = append(out, o)
	}
	s.r.count("abstract paths", len(out))
	return out
}

// invoke calls a method on an interface value (or a concrete one).
func (s *Spec) invoke(st *State, recv *Term, static types.Type, name string, args ...*Term) []Outcome {
	recv = st.norm(recv)
	if recv.op == OpIface {
		if m := s.c.p.method(recv.typ, name); m != nil {
			return s.call(st, m, append([]*Term{recv.args[0]}, args...)...)
		}
	}
	if static != nil {
		if m := s.c.p.method(static, name); m != nil {
			return s.call(st, m, append([]*Term{recv}, args...)...)
		}
	}
	s.r.violate("undecided", name, "the receiver of %s is not known: %s", name, recv)
	return nil
}

// build runs a constructor without interesting arguments and returns the single result.
func (s *Spec) build(st *State, fn *ssa.Function, args ...*Term) (*State, *Term) {
	outs := s.call(st, fn, args...)
	if len(outs) != 1 || len(outs[0].rets) == 0 {
		if fn != nil {
			s.r.violate("undecided", relName(fn), "%s does not have exactly one outcome", relName(fn))
		}
		return st, nil
	}
	return outs[0].st, outs[0].rets[0]
}

// split refines a state by a condition both ways; infeasible ones are left out.
func split(st *State, cond *Term) []*State {
	var out []*State
	for _, b := range []bool{true, false} {
		x := st.clone()
		if x.assumeQuiet(cond, b) {
			out = append(out, x)
		}
	}
	return out
}

func assume(st *State, cond *Term) *State {
	x := st.clone()
	if x.assumeQuiet(cond, true) {
		return x
	}
	return nil
}

func isTrue(st *State, cond *Term) bool {
	if v, k := st.eval(cond); k && v {
		return true
	}
	// decide by contradiction
	x := st.clone()
	return !x.assumeQuiet(cond, false) || !x.saturate()
}

// congruence restates the facts on map entries whose key has become known.
func (s *State) congruence() bool {
	if len(s.consts) == 0 {
		return true
	}
	void := func(t *Term) bool { // nothing is there
		if t.typ == nil {
			return false
		}
		if s.norm(t.args[0]).isNil() {
			return true
		}
		v, k := s.eval(T.mk(Term{op: OpHas, args: []*Term{t.args[0], s.norm(t.args[1])}, n: t.n, typ: tBool}))
		return k && !v
	}
	open := func(t *Term) bool {
		return t.op == OpLookup && len(t.args) > 1 && (!t.args[1].isConst() && s.norm(t.args[1]) != t.args[1] || void(t))
	}
	val := map[*Term]bool{}
	for f, v := range s.facts {
		val[f] = v
	}
	for f := range s.leKeys {
		val[f] = true
	}
	var fs []*Term
	for f := range val {
		if contains(f, open) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for _, f := range fs {
		g := rewrite(f, func(t *Term) *Term {
			if !open(t) {
				return nil
			}
			if void(t) {
				return zeroValue(t.typ)
			}
			n := *t
			n.args = append([]*Term{}, t.args...)
			n.args[1] = s.norm(t.args[1])
			return T.mk(n)
		}, map[*Term]*Term{})
		if g != f {
			if v, k := s.eval(g); k && v == val[f] {
				continue
			}
			if !s.assumeQuiet(g, val[f]) {
				return false
			}
		}
	}
	return true
}

// saturate derives the consequences of known disjunctions; false: contradiction.
func (s *State) saturate() bool {
	if !s.congruence() {
		return false
	}
	for again := true; again; {
		again = false
		var ors []*Term
		for f, v := range s.facts {
			if f.op == OpOr && v || f.op == OpAnd && !v {
				ors = append(ors, f)
			}
		}
		sort.Slice(ors, func(i, j int) bool { return ors[i].id < ors[j].id })
	next:
		for _, o := range ors {
			var open *Term
			n := 0
			for _, a := range o.args {
				l := a
				if o.op == OpAnd {
					l = mkNot(a)
				}
				v, k := s.eval(l)
				if k && v {
					continue next
				}
				if !k {
					open = l
					n++
				}
			}
			if n == 0 {
				return false
			}
			if n == 1 {
				if !s.assumeQuiet(open, true) || !s.congruence() {
					return false
				}
				again = true
			}
		}
	}
	return true
}

// eq: a and b are the same value.
func eq(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = st.norm(st.canon(a)), st.norm(st.canon(b))
	if a == b {
		return true
	}
	if isTrue(st, mkEq(a, b)) {
		return true
	}
	if a.typ != nil && isBoolType(a.typ) {
		return isTrue(st, mkOr([]*Term{mkNot(a), b})) && isTrue(st, mkOr([]*Term{a, mkNot(b)}))
	}
	return false
}

// feasible: the condition may hold.
func feasible(st *State, cond *Term) bool {
	x := st.clone()
	return x.assumeQuiet(cond, true) && x.saturate()
}

// must: a condition that has to hold in a state.
func (s *Spec) must(st *State, cond *Term, key, pos, format string, a ...interface{}) bool {
	return s.expect(isTrue(st, cond), st, key, pos, format, a...)
}

func (s *Spec) expect(ok bool, st *State, key, pos, format string, a ...interface{}) bool {
	s.r.count("conditions decided", 1)
	if ok {
		s.r.ok(1)
		return true
	}
	w := ""
	if st != nil {
		w = st.factString()
	}
	if w != "" {
		w = " — on the path where " + clip(w, 600)
	}
	s.r.violate(key, pos, "%s%s", fmt.Sprintf(format, a...), w)
	return false
}

// verdict of a transaction as the host would see it with Intervention().
type verdict struct {
	st  *State
	i   *Term
	it  types.Type
	pos string
}

func (s *Spec) verdicts(st *State, t *Term) []verdict {
	m := s.method(s.tt, "Intervention")
	var out []verdict
	for _, o := range s.call(st, m, t) {
		out = append(out, verdict{o.st, o.ret(), m.Signature.Results().At(0).Type(), o.pos})
	}
	return out
}

// verdictIs: the condition that f holds of the verdict, for all outcomes of Intervention;
// nil if it cannot be expressed.
func (s *Spec) verdictIs(st *State, t *Term, f func(v verdict) *Term) *Term {
	n := len(st.forder)
	var cs []*Term
	for _, v := range s.verdicts(st, t) {
		if len(v.st.forder) < n {
			return nil
		}
		alts := []*Term{f(v)}
		for _, x := range v.st.forder[n:] {
			alts = append(alts, mkNot(x))
		}
		cs = append(cs, mkOr(alts))
	}
	return mkAnd(cs)
}

func (s *Spec) disruptive(st *State, t *Term, b bool) *Term {
	return s.verdictIs(st, t, func(v verdict) *Term {
		if b {
			return s.vget(v, "Disruptive")
		}
		return mkNot(s.vget(v, "Disruptive"))
	})
}

// relyDisruptive: parts of rules keep a disruptive verdict (each is checked on its own).
func (s *Spec) relyDisruptive(t *Term) func(st *State, e *Event) func(*State) {
	return func(st *State, e *Event) func(*State) {
		if !isIfaceCall(e, "Variable", "Fetch") && !isIfaceCall(e, "Operator", "Match") && !isIfaceCall(e, "Trans", "Trans") {
			return nil
		}
		if c := s.disruptive(st, t, true); c == nil || !isTrue(st, c) {
			return nil
		}
		return func(post *State) {
			if c := s.disruptive(post, t, true); c != nil {
				post.assumeQuiet(c, true)
			}
		}
	}
}

func (s *Spec) vget(v verdict, f string) *Term { return s.get(v.st, v.i, v.it, f) }

// events of a path, those of loop bodies included (each loop body once per outcome).
func allEvents(st *State) []*Event {
	var out []*Event
	seen := map[*LoopRec]bool{}
	var add func(es []*Event)
	add = func(es []*Event) {
		for _, e := range es {
			out = append(out, e)
			if e.kind == EvLoop && e.loop != nil && !seen[e.loop] {
				seen[e.loop] = true
				for _, o := range e.loop.outs {
					add(o.events)
				}
			}
		}
	}
	add(st.ev.list())
	return out
}

func isIfaceCall(e *Event, iface, method string) bool {
	if e.kind != EvCall || e.method == nil || e.method.Name() != method {
		return false
	}
	return strings.HasSuffix(e.callee, "modsecurity."+iface+")."+method)
}

// int constants of a package by name.
func (s *Spec) constant(pkg, name string) (int64, bool) {
	for _, p := range s.c.p.ssa.AllPackages() {
		if p.Pkg.Path() == repoMod+"/"+pkg {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if t := mkConst(k.Val(), k.Type()); t != nil {
					if v, ok := t.intVal(); ok {
						return v, true
					}
				}
			}
		}
	}
	s.r.violate("anchor", pkg, "constant %s not found", name)
	return 0, false
}

// constructors: exported functions of a package whose first result is the given interface.
func (s *Spec) constructors(pkg, iface string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range s.c.p.funcs {
		if repoPkgOf(f) != pkg || f.Parent() != nil || f.Signature.Recv() != nil || !exportedName(f.Name()) {
			continue
		}
		if f.Signature.Results().Len() == 0 {
			continue
		}
		if n, ok := f.Signature.Results().At(0).Type().(*types.Named); ok && n.Obj().Name() == iface {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return relName(out[i]) < relName(out[j]) })
	return out
}

func nonnilCond(t *Term) *Term { return mkNot(mkEq(t, mkNil(nil))) }

// tx: an arbitrary transaction in a state, its parts present as its constructor makes them.
func (s *Spec) tx(st *State) *Term {
	t := mkSym("t", s.tt)
	st.assumeQuiet(nonnilCond(t), true)
	fs := derefStruct(s.tt)
	for i := 0; fs != nil && i < fs.NumFields(); i++ {
		ft := fs.Field(i).Type()
		switch ft.Underlying().(type) {
		case *types.Pointer, *types.Map:
			n := fs.Field(i).Name()
			if !exportedName(n) {
				continue
			}
			st.assumeQuiet(nonnilCond(st.load(mkFieldAddr(t, i, types.NewPointer(ft)), ft)), true)
		}
	}
	return t
}

func symOf(name string, t types.Type) *Term { return mkSym(name, t) }

func intType() types.Type    { return types.Typ[types.Int] }
func stringType() types.Type { return types.Typ[types.String] }

// mode conditions on an engine.
func (s *Spec) modes(st *State, t *Term) (on, off, dect *Term) {
	en := s.get(st, t, s.tt, "Engine.Enabled")
	d := s.get(st, t, s.tt, "Engine.DetectionOnly")
	return mkAnd([]*Term{en, mkNot(d)}), mkAnd([]*Term{mkNot(en), mkNot(d)}), d
}

func (c *Ctx) pos(fn *ssa.Function) string {
	if fn != nil && len(fn.Blocks) > 0 && len(fn.Blocks[0].Instrs) > 0 {
		return c.p.instrPos(fn.Blocks[0].Instrs[0])
	}
	return relName(fn)
}

func sortedHeap(st *State) []*Term {
	m := map[*Term]bool{}
	for a := range st.heap {
		m[a] = true
	}
	return sortedTerms(m)
}
