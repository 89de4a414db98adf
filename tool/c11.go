package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { checks["C11"] = checkMatch }

// nest: a call made for every element of nested containers: the containers from the
// outermost to the innermost, each in terms of the elements ($0, $1, …) of the outer
// ones, and the value in terms of them.
type nest struct {
	levels []*Term
	value  *Term
}

func (n nest) String() string {
	var out []string
	for i, l := range n.levels {
		out = append(out, fmt.Sprintf("for $%d of %s", i, clip(l.String(), 150)))
	}
	return strings.Join(append(out, clip(n.value.String(), 150)), ", ")
}

func (n nest) equal(m nest) bool {
	if len(n.levels) != len(m.levels) || plain(n.value) != plain(m.value) {
		return false
	}
	for i := range n.levels {
		if plain(n.levels[i]) != plain(m.levels[i]) {
			return false
		}
	}
	return true
}

// parts: the nests that n stands for, when its outermost list consists of several parts.
func (n nest) parts() []nest {
	if len(n.levels) == 0 || n.levels[0].op != OpSeq {
		return []nest{n}
	}
	ps, why := expand(nil, n.levels[0], 0)
	if why != "" {
		return []nest{n}
	}
	var out []nest
	el := elemSym(0, elemOf(n.levels[0].typ))
	for _, p := range ps {
		if len(n.levels) > 1 && len(p.levels) != 1 {
			return []nest{n} // the numbering of the inner elements would change
		}
		q := nest{append([]*Term{}, p.levels...), subst(n.value, el, p.value)}
		for _, l := range n.levels[1:] {
			q.levels = append(q.levels, subst(l, el, p.value))
		}
		out = append(out, q)
	}
	return out
}

// plain forgets which of several equal calls a term comes from.
func plain(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.op == OpCall && x.n != 0 {
			as := make([]*Term, len(x.args))
			for i, a := range x.args {
				as[i] = plain(a)
			}
			return T.mk(Term{op: OpCall, aux: x.aux, args: as, typ: x.typ})
		}
		return nil
	}, map[*Term]*Term{})
}

func elemSym(i int, t types.Type) *Term { return mkSym(fmt.Sprintf("$%d", i), t) }

// expand replaces containers that were built by loops by the loops' own containers. It
// gives the nests of the elements of c, whose elements are themselves the values.
func expand(st *State, c *Term, depth int) ([]nest, string) {
	if st != nil {
		c = st.norm(c)
	}
	if c.op != OpSeq {
		et := elemOf(c.typ)
		return []nest{{[]*Term{c}, elemSym(depth, et)}}, ""
	}
	var out []nest
	for _, it := range c.args {
		ns, why := expandItem(st, it, depth)
		if why != "" {
			return nil, why
		}
		out = append(out, ns...)
	}
	return out, ""
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return tInt
}

func expandItem(st *State, it *Term, depth int) ([]nest, string) {
	switch it.op {
	case OpSingle:
		return []nest{{nil, it.args[0]}}, ""
	case OpSpread:
		return expand(st, it.args[0], depth)
	case OpFor:
		if it.aux != "slice" {
			return nil, "the elements of " + clip(it.args[0].String(), 100) + " are not taken in their order"
		}
		outer, why := expand(st, it.args[0], depth)
		if why != "" {
			return nil, why
		}
		if len(it.args) != 2 || it.args[1].op != OpAlt || len(it.args[1].args) != 2 {
			return nil, "not every element of " + clip(it.args[0].String(), 100) + " is used in the same way"
		}
		alt := it.args[1]
		if g, ok := alt.args[0].boolVal(); !ok || !g {
			return nil, "an element of " + clip(it.args[0].String(), 100) + " is used only if " + clip(alt.args[0].String(), 150)
		}
		var out []nest
		for _, o := range outer {
			x := substBound(alt.args[1], it.n, o.value)
			inner, why := expandItem(st, x, depth+len(o.levels))
			if why != "" {
				return nil, why
			}
			for _, n := range inner {
				out = append(out, nest{append(append([]*Term{}, o.levels...), n.levels...), n.value})
			}
		}
		return out, ""
	}
	return nil, "unknown elements " + it.String()
}

// substBound replaces the bound element of a level by a term.
func substBound(t *Term, level int64, by *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.op == OpBound && x.aux == "elem" && x.n == level {
			return by
		}
		return nil
	}, map[*Term]*Term{})
}

// elemsOf: replaces the elements of the loop's container in t.
func (rec *LoopRec) elemsBy(t, by *Term) *Term {
	if rec.idx == nil {
		return t
	}
	return rewrite(t, func(x *Term) *Term {
		if x.op == OpLoad && x.args[0].op == OpIndexAddr && x.args[0].args[0] == rec.container && x.args[0].args[1] == rec.idx {
			return by
		}
		if x.op == OpIndex && x.args[0] == rec.container && x.args[1] == rec.idx {
			return by
		}
		return nil
	}, map[*Term]*Term{})
}

// search is what a path does with the calls of a kind: the calls that were made for all
// elements of nested containers and let the search go on, and the call that stopped it.
type search struct {
	nests  []nest
	partly []nest // calls in iterations of a loop that was left early
	stop   *Event
	stopAt nest
	broken *LoopRec
	after  *Event // a call after the one that should have stopped it
}

type searcher struct {
	s    *Spec
	is   func(e *Event) bool
	val  func(e *Event) *Term
	goOn func(st *State, e *Event) *Term // the search goes on after the call; nil: always
	// values that are themselves containers are expanded
	spread bool
	// ended: the search need not go on
	ended func(st *State) bool
}

type ctxLevel struct {
	rec *LoopRec
	n   nest // of the container of rec
}

func (sr *searcher) has(es []*Event) bool {
	for _, e := range flatten(es) {
		if sr.is(e) {
			return true
		}
	}
	return false
}

// in expresses a value inside the loops of ctx.
func (sr *searcher) in(st *State, ctx []ctxLevel, v *Term) (nest, string) {
	var out nest
	for i := range ctx {
		out.levels = append(out.levels, ctx[i].n.levels...)
	}
	v = st.norm(v)
	for i := len(ctx) - 1; i >= 0; i-- {
		v = ctx[i].rec.elemsBy(v, ctx[i].n.value)
	}
	out.value = v
	return out, ""
}

func (sr *searcher) enter(st *State, ctx []ctxLevel, rec *LoopRec) (ctxLevel, string) {
	if rec.kind != "slice" || rec.rev || rec.container == nil || rec.idx == nil {
		return ctxLevel{}, "the loop at " + rec.pos + " does not traverse a list from its first element to its last"
	}
	depth := 0
	c := st.norm(rec.container)
	for i := len(ctx) - 1; i >= 0; i-- {
		depth += len(ctx[i].n.levels)
		c = ctx[i].rec.elemsBy(c, ctx[i].n.value)
	}
	ns, why := expand(nil, c, depth)
	if why != "" {
		return ctxLevel{}, why
	}
	if len(ns) != 1 {
		return ctxLevel{}, "the loop at " + rec.pos + " traverses a list of several parts"
	}
	return ctxLevel{rec, ns[0]}, ""
}

// run reconstructs what the path with the given events does.
func (sr *searcher) run(st *State, es []*Event, ctx []ctxLevel) (search, string) {
	var out search
	left := 0 // loops left early
	add := func(n nest) {
		if left > 0 {
			out.partly = append(out.partly, n)
		} else {
			out.nests = append(out.nests, n)
		}
	}
	for _, e := range es {
		if sr.is(e) {
			if out.stop != nil {
				out.after = e
			}
			n, why := sr.in(st, ctx, sr.val(e))
			if why != "" {
				return out, why
			}
			ns := []nest{n}
			if sr.spread {
				depth := len(n.levels)
				xs, why := expand(nil, n.value, depth)
				if why != "" {
					return out, why
				}
				ns = nil
				for _, x := range xs {
					ns = append(ns, nest{append(append([]*Term{}, n.levels...), x.levels...), x.value})
				}
			}
			if sr.goOn != nil {
				cond := sr.goOn(st, e)
				v, ok := st.eval(cond)
				if !ok && isTrue(st, cond) {
					v, ok = true, true
				}
				if !ok && isTrue(st, mkNot(cond)) {
					v, ok = false, true
				}
				if !ok {
					return out, "the result of " + clip(e.callee, 60) + " at " + sr.s.c.p.instrPos(e.instr) + " is not looked at"
				}
				if !v {
					out.stop, out.stopAt = e, n
					continue
				}
			}
			for _, n := range ns {
				add(n)
			}
			continue
		}
		if e.kind != EvLoop || e.loop == nil {
			continue
		}
		rec := e.loop
		in := false
		for _, o := range rec.outs {
			in = in || sr.has(o.events)
		}
		if !in {
			continue
		}
		if out.stop != nil {
			out.after = e
		}
		lv, why := sr.enter(st, ctx, rec)
		multi := why != "" && strings.HasSuffix(why, "of several parts")
		if multi {
			// the same for every part
			ns, why2 := expand(nil, st.norm(rec.container), 0)
			if why2 != "" || len(ctx) > 0 {
				return out, why
			}
			broken := sr.leftEarly(st, rec)
			var lvs []ctxLevel
			for _, p := range ns {
				lvs = append(lvs, ctxLevel{rec, p})
			}
			for _, l := range lvs {
				body, why := sr.body(rec, []ctxLevel{l})
				if why != "" {
					return out, why
				}
				for _, n := range body {
					if broken {
						out.partly = append(out.partly, n)
					} else {
						add(n)
					}
				}
			}
			if broken {
				out.broken = rec
				left++
				// what follows is inside an iteration for one of the elements
				ctx = append(append([]ctxLevel{}, ctx...), ctxLevel{rec, nest{[]*Term{st.norm(rec.container)}, elemSym(0, rec.elemType())}})
			}
			continue
		}
		if why != "" {
			return out, why
		}
		ctx2 := append(append([]ctxLevel{}, ctx...), lv)
		body, why := sr.body(rec, ctx2)
		if why != "" {
			return out, why
		}
		if sr.leftEarly(st, rec) {
			out.broken = rec
			left++
			ctx = ctx2
			out.partly = append(out.partly, body...)
			continue
		}
		for _, n := range body {
			add(n)
		}
	}
	return out, ""
}

func (sr *searcher) leftEarly(st *State, rec *LoopRec) bool {
	for x := st.ends; x != nil; x = x.prev {
		if x.rec == rec {
			return !x.out.normal
		}
	}
	return true
}

// body: what a complete iteration does.
func (sr *searcher) body(rec *LoopRec, ctx []ctxLevel) ([]nest, string) {
	var res, ended []nest
	first := true
	for _, o := range rec.outs {
		if o.kind != "back" {
			if o.normal && sr.has(o.events) {
				return nil, "a call at the end of the loop at " + rec.pos
			}
			continue
		}
		x, why := sr.run(o.st, o.events, ctx)
		if why != "" {
			return nil, why
		}
		if x.stop == nil && sr.ended != nil && sr.ended(o.st) {
			if first {
				ended = append(ended, append(x.nests, x.partly...)...)
			}
			continue
		}
		if x.stop != nil {
			return nil, "the loop at " + rec.pos + " goes on after " + clip(x.stop.callee, 60) + " has decided"
		}
		if x.broken != nil {
			return nil, "the loop at " + x.broken.pos + " is left early, the one at " + rec.pos + " goes on"
		}
		if first {
			res, first = x.nests, false
			continue
		}
		if !sameNests(res, x.nests) {
			return nil, "the iterations of the loop at " + rec.pos + " differ" + guardText(rec, o)
		}
	}
	if first && len(ended) > 0 {
		return nil, "the loop at " + rec.pos + " never goes on"
	}
	return res, ""
}

func guardText(rec *LoopRec, o *iterOut) string {
	var gs []string
	for _, g := range rec.guard(o) {
		gs = append(gs, clip(g.String(), 120))
	}
	if len(gs) == 0 {
		return ""
	}
	return " (when " + strings.Join(gs, " && ") + ")"
}

func sameNests(a, b []nest) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].equal(b[i]) {
			return false
		}
	}
	return true
}

// abortRely: an abort is never withdrawn (C14), and operators do not abort.
func (s *Spec) abortRely(t *Term) {
	aborted := func(x *State) *Term { return s.get(x, t, s.tt, "Abort") }
	s.ex.rely = func(x *State, e *Event) func(*State) {
		v, k := x.eval(aborted(x))
		if !k || !v && !isIfaceCall(e, "Operator", "Match") {
			return nil
		}
		return func(post *State) { post.assumeQuiet(aborted(post), v) }
	}
	s.ex.headPreds = append(s.ex.headPreds, aborted)
}

// checkMatch: C11.
func checkMatch(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "on every path of (*SecRule).Match the operator is called for exactly the values given by: every variable of the rule in order, every value it fetches in order, passed through every transformation of the rule in order; it goes on to the next value only if the result equals Not, returns true if it does not (and the transaction is not aborted), and returns false only after all values or if the transaction is aborted"
	s := c.spec(r)
	rt := s.ruleType()
	if s.tt == nil || rt == nil {
		return
	}
	m := s.method(rt, "Match")
	if m == nil {
		return
	}
	s.ex.noForms = false
	st := s.state()
	t := s.tx(st)
	rule := mkSym("rule", rt)
	st.assumeQuiet(nonnilCond(rule), true)
	s.abortRely(t)
	s.ex.snap = func(e *Event) bool { return isIfaceCall(e, "Operator", "Match") }
	vars, trans := s.get(st, rule, rt, "Variables"), s.get(st, rule, rt, "Trans")
	op := s.get(st, rule, rt, "Operator")
	not := s.get(st, rule, rt, "Not")
	wantLevels := func(n nest) string {
		if len(n.levels) == 0 || plain(n.levels[0]) != plain(vars) {
			return "it is not for every variable of the rule"
		}
		if len(n.levels) != 2 || !isCallOf(n.levels[1], "Variable", "Fetch", elemSym(0, elemOf(vars.typ)), t) {
			return "it is not for every value the variable fetches"
		}
		return ""
	}
	wantNest := func(n nest) string {
		if why := wantLevels(n); why != "" {
			return why
		}
		v := n.value
		ve := elemSym(1, stringType())
		if v.op != OpFold || v.aux != "slice" || plain(v.args[0]) != plain(trans) || v.args[1] != ve {
			return "the value is not passed through every transformation of the rule in order"
		}
		el := T.mk(Term{op: OpBound, aux: "elem", n: v.n, typ: elemOf(trans.typ)})
		acc := T.mk(Term{op: OpBound, aux: "acc", n: v.n, typ: v.typ})
		if !isCallOf(v.args[2], "Trans", "Trans", el, t, acc) {
			return "a step is not the transformation of the value so far"
		}
		return ""
	}
	sr := &searcher{s: s,
		is:    func(e *Event) bool { return isIfaceCall(e, "Operator", "Match") },
		val:   func(e *Event) *Term { return e.args[len(e.args)-1] },
		goOn:  func(x *State, e *Event) *Term { return mkEq(e.res, not) },
		ended: func(x *State) bool { return isTrue(x, s.get(x, t, s.tt, "Abort")) },
	}
	for _, o := range s.call(st, m, rule, t) {
		r.count("paths of Match", 1)
		x, why := sr.run(o.st, o.st.ev.list(), nil)
		if !s.expect(why == "", o.st, "values", o.pos, "the values given to the operator are not those of the rule: %s", why) {
			continue
		}
		for _, e := range allEvents(o.st) {
			if sr.is(e) {
				r.count("operator calls", 1)
				s.expect(e.recv == op && len(e.args) >= 2 && (e.args[0] == t || e.args[1] == t), o.st, "operator", c.p.instrPos(e.instr), "the operator called is %s, not that of the rule", clip(fmt.Sprint(e.recv), 100))
			}
		}
		if x.after != nil {
			r.violate("after", c.p.instrPos(x.after.instr), "the operator is called again after a value has matched")
		}
		aborted := s.get(o.st, t, s.tt, "Abort")
		all := append(append([]nest{}, x.nests...), x.partly...)
		if x.stop != nil {
			all = append(all, x.stopAt)
		}
		for _, u := range all {
			r.count("value streams compared", 1)
			why := wantNest(u)
			s.expect(why == "", o.st, "value", o.pos, "the operator is applied to %s: %s", u, why)
		}
		ret := o.ret()
		if x.stop != nil {
			s.must(o.st, ret, "matched", o.pos, "a value satisfies the operator, but the rule does not match")
			if at := s.ex.snaps[x.stop]; at != nil {
				s.must(at, mkNot(s.get(at, t, s.tt, "Abort")), "aborted", o.pos, "the rule matches although the transaction may be aborted")
			} else {
				s.must(o.st, mkNot(aborted), "aborted", o.pos, "the rule matches although the transaction may be aborted")
			}
			r.count("matching paths", 1)
			continue
		}
		s.must(o.st, mkNot(ret), "not matched", o.pos, "the rule matches although no value has been found to satisfy its operator")
		if isTrue(o.st, aborted) {
			r.count("paths ended by an abort", 1)
			continue
		}
		if x.broken != nil {
			r.violate("left early", x.broken.pos, "the rule does not match although the loop over its values is left early%s", " — on the path where "+clip(o.st.factString(), 600))
			continue
		}
		if len(x.nests) == 1 {
			r.count("paths over all values", 1)
			r.ok(1)
			continue
		}
		// no value: the list is known to be empty
		if len(x.nests) == 0 && knownEmpty(o.st, func(l *Term) bool {
			ns, why := expand(nil, l, 0)
			if why != "" || len(ns) != 1 {
				return false
			}
			return len(ns[0].levels) == 1 && plain(ns[0].levels[0]) == plain(vars) || wantLevels(ns[0]) == ""
		}) {
			r.count("paths over no value", 1)
			r.ok(1)
			continue
		}
		r.violate("skipped", o.pos, "the rule does not match although not every value has been given to the operator once (%d times)%s", len(x.nests), " — on the path where "+clip(o.st.factString(), 600))
	}
	r.require("paths of Match", 3)
	r.require("matching paths", 2)
	r.require("paths over all values", 1)
	s.done()
	r.assumption("an abort is never withdrawn and operators do not abort (established by C14); rules are not changed while they are evaluated (C01)")
}

// knownEmpty: a list satisfying f is known to have no elements.
func knownEmpty(st *State, f func(l *Term) bool) bool {
	seen := map[*Term]bool{}
	var lists []*Term
	for _, x := range append([]*Term{}, st.forder...) {
		contains(x, func(y *Term) bool {
			if y.op == OpLen && !seen[y.args[0]] {
				seen[y.args[0]] = true
				lists = append(lists, y.args[0])
			}
			return false
		})
	}
	for _, l := range lists {
		if f(l) && isTrue(st, mkLE(toLin(mkLen(l)))) {
			return true
		}
	}
	return false
}

// isCallOf: t is the result of an interface call of the library.
func isCallOf(t *Term, iface, name string, args ...*Term) bool {
	if t.op != OpCall || t.aux != "(modsecurity."+iface+")."+name || len(t.args) != len(args) {
		return false
	}
	for i := range args {
		if plain(t.args[i]) != plain(args[i]) {
			return false
		}
	}
	return true
}
