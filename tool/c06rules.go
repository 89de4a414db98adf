package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkTermination: every call of the library comes to an end.
func checkTermination(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "every loop has a measure that every iteration decreases and that is bounded below: the input left in the scanner (lexicographic with whether its end was reached), a counter with a bound that does not change, the length of a text or slice, the entries of a map, or (phase, rule) of the transaction; every call cycle either goes into parts that were set when their object was created or is entered only while a flag of the transaction is not set; nothing waits on a channel, a lock that is not released or a timer"
	s := c.spec(r)
	rd := s.scanning()
	if rd == nil {
		return
	}
	rd.learn()
	var rest []loopAt
	for _, f := range c.p.funcs {
		if !inRepo(f) {
			continue
		}
		li := findLoops(f)
		if len(li.headers) == 0 {
			continue
		}
		if li.irred {
			r.violate("undecided "+relName(f), c.pos(f), "the loops of %s are not structured", relName(f))
			continue
		}
		var todo []*natLoop
		for _, l := range li.headers {
			r.count("loops", 1)
			if why, ok := walks(c.p, l); ok {
				r.sample("%s goes over %s", s.ex.loopPos(l), why)
				r.count("loops over maps and texts", 1)
				continue
			}
			todo = append(todo, l)
		}
		if len(todo) == 0 {
			continue
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].header.Index < todo[j].header.Index })
		x, _, scan, _ := rd.run(f)
		for _, l := range todo {
			why, ok := rankLoop(x, f, l, func(k *ranking) bool { return k.grows() || k.reads(rd, scan) })
			if !ok {
				rest = append(rest, loopAt{f, l})
				continue
			}
			r.ok(1)
			r.count("loops ranked", 1)
			r.sample("%s: %s", x.ex.loopPos(l), why)
		}
		x.done()
	}
	ro := c.ruleOrder(s, r)
	if len(rest) > 0 && ro != nil {
		ro.steps()
		rest = ro.phaseLoops(rest)
	}
	for _, l := range rest {
		r.violate(relName(l.f)+" loop", s.ex.loopPos(l.l), "nothing was found that bounds the iterations of this loop of %s", relName(l.f))
	}
	r.require("loops", 30)
	r.require("loops ranked", 25)
	c.recursion(s, r)
	c.blocking(r)
	r.assumption("functions of the standard library and of the dependencies that are called return")
	r.assumption("what a host gives the scanner to read has an end; between reads at its end no more comes than a finite amount")
	r.assumption("parts registered by a host return, and move a transaction forward only, as the built-in ones do")
	r.assumption("no rule is registered for a phase after the last one (AddRules does not), and hosts do not build cyclic variables")
	s.done()
}

// blocking: nothing waits for something else to happen.
func (c *Ctx) blocking(r *Report) {
	for _, f := range c.p.funcs {
		if !inRepo(f) {
			continue
		}
		unlocks := false
		var locks []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				wait := ""
				switch x := in.(type) {
				case *ssa.Send:
					wait = "sends on a channel"
				case *ssa.Select:
					if x.Blocking {
						wait = "waits in a select"
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						wait = "receives from a channel"
					}
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil {
						continue
					}
					switch n := fullName(g); n {
					case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
						wait = "calls " + n
					case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
						locks = append(locks, in)
					case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
						unlocks = true
					}
				}
				r.count("instructions that do not wait", 1)
				if wait != "" {
					r.violate(relName(f)+" waits", c.p.instrPos(in), "%s %s, which may never return", relName(f), wait)
				}
			}
		}
		if len(locks) > 0 && !unlocks {
			r.violate(relName(f)+" locks", c.p.instrPos(locks[0]), "%s locks and does not unlock", relName(f))
		}
	}
	r.ok(1)
}

type loopAt struct {
	f *ssa.Function
	l *natLoop
}

// rankLoop: every execution of the loop has a measure.
func rankLoop(x *Spec, f *ssa.Function, l *natLoop, rank func(*ranking) bool) (string, bool) {
	why := "run completely, as often as it says"
	for _, rec := range x.ex.loopRecs {
		if rec.fn != f || rec.header != l.header {
			continue
		}
		k := &ranking{s: x, rec: rec}
		if !rank(k) {
			return "", false
		}
		why = strings.Join(k.why, ", ")
	}
	return why, true
}

// ruleOrder: where a transaction is in its rules. While rules run the phase does not go back,
// and within a phase the rule that runs and the next one stay in order.
type ruleOrder struct {
	c   *Ctx
	s   *Spec
	r   *Report
	end *Term // of the rules of a phase
	max *Term // end of the phases
	q   *Spec // evaluates getters without hooks
}

func (c *Ctx) ruleOrder(s *Spec, r *Report) *ruleOrder {
	ro := &ruleOrder{c: c, s: s, r: r, end: mkInt(StatusEnd(s)), q: s.quiet()}
	k, ok := s.constant("modsecurity", "PhaseEnd")
	if !ok {
		r.violate("anchor", "modsecurity", "PhaseEnd not found")
		return nil
	}
	ro.max = mkInt(k)
	return ro
}

// place: phase, rule, next rule and the number of rules of the phase.
type place struct{ phase, cur, next, n *Term }

func (ro *ruleOrder) at(st *State, t *Term) place {
	q := ro.q
	pl := place{phase: q.getter(st, t, "CurrentPhase"), cur: q.getter(st, t, "CurrentRule"), next: q.getter(st, t, "NextRule")}
	pl.n = st.norm(mkLen(q.rulesAt(st, t, pl.phase)))
	// no rules, no list of them
	st.assumeQuiet(mkOr([]*Term{nonnilCond(q.get(st, t, q.tt, "RuleSet.Phases")), mkEq(pl.n, mkInt(0))}), true)
	return pl
}

// sound: the next rule is after the current one and not past the end of the list.
func (ro *ruleOrder) sound(p place) []*Term {
	done := mkEq(p.next, ro.end)
	return []*Term{
		mkOr([]*Term{done, less(p.cur, p.next)}),
		mkOr([]*Term{done, lessEq(p.next, p.n)}),
		lessEq(p.phase, ro.max),
	}
}

// onward: from a to b the phase advances, or the current rule is the same.
func (ro *ruleOrder) onward(a, b place) []*Term {
	up, past := less(a.phase, b.phase), lessEq(ro.max, a.phase)
	return []*Term{
		lessEq(a.phase, b.phase),
		mkOr([]*Term{up, past, mkEq(a.cur, b.cur)}),
		mkOr([]*Term{up, past, mkEq(a.n, b.n)}),
	}
}

// rely: code that is called with a transaction keeps the order.
func (ro *ruleOrder) rely(t *Term, do *ssa.Function) func(*State, *Event) func(*State) {
	return func(st *State, e *Event) func(*State) {
		if e.fn != nil && e.fn != do {
			return nil
		}
		with := false
		for _, a := range e.args {
			with = with || a == t
		}
		if !with {
			return nil
		}
		a := ro.at(st, t)
		return func(post *State) {
			b := ro.at(post, t)
			for _, x := range append(ro.sound(b), ro.onward(a, b)...) {
				post.assumeQuiet(x, true)
			}
			if e.fn == do && !post.assumeQuiet(less(a.phase, ro.max), true) {
				post.dead = true
			}
		}
	}
}

func (ro *ruleOrder) start(st *State, t *Term) (place, []func(*State) *Term) {
	a := ro.at(st, t)
	for _, x := range ro.sound(a) {
		st.assumeQuiet(x, true)
	}
	var preds []func(*State) *Term
	for i := 0; i < 3; i++ {
		i := i
		preds = append(preds, func(x *State) *Term { return ro.sound(ro.at(x, t))[i] })
	}
	for i := 0; i < 3; i++ {
		i := i
		preds = append(preds, func(x *State) *Term { return ro.onward(a, ro.at(x, t))[i] })
	}
	return a, preds
}

func (ro *ruleOrder) holds(s *Spec, name string, a place, t *Term, outs []Outcome) {
	what := []string{"the next rule may be one that has run already", "the next rule may be past the end of the phase", "the phase may go past the last one", "the phase may go back", "the current rule may change within the phase", "the rules of the phase may change"}
	for _, o := range outs {
		if !o.st.saturate() {
			continue
		}
		b := ro.at(o.st, t)
		for i, x := range append(ro.sound(b), ro.onward(a, b)...) {
			s.must(o.st, x, name+" order "+what[i], o.pos, "after %s %s", name, what[i])
		}
		ro.r.count("ends of rule code", 1)
	}
}

// steps: a rule and every built-in part keep the order.
func (ro *ruleOrder) steps() {
	do := ro.s.ruleDo()
	if do == nil {
		ro.r.violate("anchor", "modsecurity", "(*SecRule).Do not found")
		return
	}
	x := ro.s.sub()
	st := x.state()
	t := x.tx(st)
	x.ex.rely = ro.rely(t, nil)
	a, preds := ro.start(st, t)
	x.ex.headPreds = preds
	ro.holds(x, "a rule", a, t, x.call(st, do, x.argsWith(st, do, t)...))
	x.done()
	y := ro.s.sub()
	ro.c.eachPart(y, func(key string, exempt bool, run func(st *State, t *Term) []Outcome) {
		st := y.state()
		t := y.tx(st)
		y.ex.rely = ro.rely(t, nil)
		a, preds := ro.start(st, t)
		y.ex.headPreds = preds
		ro.holds(y, key, a, t, run(st, t))
	})
	y.done()
	ro.r.require("built-in parts analysed", 40)
}

// phaseLoops: loops that run rules: each iteration comes to a later rule, or a later phase.
func (ro *ruleOrder) phaseLoops(loops []loopAt) []loopAt {
	var rest []loopAt
	for _, l := range loops {
		roots := ro.entries(l.f)
		ok := len(roots) > 0
		for _, root := range roots {
			x := ro.s.sub()
			do := x.cutDo()
			if do == nil {
				return loops
			}
			st := x.state()
			t := x.tx(st)
			x.ex.pairEq = true
			x.ex.rely = ro.rely(t, do)
			_, preds := ro.start(st, t)
			x.ex.headPreds = preds[:3]
			x.call(st, root, x.args(st, root, t)...)
			why, good := rankLoop(x, l.f, l.l, func(k *ranking) bool { return k.grows() || ro.advances(k, t) })
			ok = ok && good
			if good {
				ro.r.sample("%s from %s: %s", x.ex.loopPos(l.l), relName(root), why)
			}
			x.done()
		}
		if ok {
			ro.r.ok(1)
			ro.r.count("loops ranked", 1)
			continue
		}
		rest = append(rest, l)
	}
	return rest
}

// entries: the exported functions through which f is called.
func (ro *ruleOrder) entries(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var up func(g *ssa.Function)
	up = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		if g.Object() != nil && g.Object().Exported() {
			if len(g.Params) > 0 && types.Identical(g.Params[0].Type(), ro.s.tt) {
				out = append(out, g)
			}
			return
		}
		for _, h := range ro.c.p.funcs {
			ro.s.ex.mod.scan(h)
			for _, k := range ro.s.ex.mod.callees[h] {
				if k == g {
					up(h)
				}
			}
		}
	}
	up(f)
	sort.Slice(out, func(i, j int) bool { return relName(out[i]) < relName(out[j]) })
	return out
}

func (ro *ruleOrder) advances(k *ranking, t *Term) bool {
	try := func(m func(place) *Term, endings bool) bool {
		for _, o := range k.rec.backs() {
			hst := k.rec.hst.clone()
			for _, f := range o.facts {
				hst.assumeQuiet(f, true)
			}
			h, b := ro.at(hst, t), ro.at(o.st, t)
			step := mkAnd([]*Term{less(m(h), m(b)), lessEq(m(b), b.n), mkEq(h.n, b.n)})
			if endings {
				step = mkAnd([]*Term{mkNot(mkEq(m(h), ro.end)), mkOr([]*Term{mkEq(m(b), ro.end), step})})
			}
			for _, x := range split(o.st, less(h.phase, b.phase)) {
				good := lessEq(b.phase, ro.max)
				if !isTrue(x, less(h.phase, b.phase)) {
					good = mkAnd([]*Term{mkEq(h.phase, b.phase), step})
				}
				if !x.saturate() || isTrue(x, good) {
					continue
				}
				return false
			}
		}
		return true
	}
	for _, m := range []func(place) *Term{func(p place) *Term { return p.cur }, func(p place) *Term { return p.next }} {
		if try(m, false) || try(m, true) {
			k.why = append(k.why, "every iteration comes to a later rule or phase")
			return true
		}
	}
	return false
}

// argsWith: arbitrary arguments, but for the transaction.
func (s *Spec) argsWith(st *State, f *ssa.Function, t *Term) []*Term {
	as := s.args(st, f, nil)
	for i, p := range f.Params {
		if types.Identical(p.Type(), s.tt) {
			as[i] = t
		}
	}
	if f.Signature.Recv() != nil && len(as) > 0 && !types.Identical(f.Params[0].Type(), s.tt) {
		st.assumeQuiet(nonnilCond(as[0]), true)
	}
	return as
}

// recursion: calls that come back to the function that makes them. Either every round goes to
// an object that was put into the present one when that was created, or a flag of the
// transaction keeps the second round from calling anything.
func (c *Ctx) recursion(s *Spec, r *Report) {
	d := &descent{c: c, m: s.ex.mod, once: map[*types.Var]int{}}
	for _, scc := range cycles(c.p.funcs, d.callees) {
		in := map[*ssa.Function]bool{}
		var names []string
		for _, f := range scc {
			in[f] = true
			names = append(names, relName(f))
		}
		r.count("call cycles", 1)
		// without the calls on objects that cannot be there; then either all calls of the cycle
		// stay with the receiver or go into its parts, the latter at least once
		var left [][]*ssa.Function
		for _, l := range cycles(scc, func(f *ssa.Function) []*ssa.Function {
			deep, same, other := d.level(f, in)
			return append(append(deep, same...), other...)
		}) {
			lin := map[*ssa.Function]bool{}
			for _, f := range l {
				lin[f] = true
			}
			level := true
			for _, f := range l {
				_, _, other := d.level(f, lin)
				level = level && len(other) == 0
			}
			if !level {
				left = append(left, l)
				continue
			}
			left = append(left, cycles(l, func(f *ssa.Function) []*ssa.Function {
				_, same, _ := d.level(f, lin)
				return same
			})...)
		}
		for _, l := range left {
			if how, ok := c.guarded(s, r, l); ok {
				r.ok(1)
				r.sample("%s: %s", strings.Join(names, ", "), how)
				continue
			}
			var ns []string
			for _, f := range l {
				ns = append(ns, relName(f))
			}
			r.violate(ns[0]+" recursion", c.pos(l[0]), "nothing was found that bounds the recursion of %s", strings.Join(ns, ", "))
		}
		if len(left) == 0 {
			r.ok(1)
			r.sample("%s: every round goes into a part of the object", strings.Join(names, ", "))
		}
	}
}

// descent: calls that go into the parts of an object.
type descent struct {
	c    *Ctx
	m    *Mods
	once map[*types.Var]int // 1 set at creation only, 2 not
}

func (d *descent) callees(f *ssa.Function) []*ssa.Function {
	d.m.scan(f)
	return d.m.callees[f]
}

// level: the functions of the cycle that f may call, on a part of its receiver, on the receiver
// itself and on anything else.
func (d *descent) level(f *ssa.Function, in map[*ssa.Function]bool) (deep, same, other []*ssa.Function) {
	rank := map[*ssa.Function]int{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			var recv ssa.Value
			var to []*ssa.Function
			switch g := cc.StaticCallee(); {
			case g != nil:
				to = []*ssa.Function{g}
				if g.Signature.Recv() != nil && len(cc.Args) > 0 {
					recv = cc.Args[0]
				}
			case cc.IsInvoke():
				recv = cc.Value
				to = d.m.targetsAt(cc)
			default:
				to = d.c.p.dynTargets(cc)
			}
			kind := 3
			var held map[string]bool
			if recv != nil {
				kind, held = d.part(f, recv)
			}
			for _, g := range to {
				if !in[g] {
					continue
				}
				if held != nil && g.Signature.Recv() != nil && !held[typeStr(g.Signature.Recv().Type())] && g.Synthetic == "" {
					continue // no such object is there
				}
				rank[g] = max(rank[g], kind)
			}
			for _, a := range cc.Args {
				if _, isFn := a.Type().Underlying().(*types.Signature); isFn {
					for _, g := range d.callees(f) {
						if in[g] && g != cc.StaticCallee() && sameSig(g, a) {
							rank[g] = 3
						}
					}
				}
			}
		}
	}
	var all []*ssa.Function
	for g := range rank {
		all = append(all, g)
	}
	sort.Slice(all, func(i, j int) bool { return relName(all[i]) < relName(all[j]) })
	for _, g := range all {
		switch rank[g] {
		case 1:
			deep = append(deep, g)
		case 2:
			same = append(same, g)
		default:
			other = append(other, g)
		}
	}
	return
}

func sameSig(g *ssa.Function, v ssa.Value) bool {
	sig, ok := v.Type().Underlying().(*types.Signature)
	return ok && stripNames(g.Signature) == stripNames(sig)
}

// part: 1 if v was read from fields of the receiver of f that are set when their object is
// created, 2 if it is the receiver, 3 otherwise; held: the types of the objects there, if they
// are known.
func (d *descent) part(f *ssa.Function, v ssa.Value) (int, map[string]bool) {
	if f.Signature.Recv() == nil && f.Synthetic == "" || len(f.Params) == 0 {
		return 3, nil
	}
	reads, fine := 0, true
	var held map[string]bool
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			return x == f.Params[0]
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			if _, ok := x.X.(*ssa.Alloc); ok {
				return walk(x.X)
			}
			reads++
			return walk(x.X)
		case *ssa.Alloc: // a variable of the function
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.Store:
					if y.Addr == x && !walk(y.Val) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		case *ssa.FieldAddr:
			fv := fieldVar(x.X.Type(), x.Field)
			if held == nil {
				held = d.types(fv)
			}
			fine = fine && d.setOnce(fv)
			return walk(x.X)
		case *ssa.Field:
			reads++
			fv := fieldVar(x.X.Type(), x.Field)
			if held == nil {
				held = d.types(fv)
			}
			fine = fine && d.setOnce(fv)
			return walk(x.X)
		case *ssa.IndexAddr:
			return walk(x.X)
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.ChangeInterface:
			return walk(x.X)
		case *ssa.TypeAssert:
			return walk(x.X)
		case *ssa.MakeInterface:
			return walk(x.X)
		case *ssa.Extract:
			return walk(x.Tuple)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	ok := walk(v)
	switch {
	case !ok:
		return 3, nil
	case !fine:
		return 3, held
	case reads > 0:
		return 1, held
	}
	return 2, held
}

func fieldVar(t types.Type, i int) *types.Var {
	st := derefStruct(t)
	if st == nil {
		st, _ = t.Underlying().(*types.Struct)
	}
	if st == nil || i >= st.NumFields() {
		return nil
	}
	return st.Field(i)
}

// stores: every store to the field, and whether its address is used in any other way.
func (d *descent) stores(fv *types.Var) (out []*ssa.Store, other bool) {
	for _, g := range d.c.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field) != fv {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch y := u.(type) {
					case *ssa.Store:
						if y.Addr == fa {
							out = append(out, y)
						} else {
							other = true
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
					default:
						other = true
					}
				}
			}
		}
	}
	return
}

// setOnce: the field is set in the function that creates its object, to something else.
func (d *descent) setOnce(fv *types.Var) bool {
	if fv == nil {
		return false
	}
	if d.once[fv] == 0 {
		d.once[fv] = 1
		st, other := d.stores(fv)
		if other {
			d.once[fv] = 2
		}
		for _, x := range st {
			base, ok := ssaRoot(x.Addr).(*ssa.Alloc)
			if !ok || x.Parent() != base.Parent() || ssaRoot(x.Val) == base {
				d.once[fv] = 2
			}
			if mi, ok := x.Val.(*ssa.MakeInterface); ok && ssaRoot(mi.X) == base {
				d.once[fv] = 2
			}
		}
		if _, ok := fv.Type().Underlying().(*types.Slice); ok && d.elementsChange(fv) {
			d.once[fv] = 2
		}
	}
	return d.once[fv] == 1
}

// elementsChange: elements of slices like that of the field are replaced somewhere.
func (d *descent) elementsChange(fv *types.Var) bool {
	et := fv.Type().Underlying().(*types.Slice).Elem()
	for _, g := range d.c.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if types.Identical(st.Val.Type(), et) {
					switch ssaRoot(ia.X).(type) {
					case *ssa.Alloc, *ssa.MakeSlice:
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

// types: the dynamic types of what the field may hold, nil if they are not known.
func (d *descent) types(fv *types.Var) map[string]bool {
	if fv == nil || exportedName(fv.Name()) {
		return nil
	}
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	ok := true
	var of func(v ssa.Value, depth int)
	of = func(v ssa.Value, depth int) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		if depth > 12 {
			ok = false
			return
		}
		results := func(fns []*ssa.Function, n int) {
			if len(fns) == 0 {
				ok = false
			}
			for _, g := range fns {
				if !inRepo(g) {
					ok = false
				}
				for _, b := range g.Blocks {
					if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && n < len(ret.Results) {
						of(ret.Results[n], depth+1)
					}
				}
			}
		}
		targets := func(cc *ssa.CallCommon) []*ssa.Function {
			if g := cc.StaticCallee(); g != nil {
				return []*ssa.Function{g}
			}
			if cc.IsInvoke() {
				return d.m.targetsAt(cc)
			}
			return d.c.p.dynTargets(cc)
		}
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.MakeInterface:
			out[typeStr(x.X.Type())] = true
		case *ssa.ChangeInterface:
			of(x.X, depth)
		case *ssa.Phi:
			for _, e := range x.Edges {
				of(e, depth)
			}
		case *ssa.Slice:
			of(x.X, depth)
		case *ssa.Alloc:
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.Store:
					of(y.Val, depth)
				case *ssa.IndexAddr:
					for _, z := range *y.Referrers() {
						if st, is := z.(*ssa.Store); is && st.Addr == y {
							of(st.Val, depth)
						}
					}
				case *ssa.UnOp, *ssa.Slice, *ssa.DebugRef:
				default:
					ok = false
				}
			}
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.Alloc:
				of(a, depth)
			case *ssa.FieldAddr:
				if fieldVar(a.X.Type(), a.Field) != fv {
					ok = false
				}
			default:
				ok = false
			}
		case *ssa.Extract:
			if call, is := x.Tuple.(*ssa.Call); is {
				results(targets(call.Common()), x.Index)
			} else {
				ok = false
			}
		case *ssa.Call:
			if bi, is := x.Common().Value.(*ssa.Builtin); is {
				if bi.Name() != "append" {
					ok = false
					return
				}
				for _, a := range x.Common().Args {
					of(a, depth)
				}
				return
			}
			results(targets(x.Common()), 0)
		default:
			if _, isIface := v.Type().Underlying().(*types.Interface); isIface {
				ok = false
			} else if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
				out[typeStr(v.Type())] = true
			} else {
				ok = false
			}
		}
	}
	sts, other := d.stores(fv)
	for _, st := range sts {
		of(st.Val, 0)
	}
	if !ok || other {
		return nil
	}
	return out
}

// guarded: a function of the cycle makes its calls only while a flag of the transaction is not
// set, with the flag set, and the flag stays set until they are done.
func (c *Ctx) guarded(s *Spec, r *Report, scc []*ssa.Function) (string, bool) {
	fs := derefStruct(s.tt)
	for _, h := range scc {
		var rest []*ssa.Function
		in := map[*ssa.Function]bool{}
		takes := false
		for _, f := range scc {
			if f != h {
				rest = append(rest, f)
			}
			in[f] = true
		}
		for _, p := range h.Params {
			takes = takes || types.Identical(p.Type(), s.tt)
		}
		d := &descent{c: c, m: s.ex.mod}
		within := func(f *ssa.Function) []*ssa.Function {
			var out []*ssa.Function
			for _, g := range d.callees(f) {
				if in[g] && g != h {
					out = append(out, g)
				}
			}
			return out
		}
		if !takes || len(cycles(rest, within)) > 0 {
			continue
		}
		for i := 0; fs != nil && i < fs.NumFields(); i++ {
			fv := fs.Field(i)
			if b, ok := fv.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool || exportedName(fv.Name()) {
				continue
			}
			if c.guards(s, r, h, fv, in) {
				return "only one round, as " + fv.Name() + " is set", true
			}
		}
	}
	return "", false
}

func (c *Ctx) guards(s *Spec, r *Report, h *ssa.Function, fv *types.Var, in map[*ssa.Function]bool) bool {
	flag := func(x *Spec, st *State, t *Term) *Term { return x.get(st, t, s.tt, fv.Name()) }
	back := func(e *Event) bool {
		if e.kind != EvCall {
			return false
		}
		if e.fn != nil {
			return in[e.fn]
		}
		if e.method == nil {
			return true
		}
		for _, g := range s.ex.mod.invokeTargets(e.method) {
			for _, k := range s.ex.mod.reach(g) {
				if in[k] {
					return true
				}
			}
		}
		return false
	}
	keeps := func(x *Spec, t *Term) func(*State, *Event) func(*State) {
		return func(st *State, e *Event) func(*State) {
			if e.fn != nil || !isTrue(st, flag(x, st, t)) {
				return nil
			}
			return func(post *State) { post.assumeQuiet(flag(x, post, t), true) }
		}
	}
	run := func(f *ssa.Function, set bool) (*Spec, *Term, []Outcome) {
		x := s.sub()
		st := x.state()
		t := x.tx(st)
		if set {
			st.assumeQuiet(flag(x, st, t), true)
			x.ex.headPreds = []func(*State) *Term{func(q *State) *Term { return flag(x, q, t) }}
		}
		x.ex.rely = keeps(x, t)
		x.ex.headPreds = []func(*State) *Term{func(q *State) *Term { return flag(x, q, t) }}
		x.ex.snap = back
		return x, t, x.call(st, f, x.argsWith(st, f, t)...)
	}
	// set: no call that comes back; not set: the flag is set at every one
	_, _, outs := run(h, true)
	for _, o := range outs {
		for _, e := range allEvents(o.st) {
			if back(e) {
				return false
			}
		}
	}
	x, t, outs := run(h, false)
	for _, o := range outs {
		for _, e := range allEvents(o.st) {
			if !back(e) {
				continue
			}
			if at := x.ex.snaps[e]; at == nil || !isTrue(at, flag(x, at, t)) {
				return false
			}
			r.count("calls under a flag", 1)
		}
	}
	// whatever is called meanwhile keeps it set
	good := true
	y := s.sub()
	c.eachPart(y, func(key string, exempt bool, run func(st *State, t *Term) []Outcome) {
		if !good || !strings.HasSuffix(key, ".Do") {
			return
		}
		st := y.state()
		t := y.tx(st)
		st.assumeQuiet(flag(y, st, t), true)
		y.ex.rely = keeps(y, t)
		y.ex.headPreds = []func(*State) *Term{func(q *State) *Term { return flag(y, q, t) }}
		for _, o := range run(st, t) {
			if !o.st.saturate() {
				continue
			}
			good = good && isTrue(o.st, flag(y, o.st, t))
			r.count("parts that keep the flag", 1)
		}
	})
	return good
}

// cycles: the strongly connected components with a call among themselves.
func cycles(fns []*ssa.Function, next func(*ssa.Function) []*ssa.Function) [][]*ssa.Function {
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		index[f] = len(index) + 1
		low[f] = index[f]
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range next(f) {
			self = self || g == f
			if index[g] == 0 {
				walk(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] != index[f] {
			return
		}
		var scc []*ssa.Function
		for {
			g := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[g] = false
			scc = append(scc, g)
			if g == f {
				break
			}
		}
		if len(scc) > 1 || self {
			sort.Slice(scc, func(i, j int) bool { return relName(scc[i]) < relName(scc[j]) })
			out = append(out, scc)
		}
	}
	for _, f := range fns {
		if index[f] == 0 {
			walk(f)
		}
	}
	return out
}
