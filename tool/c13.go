package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = checkPhases
}

// getter: the value of a public method without arguments in a state.
func (s *Spec) getter(st *State, t *Term, name string) *Term {
	m := s.method(s.tt, name)
	if m == nil {
		return mkSym("?"+name, tInt)
	}
	outs := s.call(st, m, t)
	if len(outs) != 1 || len(outs[0].rets) != 1 {
		s.r.violate("undecided "+name, s.c.pos(m), "%s does not have exactly one outcome", name)
		return mkSym("?"+name, tInt)
	}
	return outs[0].st.norm(outs[0].ret())
}

type phaseMethod struct {
	m      *ssa.Function
	phase  int64
	name   string
	fields []string // by parameter
}

func (s *Spec) phaseMethods() []phaseMethod {
	tab := []struct {
		m, k string
		f    []string
	}{
		{"ProcessConnection", "PhaseConnection", []string{"SrcIp", "SrcPort", "DstIp", "DstPort"}},
		{"ProcessRequestURL", "", []string{"URL", "Method", "Request.Proto"}},
		{"ProcessRequestHeader", "PhaseRequestHeaders", []string{"Request.Header"}},
		{"ProcessRequestBody", "PhaseRequestBody", nil},
		{"ProcessResponseHeaders", "PhaseResponseHeaders", []string{"Response.Code", "Response.Proto", "Response.Header"}},
		{"ProcessResponseBody", "PhaseResponseBody", nil},
		{"ProcessLogging", "PhaseLogging", nil},
	}
	var out []phaseMethod
	for _, e := range tab {
		m := s.method(s.tt, e.m)
		if m == nil {
			continue
		}
		p := int64(-1)
		if e.k != "" {
			k, ok := s.constant("modsecurity", e.k)
			if !ok {
				continue
			}
			p = k
		}
		if len(m.Params) != 1+len(e.f) {
			s.r.violate("anchor", s.c.pos(m), "%s has %d parameters", e.m, len(m.Params))
			continue
		}
		out = append(out, phaseMethod{m, p, e.m, e.f})
	}
	return out
}

// phaseRules: the rules registered for a phase.
func (s *Spec) phaseRules(st *State, t *Term, phase int64) *Term {
	return s.rulesAt(st, t, mkInt(phase))
}

func (s *Spec) rulesAt(st *State, t, phase *Term) *Term {
	m := s.get(st, t, s.tt, "RuleSet.Phases")
	if m.isNil() {
		return mkNil(nil)
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	if !ok {
		return mkSym("?rules", nil)
	}
	if v, has, known := st.mapView(m, phase); known {
		if has {
			return v
		}
		return mkNil(mt.Elem())
	}
	return st.norm(s.ex.lookupTerm(st, m, phase, mt.Elem()))
}

// ghost: an integer cell that only the analysis writes.
func ghostCell(name string) *Term {
	obj := types.NewTypeName(0, nil, "ghost_"+name, nil)
	st := types.NewStruct([]*types.Var{types.NewField(0, nil, "v", tInt, false)}, nil)
	n := types.NewNamed(obj, st, nil)
	return mkFieldAddr(mkSym("ghost_"+name, types.NewPointer(n)), 0, types.NewPointer(tInt))
}

// runAny: the state in which a phase could run: nothing but the position in the phases
// may keep it from running.
func (s *Spec) runAny(st *State, t *Term) []*State {
	var out []*State
	m := s.method(s.tt, "ResetIntervention")
	for _, o := range s.call(st, m, t) {
		x := o.st
		s.set(x, t, s.tt, "Abort", mkBool(false))
		s.set(x, t, s.tt, "Engine.Enabled", mkBool(!s.runMode.notEnabled))
		s.set(x, t, s.tt, "Engine.DetectionOnly", mkBool(s.runMode.detection))
		out = append(out, x)
	}
	return out
}

// runsWhen: the conditions, in terms of st, under which method pm evaluates a rule and
// under which it evaluates none, if nothing but the position prevents it and the phase
// has rules. The conjunctions are returned.
func (s *Spec) runsWhen(st *State, t *Term, pm phaseMethod) (some, none [][]*Term) {
	q := s.quiet()
	do := q.ruleDo()
	base := len(st.forder)
	q.ex.hook = func(fn *ssa.Function, x *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if fn != do {
			return nil, false
		}
		some = append(some, append([]*Term{}, x.forder[base:]...))
		return nil, true
	}
	for _, x := range q.runAny(st, t) {
		rules := q.phaseRules(x, t, pm.phase)
		var args []*Term
		for i, p := range pm.m.Params {
			if i == 0 {
				args = append(args, t)
			} else {
				args = append(args, zeroValue(p.Type()))
			}
		}
		if !x.assumeQuiet(nonnilCond(q.get(x, t, q.tt, "RuleSet.Phases")), true) || !x.assumeQuiet(mkLE(toLin(mkInt(1)).add(toLin(mkLen(rules)), -1)), true) {
			continue // there is no rule
		}
		for _, o := range q.call(x, pm.m, args...) {
			none = append(none, append([]*Term{}, o.st.forder[base:]...))
		}
	}
	for k, v := range q.ex.problems {
		s.ex.problems[k] = v
	}
	return
}

// position: the classes of cells that decide whether a phase runs, those aside that the
// host or another property controls.
func (s *Spec) position(pms []phaseMethod) map[string]bool {
	out := map[string]bool{}
	for _, pm := range pms {
		if pm.phase < 0 {
			continue
		}
		q := s.quiet()
		st := q.state()
		log := loadLog{}
		st.logLoad = log
		t := q.tx(st)
		q.runsWhen(st, t, pm)
		for cls, as := range log {
			for a := range as {
				if a.op != OpFieldAddr {
					continue
				}
				{
					n := fieldName(a.args[0].typ, int(a.n))
					if exportedName(n) || strings.HasSuffix(typeStr(elemTypeOfAddr(a)), "modsecurity.Intervention") {
						continue
					}
				}
				out[cls] = true
			}
		}
	}
	return out
}

// quiet: a separate executor whose steps are not counted.
func (s *Spec) quiet() *Spec {
	n := s.sub()
	r := *s.r
	r.counts = map[string]int{}
	n.r = &r
	return n
}

// blocked: method pm cannot evaluate a rule any more, whatever the host resets; ready: it
// will, if nothing stops rule evaluation. Both as conjunctions of clauses.
func (s *Spec) blocked(st *State, t *Term, pm phaseMethod) []*Term {
	some, _ := s.runsWhen(st, t, pm)
	return negAll(some)
}

func (s *Spec) ready(st *State, t *Term, pm phaseMethod) []*Term {
	_, none := s.runsWhen(st, t, pm)
	return negAll(none)
}

func negAll(cs [][]*Term) []*Term {
	d := simplifyDNF(cs)
	if d.op == OpOr {
		var out []*Term
		for _, x := range d.args {
			out = append(out, mkNot(x))
		}
		return out
	}
	return []*Term{mkNot(d)}
}

func allTrue(st *State, cs []*Term) (bool, *Term) {
	for _, c := range cs {
		if !isTrue(st, c) {
			return false, c
		}
	}
	return true, nil
}

func assumeAll(st *State, cs []*Term) bool {
	for _, c := range cs {
		if !st.assumeQuiet(c, true) {
			return false
		}
	}
	return st.saturate()
}

func checkPhases(c *Ctx, r *Report) {
	r.method = methodAI + " The index of the next rule is tracked with a ghost variable (set to 0 when the call starts and to NextRule() after every rule) in inductively checked loop invariants."
	r.rule = "each Process call stores its arguments in the transaction before the first rule and leaves them there; rule i runs only as element NextRule() (initially 0) of exactly the rules of its own phase, with NextRule() then i+1 or the end; the call ends only at the end, in another phase, with a disruptive verdict or an abort; a phase that has run, or an earlier one, or one jumped over, cannot run again after any library call; a phase not reached yet stays ready; AddRules appends each rule with a valid phase to exactly that phase"
	s := c.spec(r)
	if s.tt == nil {
		return
	}
	pms := s.phaseMethods()
	r.count("Process methods", len(pms))
	r.require("Process methods", 7)
	known := map[string]bool{}
	for _, pm := range pms {
		known[pm.name] = true
		c.phaseData(s, r, pm)
		if pm.phase >= 0 {
			c.phaseOrder(s, r, pm)
		}
	}
	for _, m := range s.processMethods() {
		if !known[m.Name()] && m.Name() != "ProcessPhase" {
			r.violate("unknown "+m.Name(), c.pos(m), "no rule for %s", m.Name())
		}
	}
	r.require("rule starts", 6)
	r.require("phase ends", 12)
	c.phaseOnce(s, r, pms)
	c.addRules(s, r)
	s.done()
	r.assumption("hosts and rules of the host do not write the position or the rule set directly; JumpToPhase is only used to go forward")
}

// phaseData: the arguments are stored before rules run.
func (c *Ctx) phaseData(s0 *Spec, r *Report, pm phaseMethod) {
	s := s0.sub()
	do := s.cutDo()
	s.ex.nomod = func(e *Event) bool { return e.fn == do }
	st := s.state()
	t := s.tx(st)
	as := s.ex.symArgs(pm.m)
	as[0] = t
	other := []string{"SrcIp", "SrcPort", "DstIp", "DstPort", "URL", "Method", "Request.Proto", "Request.Header", "Response.Code", "Response.Proto", "Response.Header"}
	old := map[string]*Term{}
	for _, f := range other {
		old[f] = s.get(st, t, s.tt, f)
	}
	check := func(x *State, when, pos string) {
		for i, f := range pm.fields {
			a := as[i+1]
			got := s.get(x, t, s.tt, f)
			key := pm.name + " " + f
			if _, isMap := a.typ.Underlying().(*types.Map); isMap {
				for _, y := range split(x, mkEq(a, mkNil(nil))) {
					if isTrue(y, mkEq(a, mkNil(nil))) {
						g := y.norm(got)
						mc := y.maps[g]
						s.expect(freshRoot(g) && mc != nil && mc.exact && len(mc.entries) == 0, y, key+" nil", pos, "%s: without headers %s is %s %s, not an empty header", pm.name, f, g, when)
					} else {
						s.expect(eq(y, got, a), y, key, pos, "%s: %s is %s %s, not the value given", pm.name, f, got, when)
					}
				}
			} else {
				s.expect(eq(x, got, a), x, key, pos, "%s: %s is %s %s, not the value given", pm.name, f, got, when)
			}
			r.count("fields recorded", 1)
		}
		for _, f := range other {
			mine := false
			for _, g := range pm.fields {
				mine = mine || f == g
			}
			if !mine {
				s.expect(eq(x, s.get(x, t, s.tt, f), old[f]), x, pm.name+" changes "+f, pos, "%s changes %s", pm.name, f)
			}
		}
	}
	seen := map[*Event]bool{}
	for _, o := range s.call(st, pm.m, as...) {
		check(o.st, "at the end", o.pos)
		for _, e := range allEvents(o.st) {
			if seen[e] {
				continue
			}
			seen[e] = true
			if e.fn != do {
				if ruleEvent(e) {
					r.violate("rule outside Do", c.p.instrPos(e.instr), "%s evaluates a rule without (*SecRule).Do", pm.name)
				}
				continue
			}
			if pm.phase < 0 {
				r.violate("rules in "+pm.name, c.p.instrPos(e.instr), "%s runs rules", pm.name)
				continue
			}
			if at := s.ex.snaps[e]; at != nil {
				check(at, "when a rule runs", c.p.instrPos(e.instr))
			}
		}
	}
	s.done()
}

// phaseOrder: which rules run, in which order, and when the phase ends.
func (c *Ctx) phaseOrder(s0 *Spec, r *Report, pm phaseMethod) {
	s := s0.sub()
	do := s.cutDo()
	if do == nil {
		return
	}
	g := ghostCell("next")
	st := s.state()
	t := s.tx(st)
	st.store(g, mkInt(0), tInt)
	q := s.quiet() // getters are evaluated without the hooks
	end := int64(StatusEnd(s))
	follows := func(x *State, ix *Term) *Term {
		rules := q.phaseRules(x, t, pm.phase)
		nx := q.getter(x, t, "NextRule")
		last := mkLE(toLin(mkLen(rules)).add(toLin(ix), -1).add(lin{k: -1}, 1)) // ix+1 >= n
		return mkOr([]*Term{mkAnd([]*Term{last, mkEq(nx, mkInt(end))}), mkAnd([]*Term{mkNot(last), mkEq(nx, mkAdd(ix, mkInt(1)))})})
	}
	s.ex.pairEq = true
	// while the phase is the current one, the position is the expected one
	inPhase := func(x *State, alts ...*Term) *Term {
		return mkOr(append(alts, mkNot(mkEq(q.getter(x, t, "CurrentPhase"), mkInt(pm.phase)))))
	}
	valid := func(x *State, ix *Term) []*Term {
		n := mkLen(q.phaseRules(x, t, pm.phase))
		e := mkEq(ix, mkInt(end))
		return []*Term{
			inPhase(x, e, mkLE(toLin(ix).scale(-1))),
			inPhase(x, e, mkLE(toLin(ix).add(toLin(n), -1).add(lin{k: 1}, 1))),
		}
	}
	next := func(x *State) *Term { return x.load(g, tInt) }
	none := func(x *State) *Term { return mkLE(toLin(mkLen(q.phaseRules(x, t, pm.phase)))) }
	s.ex.headPreds = []func(*State) *Term{
		func(x *State) *Term { return valid(x, next(x))[0] },
		func(x *State) *Term { return mkOr([]*Term{valid(x, next(x))[1], none(x)}) },
		func(x *State) *Term { return inPhase(x, mkEq(q.getter(x, t, "CurrentRule"), next(x))) },
		func(x *State) *Term { return inPhase(x, mkEq(q.getter(x, t, "NextRule"), next(x))) },
		func(x *State) *Term {
			nx := q.getter(x, t, "NextRule")
			return inPhase(x, mkEq(nx, next(x)), mkAnd([]*Term{none(x), mkEq(nx, mkInt(end))}))
		},
		func(x *State) *Term {
			return inPhase(x, mkEq(next(x), mkInt(end)), follows(x, next(x)))
		},
	}
	s.ex.rely = func(x *State, e *Event) func(*State) {
		if e.fn != do {
			return nil
		}
		return func(post *State) {
			nx := q.getter(post, t, "NextRule")
			post.store(g, nx, tInt)
			for _, v := range valid(post, nx) {
				post.assumeQuiet(v, true)
			}
		}
	}
	seen := map[*Event]bool{}
	for _, o := range s.call(st, pm.m, s.args(st, pm.m, t)...) {
		any := false
		for _, e := range allEvents(o.st) {
			if e.fn != do {
				continue
			}
			any = true
			if seen[e] {
				continue
			}
			seen[e] = true
			r.count("rule starts", 1)
			at := s.ex.snaps[e]
			pos := c.p.instrPos(e.instr)
			if at == nil {
				r.violate("undecided snap", pos, "no state at the call of (*SecRule).Do")
				continue
			}
			rule := at.norm(at.canon(e.args[0]))
			rules := q.phaseRules(at, t, pm.phase)
			key := pm.name + " rule"
			if !s.expect(rule.op == OpLoad && rule.args[0].op == OpIndexAddr && at.norm(rule.args[0].args[0]) == rules, at, key+" phase", pos, "%s runs the rule %s, which is not one of the rules of phase %d (%s)", pm.name, rule, pm.phase, rules) {
				continue
			}
			ix := rule.args[0].args[1]
			s.must(at, mkEq(ix, at.load(g, tInt)), key+" index", pos, "%s runs rule %s although the next one is not known to be that one", pm.name, ix)
			s.must(at, mkEq(q.getter(at, t, "CurrentRule"), ix), key+" CurrentRule", pos, "%s runs rule %s while CurrentRule is %s", pm.name, ix, q.getter(at, t, "CurrentRule"))
			s.must(at, mkEq(q.getter(at, t, "CurrentPhase"), mkInt(pm.phase)), key+" CurrentPhase", pos, "%s runs a rule in phase %s", pm.name, q.getter(at, t, "CurrentPhase"))
			s.expect(len(e.args) == 2 && e.args[1] == t, at, key+" transaction", pos, "%s runs a rule on another transaction", pm.name)
			nx := q.getter(at, t, "NextRule")
			last := mkLE(toLin(mkLen(rules)).add(toLin(ix), -1).add(lin{k: -1}, 1))
			for _, y := range split(at, last) {
				s.must(y, follows(y, ix), key+" NextRule", pos, "%s: during rule %s the next rule is %s", pm.name, ix, nx)
			}
		}
		if !any {
			continue
		}
		// the end of the phase
		r.count("phase ends", 1)
		e := o.st.load(g, tInt)
		rules := q.phaseRules(o.st, t, pm.phase)
		cond := []*Term{
			mkEq(e, mkInt(end)),
			mkLE(toLin(mkLen(rules)).add(toLin(e), -1)), // e >= len
			mkNot(mkEq(q.getter(o.st, t, "CurrentPhase"), mkInt(pm.phase))),
			s.get(o.st, t, s.tt, "Abort"),
		}
		if d := q.disruptive(o.st, t, true); d != nil {
			cond = append(cond, d)
		}
		s.must(o.st, mkOr(cond), pm.name+" end", o.pos, "%s may end before the last rule of the phase although no verdict, abort or jump ends it", pm.name)
	}
	s.done()
}

// StatusEnd: the value of NextRule after the last rule.
func StatusEnd(s *Spec) int64 {
	k, _ := s.constant("modsecurity", "StatusEndOfRules")
	return k
}

// phaseOnce: phases run at most once, in order, and are ready until then.
func (c *Ctx) phaseOnce(s *Spec, r *Report, pms []phaseMethod) {
	do := s.ruleDo()
	if do == nil {
		return
	}
	var run []phaseMethod
	for _, pm := range pms {
		if pm.phase >= 0 {
			run = append(run, pm)
		}
	}
	// a new transaction is ready for every phase
	ctor := s.fn("modsecurity", "NewTransaction")
	if ctor != nil {
		st := s.state()
		for _, o := range s.call(st, ctor, s.args(st, ctor, nil)...) {
			if isTrue(o.st, mkEq(o.rets[0], mkNil(nil))) {
				continue
			}
			for _, pm := range run {
				ok, why := allTrue(o.st, s.ready(o.st, o.rets[0], pm))
				s.expect(ok, o.st, "new transaction ready for "+pm.name, o.pos, "the first %s of a new transaction may run no rules: %s", pm.name, why)
				r.count("readiness of new transactions", 1)
			}
		}
		r.require("readiness of new transactions", 6)
	}
	// a phase that ran blocks itself and every earlier one; later ones stay ready
	for _, pm := range run {
		s2 := s.sub()
		s2.cutDo()
		st := s2.state()
		t := s2.tx(st)
		for _, o := range s2.call(st, pm.m, s2.args(st, pm.m, t)...) {
			any := false
			for _, e := range allEvents(o.st) {
				any = any || e.fn == do
			}
			if !any {
				continue
			}
			for _, q := range run {
				if q.phase > pm.phase {
					continue
				}
				ok, why := allTrue(o.st, s.blocked(o.st, t, q))
				s.expect(ok, o.st, pm.name+" blocks "+q.name, o.pos, "after %s has run its rules %s may run rules: %s", pm.name, q.name, why)
				r.count("phases blocked", 1)
			}
		}
		s2.done()
	}
	r.require("phases blocked", 21)
	// jumping
	if m := s.method(s.tt, "JumpToPhase"); m != nil {
		for _, q := range run {
			st := s.state()
			t := s.tx(st)
			to := mkSym("phase", tInt)
			st.assumeQuiet(mkLE(toLin(mkInt(q.phase+1)).add(toLin(to), -1)), true)
			for _, o := range s.call(st, m, t, to) {
				ok, why := allTrue(o.st, s.blocked(o.st, t, q))
				s.expect(ok, o.st, "jump over "+q.name, o.pos, "after a jump past it %s may run rules: %s", q.name, why)
				r.count("jumps", 1)
			}
		}
	}
	// blocked and ready are kept by everything else
	cells := s.position(run)
	r.count("position cells", len(cells))
	r.require("position cells", 1)
	keeps := func(key string, pres []string, pre func(st *State, t *Term, q phaseMethod) bool, runIt func(s2 *Spec, st *State, t *Term) []Outcome) {
		// a path that writes none of the cells keeps everything
		s2 := s.sub()
		st := s2.state()
		t := s2.tx(st)
		moved := false
		for _, o := range runIt(s2, st, t) {
			m := ""
			for cls := range cells {
				if o.st.gens[cls] != st.gens[cls] {
					m = cls
				}
			}
			for _, e := range allEvents(o.st) {
				if e.kind == EvStore && cells[classOf(e.addr)] {
					m = classOf(e.addr)
				}
			}
			if m == "" {
				r.count("paths that write no position cell", 1)
			} else {
				moved = true
			}
		}
		s2.done()
		if !moved {
			return
		}
		r.sample("%s moves the position", key)
		for _, q := range run {
			for _, what := range pres {
				s2 := s.sub()
				st := s2.state()
				t := s2.tx(st)
				if pre != nil && !pre(st, t, q) {
					continue
				}
				pred := s.blocked
				if what == "ready" {
					pred = s.ready
				}
				if !assumeAll(st, pred(st, t, q)) {
					continue
				}
				s2.ex.rely = func(x *State, e *Event) func(*State) {
					if e.fn != do && !ruleEvent(e) {
						return nil
					}
					if ok, _ := allTrue(x, pred(x, t, q)); !ok {
						return nil
					}
					return func(post *State) { assumeAll(post, pred(post, t, q)) }
				}
				s2.ex.headPreds = []func(*State) *Term{func(x *State) *Term { return mkAnd(pred(x, t, q)) }}
				for _, o := range runIt(s2, st, t) {
					ok, why := allTrue(o.st, pred(o.st, t, q))
					s2.expect(ok, o.st, key+" keeps "+q.name+" "+what, o.pos, "%s", map[string]string{
						"blocked": fmt.Sprintf("after %s, %s may run rules again although its phase was over: %s", key, q.name, why),
						"ready":   fmt.Sprintf("after %s, %s may run no rules although its phase was still to come: %s", key, q.name, why)}[what])
					r.count("paths that keep the position", 1)
				}
				s2.done()
			}
		}
	}
	both := []string{"blocked", "ready"}
	for _, m := range c.methodsOf(s.tt) {
		if !exportedName(m.Name()) {
			continue
		}
		m := m
		call := func(s2 *Spec, st *State, t *Term) []Outcome {
			if strings.HasPrefix(m.Name(), "Process") {
				s2.cutDo()
			}
			return s2.call(st, m, s2.args(st, m, t)...)
		}
		switch {
		case m.Name() == "JumpToPhase":
			// forward only, not past the phase
			keeps("Transaction."+m.Name(), []string{"blocked"}, nil, func(s2 *Spec, st *State, t *Term) []Outcome {
				to := mkSym("phase", tInt)
				st.assumeQuiet(mkLE(toLin(s.getter(st, t, "CurrentPhase")).add(toLin(to), -1)), true)
				return s2.call(st, m, t, to)
			})
		case m.Name() == "NextPhase":
			keeps("Transaction."+m.Name(), []string{"blocked"}, nil, call)
		case strings.HasPrefix(m.Name(), "Process"):
			keeps("Transaction."+m.Name(), []string{"blocked"}, nil, call)
			keeps("Transaction."+m.Name(), []string{"ready"}, func(st *State, t *Term, q phaseMethod) bool {
				for _, pm := range run {
					if pm.m == m {
						return pm.phase < q.phase
					}
				}
				return m.Name() != "ProcessPhase"
			}, call)
		default:
			keeps("Transaction."+m.Name(), both, nil, call)
		}
	}
	c.eachPart(s, func(key string, _ bool, runIt func(st *State, t *Term) []Outcome) {
		what := both
		if key == "ActionAllow.Do" {
			what = []string{"blocked"} // C26 says where it leads
		}
		if !strings.HasSuffix(key, ".Do") {
			// variables, transformations and operators only read
		}
		keeps(key, what, nil, func(s2 *Spec, st *State, t *Term) []Outcome {
			old := s.ex
			s.ex = s2.ex
			defer func() { s.ex = old }()
			return runIt(st, t)
		})
	})
	// what a rule may have done to the position (assumed where the order is checked)
	for _, name := range []string{"Next", "JumpTo", "JumpToPhase", "NextPhase"} {
		m := s.method(s.tt, name)
		if m == nil {
			continue
		}
		for _, q := range run {
			s2 := s.sub()
			st := s2.state()
			t := s2.tx(st)
			end := StatusEnd(s2)
			valid := func(x *State) *Term {
				nx := s2.getter(x, t, "NextRule")
				n := mkLen(s2.phaseRules(x, t, q.phase))
				in := mkAnd([]*Term{mkLE(toLin(nx).scale(-1)), mkLE(toLin(nx).add(toLin(n), -1).add(lin{k: 1}, 1))})
				return mkOr([]*Term{mkEq(nx, mkInt(end)), in, mkAnd([]*Term{mkEq(nx, mkInt(0)), mkEq(n, mkInt(0))}), mkNot(mkEq(s2.getter(x, t, "CurrentPhase"), mkInt(q.phase)))})
			}
			if strings.HasPrefix(name, "Next") && !st.assumeQuiet(valid(st), true) {
				continue
			}
			for _, o := range s2.call(st, m, s2.args(st, m, t)...) {
				s2.must(o.st, valid(o.st), name+" position", o.pos, "after %s in phase %d, NextRule is %s", name, q.phase, s2.getter(o.st, t, "NextRule"))
				r.count("paths that move the position", 1)
			}
			s2.done()
		}
	}
	r.require("paths that move the position", 6)
	r.require("paths that keep the position", 100)
	r.require("paths that write no position cell", 100)
}

// addRules: every rule of a valid phase is appended to the rules of that phase.
func (c *Ctx) addRules(s *Spec, r *Report) {
	rt := c.p.typ("modsecurity", "SecRuleSet")
	if rt == nil {
		r.violate("anchor", "modsecurity", "type SecRuleSet not found")
		return
	}
	rp := types.NewPointer(rt)
	m := s.method(rp, "AddRules")
	first, ok1 := s.constant("modsecurity", "PhaseConnection")
	last, ok2 := s.constant("modsecurity", "PhaseLogging")
	if m == nil || !ok1 || !ok2 {
		return
	}
	st := s.state()
	rs := mkSym("rs", rp)
	st.assumeQuiet(nonnilCond(rs), true)
	rules := mkSym("rules", m.Params[1].Type())
	for _, o := range s.call(st, m, rs, rules) {
		r.count("paths of AddRules", 1)
		pm := s.get(o.st, rs, rp, "Phases")
		var loops []*LoopRec
		for _, e := range o.st.ev.list() {
			if e.kind == EvLoop {
				loops = append(loops, e.loop)
			}
			if e.kind == EvMapSet {
				r.violate("AddRules map", c.p.instrPos(e.instr), "AddRules changes the rules of a phase outside the traversal of the new rules")
			}
		}
		if len(loops) == 0 && isTrue(o.st, mkEq(mkLen(rules), mkInt(0))) {
			continue
		}
		if len(loops) != 1 || loops[0].kind != "slice" || loops[0].rev || loops[0].container != rules {
			r.violate("AddRules undecided", c.pos(m), "AddRules is not one traversal of the new rules in order")
			continue
		}
		rec := loops[0]
		et := rec.elemType()
		elem := rec.hst.load(mkIndexAddr(rec.container, rec.idx, ptrTo(et)), et)
		for _, it := range rec.outs {
			if it.kind == "panic" {
				continue
			}
			if it.kind != "back" {
				s.expect(it.normal, it.st, "AddRules early end", rec.pos, "AddRules may leave out the rest of the rules")
				continue
			}
			ph := s.get(it.st, elem, et, "Phase")
			valid := mkAnd([]*Term{mkLE(toLin(mkInt(first)).add(toLin(ph), -1)), mkLE(toLin(ph).add(toLin(mkInt(last)), -1))})
			var sets []*Event
			for _, e := range flatten(it.events) {
				switch e.kind {
				case EvMapSet:
					sets = append(sets, e)
				case EvMapDel, EvLoop:
					r.violate("AddRules undecided", rec.pos, "AddRules does more than append each rule")
				}
			}
			r.count("iterations of AddRules", 1)
			if !feasible(it.st, valid) {
				s.expect(len(sets) == 0, it.st, "AddRules invalid phase", rec.pos, "AddRules registers a rule with an invalid phase")
				continue
			}
			if len(sets) == 0 {
				s.must(it.st, mkNot(valid), "AddRules drops", rec.pos, "AddRules may leave out a rule with a valid phase")
				continue
			}
			s.must(it.st, valid, "AddRules invalid phase", rec.pos, "AddRules registers a rule with an invalid phase")
			e := sets[0]
			s.expect(len(sets) == 1, it.st, "AddRules once", rec.pos, "AddRules registers a rule several times")
			s.expect(eq(it.st, e.addr, pm), it.st, "AddRules map", c.p.instrPos(e.instr), "AddRules registers a rule in %s", e.addr)
			s.expect(eq(it.st, e.key, ph), it.st, "AddRules phase", c.p.instrPos(e.instr), "AddRules registers a rule under phase %s", e.key)
			v := it.st.canon(e.val)
			good := v.op == OpSeq && len(v.args) == 2 && v.args[0].op == OpSpread && v.args[1].op == OpSingle && v.args[1].args[0] == elem
			if good {
				old := v.args[0].args[0]
				good = old.op == OpLookup && eq(it.st, old.args[0], pm) && eq(it.st, old.args[1], ph)
			}
			s.expect(good, it.st, "AddRules append", c.p.instrPos(e.instr), "AddRules stores %s instead of the rules of the phase followed by the new one", v)
		}
	}
	r.require("iterations of AddRules", 2)
}
