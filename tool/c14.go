package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = checkVerdictKept
	checks["C15"] = checkModes
}

// processMethods: the host-facing calls that run phases.
func (s *Spec) processMethods() []*ssa.Function {
	var out []*ssa.Function
	if s.tt == nil {
		return nil
	}
	for _, m := range s.c.methodsOf(s.tt) {
		if exportedName(m.Name()) && strings.HasPrefix(m.Name(), "Process") {
			out = append(out, m)
		}
	}
	return out
}

// args: symbolic arguments of a method of the transaction t; references to library types
// are not nil.
func (s *Spec) args(st *State, fn *ssa.Function, recv *Term) []*Term {
	as := s.ex.symArgs(fn)
	for i, p := range fn.Params {
		if i == 0 && recv != nil {
			as[0] = recv
			continue
		}
		if assumedNonNil(p.Type()) {
			st.assumeQuiet(nonnilCond(as[i]), true)
		}
	}
	return as
}

// ruleEvent: the event belongs to the evaluation of a rule.
func ruleEvent(e *Event) bool {
	return isIfaceCall(e, "Variable", "Fetch") || isIfaceCall(e, "Operator", "Match") || isIfaceCall(e, "Action", "Do") || isIfaceCall(e, "Trans", "Trans")
}

func (s *Spec) noRules(outs []Outcome, key, why string) {
	for _, o := range outs {
		bad := ""
		for _, e := range allEvents(o.st) {
			if ruleEvent(e) || e.kind == EvCall && e.fn != nil && e.fn == s.ruleDo() {
				bad = e.callee + " at " + s.c.p.instrPos(e.instr)
			}
		}
		s.expect(bad == "", o.st, key, o.pos, "a rule runs (%s) %s", bad, why)
	}
}

func (s *Spec) ruleType() types.Type {
	if t := s.c.p.typ("modsecurity", "SecRule"); t != nil {
		return types.NewPointer(t)
	}
	s.r.violate("anchor", "modsecurity", "type SecRule not found")
	return nil
}

func (s *Spec) ruleDo() *ssa.Function {
	t := s.c.p.typ("modsecurity", "SecRule")
	if t == nil {
		return nil
	}
	return s.c.p.method(types.NewPointer(t), "Do")
}

// cutDo: rules are not entered; every call is a recorded event with the state before it.
func (s *Spec) cutDo() *ssa.Function {
	do := s.ruleDo()
	if do == nil {
		s.r.violate("anchor", "modsecurity", "(*SecRule).Do not found")
		return nil
	}
	s.ex.cut = func(f *ssa.Function) bool { return f == do }
	s.ex.snap = func(e *Event) bool { return e.fn == do }
	return do
}

// builtinActions executes every action constructor, with arbitrary arguments.
func (s *Spec) builtinActions(st *State, f func(k *ssa.Function, st *State, a *Term)) {
	for _, k := range s.constructors("modsecurity/actions", "Action") {
		st2 := st.clone()
		for _, o := range s.call(st2, k, s.args(st2, k, nil)...) {
			f(k, o.st, o.ret())
		}
	}
}

// groupOf: the group of an action, -1 if it is not one constant.
func (s *Spec) groupOf(st *State, a *Term) int64 {
	for _, o := range s.invoke(st, a, nil, "ActionGroup") {
		if v, ok := o.st.norm(o.ret()).intVal(); ok {
			return v
		}
	}
	return -1
}

// unchangedVerdict: code run from a state leaves the verdict (status and disruptive flag)
// as it was.
func (s *Spec) unchangedVerdict(st *State, t *Term, key string, run func(st *State) []Outcome, fields ...string) {
	for _, pre := range s.verdicts(st, t) {
		old := map[string]*Term{}
		for _, f := range fields {
			old[f] = s.vget(pre, f)
		}
		for _, o := range run(pre.st) {
			for _, post := range s.verdicts(o.st, t) {
				for _, f := range fields {
					now := s.vget(post, f)
					s.expect(eq(post.st, now, old[f]), post.st, key+" "+f, o.pos, "%s changes the %s of the verdict from %s to %s", key, f, old[f], now)
				}
			}
		}
	}
}

func checkVerdictKept(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "with a disruptive verdict or an abort no Process call runs a rule, and each rule of a phase starts with a verdict that is not disruptive; no library code except pass, Result and ResetIntervention withdraws a verdict; Result returns a separate copy and resets exactly when there is no abort; an abort is never cleared and an aborted transaction's rules do not match"
	s := c.spec(r)
	if s.tt == nil {
		return
	}
	procs := s.processMethods()
	r.count("Process methods", len(procs))
	r.require("Process methods", 7)
	// 1. a pending verdict or an abort stops every later phase
	for _, m := range procs {
		for _, why := range []string{"verdict", "abort"} {
			st := s.state()
			t := s.tx(st)
			var starts []*State
			if why == "abort" {
				st.assumeQuiet(s.get(st, t, s.tt, "Abort"), true)
				starts = append(starts, st)
			} else {
				for _, v := range s.verdicts(st, t) {
					if x := assume(v.st, s.vget(v, "Disruptive")); x != nil {
						starts = append(starts, x)
					}
				}
			}
			for _, st0 := range starts {
				outs := s.call(st0, m, s.args(st0, m, t)...)
				r.count("paths of Process methods with a pending verdict", len(outs))
				s.noRules(outs, m.Name()+" with pending "+why, "although there is "+map[string]string{"verdict": "a disruptive verdict", "abort": "an abort"}[why])
				if why == "verdict" {
					for _, o := range outs {
						for _, post := range s.verdicts(o.st, t) {
							s.must(post.st, s.vget(post, "Disruptive"), m.Name()+" keeps", o.pos, "%s withdraws a disruptive verdict", m.Name())
						}
					}
				}
			}
		}
	}
	r.require("paths of Process methods with a pending verdict", 14)
	// 2. within a phase: a rule starts only while the verdict is not disruptive
	s2 := s.sub()
	if do := s2.cutDo(); do != nil {
		for _, m := range procs {
			st := s2.state()
			t := s2.tx(st)
			s2.ex.headPreds = []func(*State) *Term{func(x *State) *Term { return s.disruptive(x, t, false) }}
			for _, o := range s2.call(st, m, s2.args(st, m, t)...) {
				for _, e := range allEvents(o.st) {
					if ruleEvent(e) {
						r.violate("rule outside Do", c.p.instrPos(e.instr), "%s evaluates a rule without (*SecRule).Do", m.Name())
					}
					if e.fn != do {
						continue
					}
					r.count("rule starts", 1)
					at := s2.ex.snaps[e]
					if at == nil {
						r.violate("undecided snap", c.p.instrPos(e.instr), "no state at the call of (*SecRule).Do")
						continue
					}
					for _, v := range s2.verdicts(at, t) {
						s2.must(v.st, mkNot(s2.vget(v, "Disruptive")), "rule with pending verdict", c.p.instrPos(e.instr), "%s may run a rule although the verdict is disruptive already", m.Name())
					}
				}
			}
		}
		r.require("rule starts", 7)
	}
	s2.done()
	// 3. nothing but pass, Result and ResetIntervention withdraws the verdict
	keeps := func(key string, run func(st *State, t *Term) []Outcome) {
		st := s.state()
		t := s.tx(st)
		s.ex.rely = s.relyDisruptive(t)
		defer func() { s.ex.rely = nil }()
		for _, pre := range s.verdicts(st, t) {
			x := assume(pre.st, s.vget(pre, "Disruptive"))
			if x == nil {
				continue
			}
			for _, o := range run(x, t) {
				r.count("paths with a verdict to keep", 1)
				for _, post := range s.verdicts(o.st, t) {
					s.must(post.st, s.vget(post, "Disruptive"), "withdrawn by "+key, o.pos, "%s withdraws a disruptive verdict", key)
				}
			}
		}
	}
	c.eachPart(s, func(key string, exempt bool, run func(st *State, t *Term) []Outcome) {
		if !exempt {
			keeps(key, run)
		}
	})
	r.require("paths with a verdict to keep", 60)
	for _, m := range c.methodsOf(s.tt) {
		if !exportedName(m.Name()) || strings.HasPrefix(m.Name(), "Process") || m.Name() == "Result" || m.Name() == "ResetIntervention" {
			continue
		}
		m := m
		keeps("Transaction."+m.Name(), func(st *State, t *Term) []Outcome { return s.call(st, m, s.args(st, m, t)...) })
	}
	// 4. Result
	res := s.method(s.tt, "Result")
	if res != nil {
		st := s.state()
		t := s.tx(st)
		it := res.Signature.Results().At(0).Type()
		for _, pre := range s.verdicts(st, t) {
			old := map[string]*Term{}
			fields := s.exportedFields(it)
			for _, f := range fields {
				old[f] = s.vget(pre, f)
			}
			for _, ps := range split(pre.st, s.get(pre.st, t, s.tt, "Abort")) {
				for _, o := range s.call(ps, res, t) {
					r.count("paths of Result", 1)
					abort := s.get(o.st, t, s.tt, "Abort")
					for _, f := range fields {
						got := s.get(o.st, o.ret(), it, f)
						s.expect(eq(o.st, got, old[f]), o.st, "Result "+f, o.pos, "Result returns %s %s, the verdict has %s", f, got, old[f])
					}
					s.expect(freshRoot(addrRoot(o.ret())), o.st, "Result copy", o.pos, "Result does not return a copy of the verdict: %s", o.ret())
					for _, post := range s.verdicts(o.st, t) {
						s.expect(isTrue(post.st, mkNot(mkEq(post.i, o.ret()))), post.st, "Result shared", o.pos, "Result returns the verdict itself, which later calls change")
						if isTrue(post.st, abort) {
							for _, f := range fields {
								s.expect(eq(post.st, s.vget(post, f), old[f]), post.st, "Result after abort "+f, o.pos, "Result changes %s of the verdict of an aborted transaction", f)
							}
							continue
						}
						s.must(post.st, mkNot(abort), "Result abort", o.pos, "Result does not depend on the abort")
						s.expect(eq(post.st, s.vget(post, "Status"), mkInt(200)), post.st, "Result reset Status", o.pos, "Result leaves the status at %s", s.vget(post, "Status"))
						s.must(post.st, mkNot(s.vget(post, "Disruptive")), "Result reset Disruptive", o.pos, "Result does not withdraw the verdict it reports")
						s.must(post.st, mkEq(mkLen(s.vget(post, "Log")), mkInt(0)), "Result reset Log", o.pos, "Result leaves log entries")
						s.must(post.st, mkEq(s.vget(post, "Url"), mkNil(nil)), "Result reset Url", o.pos, "Result leaves the URL %s", s.vget(post, "Url"))
						s.expect(eq(post.st, s.vget(post, "Pause"), mkInt(0)), post.st, "Result reset Pause", o.pos, "Result leaves the pause")
					}
				}
			}
		}
		r.require("paths of Result", 2)
	}
	c.logSharing(r)
	// 5. an abort is permanent
	n := 0
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				sto, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := sto.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != "Abort" || !types.Identical(fa.X.Type(), s.tt) {
					continue
				}
				n++
				k, isK := sto.Val.(*ssa.Const)
				_, fresh := fa.X.(*ssa.Alloc)
				s.expect(fresh || isK && k.Value != nil && k.Value.String() == "true", nil, "abort cleared in "+relName(fn), c.p.instrPos(in), "%s may clear the abort", relName(fn))
			}
		}
	}
	r.count("stores to Transaction.Abort", n)
	r.require("stores to Transaction.Abort", 1)
	// whole-transaction stores outside constructors
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if sto, ok := in.(*ssa.Store); ok && types.Identical(sto.Addr.Type(), s.tt) {
					if _, fresh := sto.Addr.(*ssa.Alloc); !fresh {
						r.violate("transaction overwritten in "+relName(fn), c.p.instrPos(in), "%s overwrites a whole transaction, its abort and verdict included", relName(fn))
					}
				}
			}
		}
	}
	// 6. rules of an aborted transaction do not act
	if rt := s.ruleType(); rt != nil {
		for _, name := range []string{"Do", "Match"} {
			m := s.method(rt, name)
			if m == nil {
				continue
			}
			for _, pre := range []bool{true, false} {
				s3 := s.sub()
				st := s3.state()
				t := s3.tx(st)
				rule := mkSym("rule", rt)
				st.assumeQuiet(nonnilCond(rule), true)
				if pre {
					st.assumeQuiet(s3.get(st, t, s.tt, "Abort"), true)
				}
				// an abort is permanent: established above for every function of the library
				aborted := func(x *State) *Term { return s3.get(x, t, s.tt, "Abort") }
				s3.ex.rely = func(x *State, e *Event) func(*State) {
					v, k := x.eval(aborted(x))
					if !k || !v && !isIfaceCall(e, "Operator", "Match") {
						return nil
					}
					return func(post *State) { post.assumeQuiet(aborted(post), v) }
				}
				s3.ex.headPreds = []func(*State) *Term{aborted}
				s3.ex.snap = func(e *Event) bool { return isIfaceCall(e, "Operator", "Match") }
				for _, o := range s3.call(st, m, rule, t) {
					r.count("paths of rules", 1)
					if pre {
						for _, e := range allEvents(o.st) {
							if isIfaceCall(e, "Operator", "Match") || isIfaceCall(e, "Action", "Do") {
								r.violate("rule of an aborted transaction", c.p.instrPos(e.instr), "a rule of an aborted transaction reaches %s", e.callee)
							}
						}
						if name == "Match" {
							s3.must(o.st, mkNot(o.ret()), "match after abort", o.pos, "a rule of an aborted transaction matches")
						}
						continue
					}
					if name == "Match" {
						s3.must(o.st, mkOr([]*Term{mkNot(o.ret()), mkNot(aborted(o.st))}), "match despite abort", o.pos, "a rule matches although fetching its variables aborted the transaction")
					}
					for _, e := range allEvents(o.st) {
						if at := s3.ex.snaps[e]; at != nil {
							r.count("operator calls with an abort excluded", 1)
							s3.must(at, mkNot(aborted(at)), "operator after abort", c.p.instrPos(e.instr), "%s consults the operator although the transaction has been aborted", name)
						}
					}
				}
				s3.done()
			}
		}
		r.require("operator calls with an abort excluded", 2)
	}
	c.eachPart(s, func(key string, exempt bool, run func(st *State, t *Term) []Outcome) {
		if !strings.HasSuffix(key, ".Match") {
			return
		}
		st := s.state()
		t := s.tx(st)
		st.assumeQuiet(s.get(st, t, s.tt, "Abort"), false)
		for _, o := range run(st, t) {
			s.must(o.st, mkNot(s.get(o.st, t, s.tt, "Abort")), "abort by "+key, o.pos, "%s aborts the transaction, but its rule still acts", key)
		}
	})
	// 7. what an abort does
	for _, name := range []string{"AbortWithStatus", "AbortWithError"} {
		m := s.method(s.tt, name)
		if m == nil {
			continue
		}
		st := s.state()
		t := s.tx(st)
		_, _, dect := s.modes(st, t)
		for _, x := range split(st, dect) {
			as := s.args(x, m, t)
			for _, a := range as[1:] {
				if ifaceType(a.typ) {
					x.assumeQuiet(nonnilCond(a), true)
				}
			}
			for _, o := range s.call(x, m, as...) {
				r.count("paths of aborts", 1)
				s.must(o.st, s.get(o.st, t, s.tt, "Abort"), name+" Abort", o.pos, "%s does not abort the transaction", name)
				if isTrue(x, dect) {
					continue
				}
				for _, post := range s.verdicts(o.st, t) {
					s.must(post.st, s.vget(post, "Disruptive"), name+" Disruptive", o.pos, "%s does not make the verdict disruptive", name)
					s.expect(eq(post.st, s.vget(post, "Status"), as[1]), post.st, name+" Status", o.pos, "%s sets the status %s instead of the one given", name, s.vget(post, "Status"))
				}
			}
		}
	}
	r.require("paths of aborts", 4)
	s.done()
	r.assumption("hosts do not write the object returned by Intervention or the fields of the transaction")
}

// exportedFields of a struct type.
func (s *Spec) exportedFields(t types.Type) []string {
	var out []string
	if st := derefStruct(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// eachPart runs f on every built-in action, variable, transformation and operator;
// exempt marks those that may withdraw a verdict.
func (c *Ctx) eachPart(s *Spec, f func(key string, exempt bool, run func(st *State, t *Term) []Outcome)) {
	part := func(pkg, iface, method string) {
		for _, k := range s.constructors(pkg, iface) {
			k := k
			exempt := k.Name() == "NewActionPass" || k.Name() == "NewActionBlock"
			f(strings.TrimPrefix(k.Name(), "New")+"."+method, exempt, func(st *State, t *Term) []Outcome {
				var outs []Outcome
				st2 := st.clone()
				for _, o := range s.call(st2, k, s.args(st2, k, nil)...) {
					if len(o.rets) > 1 && !isTrue(o.st, mkEq(o.rets[1], mkNil(nil))) {
						continue
					}
					recv := o.st.norm(o.ret())
					if recv.op != OpIface {
						s.r.violate("undecided "+k.Name(), o.pos, "the dynamic type of the result of %s is not known: %s", k.Name(), recv)
						continue
					}
					m := s.c.p.method(recv.typ, method)
					if m == nil {
						continue
					}
					s.r.count("built-in parts analysed", 1)
					as := []*Term{recv.args[0], t}
					for i := 2; i < len(m.Params); i++ {
						as = append(as, mkSym(fmt.Sprint("arg", i), m.Params[i].Type()))
					}
					if m.Synthetic != "" && len(m.Params) != len(as) {
						continue
					}
					outs = append(outs, s.call(o.st, m, as...)...)
				}
				return outs
			})
		}
	}
	part("modsecurity/actions", "Action", "Do")
	part("modsecurity/variables", "Variable", "Fetch")
	part("modsecurity/transforms", "Trans", "Trans")
	part("modsecurity/operators", "Operator", "Match")
}

// logSharing: the log of a verdict is only appended to or replaced; a truncated slice
// would let later entries overwrite those of a snapshot.
func (c *Ctx) logSharing(r *Report) {
	it := c.p.typ("modsecurity", "Intervention")
	if it == nil {
		r.violate("anchor", "modsecurity", "type Intervention not found")
		return
	}
	isLog := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && fieldName(fa.X.Type(), fa.Field) == "Log" && types.Identical(fa.X.Type(), types.NewPointer(it))
	}
	pv := newProv(c)
	n := 0
	var derives func(v ssa.Value, seen map[ssa.Value]bool) bool
	derives = func(v ssa.Value, seen map[ssa.Value]bool) bool { // v may be the content of a Log
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			return isLog(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if derives(e, seen) {
					return true
				}
			}
		case *ssa.Slice:
			return derives(x.X, seen)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return derives(x.Call.Args[0], seen)
			}
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Extract:
			return strings.Contains(fmt.Sprint(pv.sources(v)), "Log")
		}
		return false
	}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Slice:
					if derives(x.X, map[ssa.Value]bool{}) {
						n++
						if x.High != nil && x.Max == nil {
							r.violate("log truncated in "+relName(fn), c.p.instrPos(in), "%s truncates the log of a verdict in place: later entries overwrite those of a snapshot", relName(fn))
						} else {
							r.ok(1)
						}
					}
				case *ssa.IndexAddr:
					if derives(x.X, map[ssa.Value]bool{}) {
						n++
						for _, ref := range *x.Referrers() {
							if sto, ok := ref.(*ssa.Store); ok && sto.Addr == x {
								r.violate("log entry written in "+relName(fn), c.p.instrPos(sto), "%s changes an entry of the log of a verdict", relName(fn))
							}
						}
					}
				case *ssa.Store:
					if isLog(x.Addr) {
						n++
						r.ok(1)
					}
				}
			}
		}
	}
	r.count("uses of the verdict's log", n)
	r.require("uses of the verdict's log", 1)
}

func ifaceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// checkModes: C15.
func checkModes(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "NewEngine gives mode On; Enable(m) sets exactly the mode m and an unknown m nothing; Off: no Process method evaluates a rule; DetectionOnly: aborts, non-disruptive actions, variables, transformations and operators leave status and disruptive flag alone, actions of the disruptive group are never executed, all others are; On: every action is executed"
	s := c.spec(r)
	if s.tt == nil {
		return
	}
	// Enable and the default
	et := c.p.typ("modsecurity", "Engine")
	if et == nil {
		r.violate("anchor", "modsecurity", "type Engine not found")
		return
	}
	ep := types.NewPointer(et)
	mode := func(st *State, e *Term, m int64, other [2]*Term) *Term {
		en, de := s.get(st, e, ep, "Enabled"), s.get(st, e, ep, "DetectionOnly")
		switch m {
		case 0:
			return mkAnd([]*Term{en, mkNot(de)})
		case 1:
			return mkAnd([]*Term{mkNot(en), mkNot(de)})
		case 2:
			return de
		}
		return mkBool(eq(st, en, other[0]) && eq(st, de, other[1]))
	}
	if ctor := s.fn("modsecurity", "NewEngine"); ctor != nil {
		for _, o := range s.call(s.state(), ctor) {
			s.must(o.st, mode(o.st, o.ret(), 0, [2]*Term{}), "default mode", o.pos, "a new engine is not in mode On")
			r.count("engine constructors", 1)
		}
	}
	r.require("engine constructors", 1)
	dectEnabled := map[bool]bool{} // values of Enabled in DetectionOnly mode
	if m := s.method(ep, "Enable"); m != nil {
		var ks []int64
		for _, n := range []string{"StatusOn", "StatusOff", "StatusDect"} {
			k, ok := s.constant("modsecurity", n)
			if !ok {
				return
			}
			ks = append(ks, k)
		}
		arg := mkSym("status", m.Params[1].Type())
		for i := int64(0); i < 4; i++ {
			st := s.state()
			e := mkSym("e", ep)
			st.assumeQuiet(nonnilCond(e), true)
			if i < 3 {
				st.assumeQuiet(mkEq(arg, mkInt(ks[i])), true)
			} else {
				for _, k := range ks {
					st.assumeQuiet(mkEq(arg, mkInt(k)), false)
				}
			}
			old := [2]*Term{s.get(st, e, ep, "Enabled"), s.get(st, e, ep, "DetectionOnly")}
			rest := map[string]*Term{}
			for _, f := range s.exportedFields(ep) {
				if f != "Enabled" && f != "DetectionOnly" {
					rest[f] = s.get(st, e, ep, f)
				}
			}
			nm := []string{"StatusOn", "StatusOff", "StatusDect", "another value"}[i]
			for _, o := range s.call(st, m, e, arg) {
				r.count("paths of Enable", 1)
				if i == 2 {
					en := s.get(o.st, e, ep, "Enabled")
					for _, b := range []bool{false, true} {
						if v, k := o.st.eval(en); !k || v == b {
							dectEnabled[b] = true
						}
					}
				}
				s.must(o.st, mode(o.st, e, i, old), "Enable "+nm, o.pos, "Enable(%s) sets Enabled %s and DetectionOnly %s", nm, s.get(o.st, e, ep, "Enabled"), s.get(o.st, e, ep, "DetectionOnly"))
				for f, v := range rest {
					s.expect(eq(o.st, v, s.get(o.st, e, ep, f)), o.st, "Enable changes "+f, o.pos, "Enable changes %s", f)
				}
			}
		}
		r.require("paths of Enable", 4)
	}
	// Off: nothing runs
	for _, m := range s.processMethods() {
		st := s.state()
		t := s.tx(st)
		_, off, _ := s.modes(st, t)
		st.assumeQuiet(off, true)
		outs := s.call(st, m, s.args(st, m, t)...)
		r.count("paths with the engine off", len(outs))
		s.noRules(outs, m.Name()+" engine off", "although the engine is off")
	}
	r.require("paths with the engine off", 7)
	// DetectionOnly: whenever a phase would run with the engine on, it runs
	for _, pm := range s.phaseMethods() {
		if pm.phase < 0 || len(dectEnabled) == 0 {
			continue
		}
		st := s.state()
		t := s.tx(st)
		on := s.ready(st, t, pm)
		for _, en := range []bool{false, true} {
			if !dectEnabled[en] {
				continue
			}
			q := s.sub()
			q.runMode.detection, q.runMode.notEnabled = true, !en
			x := s.state()
			u := s.tx(x)
			some, none := q.runsWhen(x, u, pm)
			q.done()
			r.count("phases in DetectionOnly", 1)
			y := st.clone()
			if !s.expect(len(some) > 0, x, pm.name+" in DetectionOnly", c.pos(pm.m), "%s evaluates no rule in DetectionOnly mode (Enabled %v)", pm.name, en) || !assumeAll(y, on) {
				continue
			}
			ok, cl := allTrue(y, negAll(none))
			s.expect(ok, y, pm.name+" in DetectionOnly", c.pos(pm.m), "%s does not evaluate the rules of the phase in DetectionOnly mode (Enabled %v) unless %s", pm.name, en, cl)
		}
	}
	r.require("phases in DetectionOnly", 6)
	// DetectionOnly: no part but a disruptive action changes the verdict
	s.nonDisruptive = map[string]bool{}
	for _, k := range s.constructors("modsecurity/actions", "Action") {
		st := s.state()
		for _, o := range s.call(st, k, s.args(st, k, nil)...) {
			if g, ok := s.constant("modsecurity", "ActionGroupDisruptive"); ok {
				gr := s.groupOf(o.st, o.ret())
				s.expect(gr >= 0, o.st, "group of "+k.Name(), o.pos, "the group of %s is not a constant", k.Name())
				if gr != g && gr >= 0 {
					s.nonDisruptive[strings.TrimPrefix(k.Name(), "New")+".Do"] = true
				}
			}
		}
	}
	dectTx := func() (*State, *Term) {
		st := s.state()
		t := s.tx(st)
		_, _, dect := s.modes(st, t)
		st.assumeQuiet(dect, true)
		return st, t
	}
	c.eachPart(s, func(key string, _ bool, run func(st *State, t *Term) []Outcome) {
		if strings.HasSuffix(key, ".Do") && !s.nonDisruptive[key] {
			return
		}
		st, t := dectTx()
		s.ex.rely = s.relyVerdict(t)
		defer func() { s.ex.rely = nil }()
		r.count("parts in DetectionOnly", 1)
		s.unchangedVerdict(st, t, key+" in DetectionOnly", func(x *State) []Outcome { return run(x, t) }, "Status", "Disruptive", "Url", "Pause")
	})
	r.require("parts in DetectionOnly", 40)
	for _, name := range []string{"AbortWithStatus", "AbortWithError", "Logf"} {
		if m := s.method(s.tt, name); m != nil {
			st, t := dectTx()
			s.unchangedVerdict(st, t, name+" in DetectionOnly", func(x *State) []Outcome { return s.call(x, m, s.args(x, m, t)...) }, "Status", "Disruptive", "Url", "Pause")
		}
	}
	c.actionsRun(s, r)
	s.done()
}

// relyVerdict: parts of rules leave the verdict alone in DetectionOnly mode (each is
// checked on its own).
func (s *Spec) relyVerdict(t *Term) func(st *State, e *Event) func(*State) {
	return func(st *State, e *Event) func(*State) {
		if !isIfaceCall(e, "Variable", "Fetch") && !isIfaceCall(e, "Operator", "Match") && !isIfaceCall(e, "Trans", "Trans") {
			return nil
		}
		pre := s.verdicts(st, t)
		if len(pre) != 1 {
			return nil
		}
		return func(post *State) {
			for _, f := range []string{"Status", "Disruptive", "Url", "Pause"} {
				f := f
				old := s.vget(pre[0], f)
				if c := s.verdictIs(post, t, func(v verdict) *Term {
					if isBoolType(old.typ) {
						if b, k := pre[0].st.eval(old); k {
							return mkEqBool(s.vget(v, f), b)
						}
						return mkOr([]*Term{mkAnd([]*Term{old, s.vget(v, f)}), mkAnd([]*Term{mkNot(old), mkNot(s.vget(v, f))})})
					}
					return mkEq(s.vget(v, f), old)
				}); c != nil {
					post.assumeQuiet(c, true)
				}
			}
		}
	}
}

func mkEqBool(t *Term, b bool) *Term {
	if b {
		return t
	}
	return mkNot(t)
}
