package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkPhaseNumbers }

// checkPhaseNumbers: C25.
func checkPhaseNumbers(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "for each phase number of SecLang, and the aliases and the default, the text of a rule is followed through the scanner, the loader, Execute and AddSecRule to the phase of the engine's rule set that holds the rule; the Process methods that run the rules of that phase (a phase of a rule set that holds one rule, from the first position) have to be the one of the SecLang step alone"
	s := c.spec(r)
	t := s.ruleText()
	if t == nil {
		return
	}
	steps := []struct {
		text, step string
	}{
		{"phase:1", "ProcessRequestHeader"}, {"phase:2", "ProcessRequestBody"}, {"phase:3", "ProcessResponseHeaders"}, {"phase:4", "ProcessResponseBody"}, {"phase:5", "ProcessLogging"},
		{"phase:request", "ProcessRequestBody"}, {"phase:response", "ProcessResponseBody"}, {"phase:logging", "ProcessLogging"}, {"", "ProcessRequestBody"},
	}
	rs := c.p.typ("modsecurity", "SecRuleSet")
	if rs == nil {
		r.violate("anchor", "modsecurity", "SecRuleSet or AddSecRule not found")
		return
	}
	at := map[string]string{}
	for _, st := range steps {
		what := st.text
		text := "id:1"
		if st.text == "" {
			what = "no phase"
		} else {
			text += "," + st.text
		}
		phases := map[string]int64{}
		x := s.sub()
		for _, l := range t.rule(x, x.state(), mkStr("REQUEST_URI"), mkStr("@rx a"), mkStr(text)) {
			if l.rule == nil {
				continue
			}
			p, ok := l.st.norm(x.get(l.st, l.rule, t.rt, "Phase")).intVal()
			if !ok {
				r.violate("undecided "+what, l.pos, "the phase of a rule with %s is not known", what)
				continue
			}
			phases[fmt.Sprint(p)] = p
		}
		x.done()
		if len(phases) == 0 {
			r.violate("refused "+what, c.pos(t.load), "no rule with %s can be loaded", what)
		}
		for _, p := range phases {
			var where []string
			seen := map[string]bool{}
			for _, k := range s.registeredUnder(t, rs, p) {
				for _, m := range s.runsRulesOf(k) {
					if !seen[m] {
						seen[m] = true
						where = append(where, m)
					}
				}
			}
			sort.Strings(where)
			r.count("phases followed", 1)
			if len(where) == 1 {
				r.ok(1)
				r.sample("a rule with %s runs in exactly one step (%s)", what, where[0])
			} else {
				r.violate("steps of "+what, c.pos(t.load), "a rule with %s runs in %d steps: %s", what, len(where), strings.Join(where, ", "))
			}
			if at[st.step] == "" {
				at[st.step] = strings.Join(where, ", ")
			} else if at[st.step] != strings.Join(where, ", ") {
				r.violate("alias "+what, c.pos(t.load), "a rule with %s runs in %s, one with the number of that phase in %s", what, strings.Join(where, ", "), at[st.step])
			} else {
				r.ok(1)
			}
			if len(where) == 1 && where[0] == st.step {
				r.ok(1)
				r.sample("a rule with %s runs in %s", what, st.step)
				continue
			}
			in := strings.Join(where, ", ")
			if in == "" {
				in = "no Process method"
			}
			r.violate(what+" runs in "+in, c.pos(t.load), "a rule with %s runs in %s instead of %s", what, in, st.step)
		}
	}
	r.require("phases followed", 9)
	s.done()
	r.assumption("ProcessPhase itself, with the number given by the host, is not a step")
}

// registeredUnder: the phases of a rule set that hold a rule with a phase number.
func (s *Spec) registeredUnder(t *ruleText, rs types.Type, phase int64) []int64 {
	m := s.method(types.NewPointer(rs), "AddRules")
	if m == nil {
		s.r.violate("anchor", "modsecurity", "AddRules not found")
		return nil
	}
	x := s.sub()
	st := x.state()
	set, rule := mkSym("set", types.NewPointer(rs)), mkSym("rule", t.rt)
	st.assumeQuiet(nonnilCond(set), true)
	st.assumeQuiet(nonnilCond(rule), true)
	x.set(st, rule, t.rt, "Phase", mkInt(phase))
	mp := x.get(st, set, types.NewPointer(rs), "Phases")
	st.assumeQuiet(nonnilCond(mp), true)
	st.maps[st.norm(mp)] = &MapC{exact: true}
	in := map[int64]bool{}
	for _, o := range x.call(st, m, set, mkSeq([]*Term{mkSingle(rule)}, m.Params[len(m.Params)-1].Type())) {
		c := o.st.maps[o.st.norm(x.get(o.st, set, types.NewPointer(rs), "Phases"))]
		if c == nil || !c.exact {
			s.r.violate("undecided phases", o.pos, "the phases of a rule set are not known after a rule is added")
			continue
		}
		for _, e := range c.entries {
			k, ok := o.st.norm(e.k).intVal()
			l, ok2 := o.st.listOf(o.st.norm(e.v))
			if !ok || !ok2 {
				s.r.violate("undecided phases", o.pos, "the phases of a rule set are not known after a rule is added")
				continue
			}
			for _, u := range l {
				if o.st.norm(u) == rule {
					in[k] = true
				}
			}
		}
	}
	x.done()
	var out []int64
	for k := range in {
		out = append(out, k)
	}
	return out
}

// runsRulesOf: the Process methods that evaluate the rules of a phase.
func (s *Spec) runsRulesOf(phase int64) []string {
	var out []string
	for _, pm := range s.processMethods() {
		q := s.quiet()
		do := q.ruleDo()
		runs := false
		q.ex.hook = func(fn *ssa.Function, x *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
			if fn != do {
				return nil, false
			}
			runs = true
			return nil, true
		}
		st := q.state()
		t := q.tx(st)
		for _, x := range q.runAny(st, t) {
			mp := q.get(x, t, q.tt, "RuleSet.Phases")
			mt, ok := mp.typ.Underlying().(*types.Map)
			if !ok || !x.assumeQuiet(nonnilCond(mp), true) {
				continue
			}
			rule := mkSym("rule", mt.Elem().Underlying().(*types.Slice).Elem())
			x.assumeQuiet(nonnilCond(rule), true)
			x.maps[x.norm(mp)] = &MapC{exact: true, entries: []mapEntry{{k: mkInt(phase), v: mkSeq([]*Term{mkSingle(rule)}, mt.Elem())}}}
			// the argument may choose the phase: such methods are for hosts that know it
			var args []*Term
			free := false
			for i, p := range pm.Params {
				if i == 0 {
					args = append(args, t)
					continue
				}
				if types.Identical(p.Type().Underlying(), tInt) && len(pm.Params) == 2 {
					free = true
				}
				args = append(args, zeroValue(p.Type()))
			}
			if free {
				continue
			}
			q.call(x, pm, args...)
		}
		for k, v := range q.ex.problems {
			s.ex.problems[k] = v
		}
		if runs {
			out = append(out, pm.Name())
		}
	}
	return out
}
