package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkChains }

// checkChains: C12.
func checkChains(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "on every path of (*SecRule).Do: the rule itself and then every rule chained to it is matched, stopping at the first that does not match, in which case no action executes; otherwise, after all have matched, the actions of the rule and of every chained rule execute, each once and in order. On every path of AddSecLangString over up to eight rules with or without the chain action (up to four directives if others are among them): the rules given to the engine are those not attached to another, each rule after a rule with chain is attached to the first rule of the chain, in order, and text ending inside a chain is an error"
	s := c.spec(r)
	rt := s.ruleType()
	if s.tt == nil || rt == nil {
		return
	}
	do, match, exec := s.method(rt, "Do"), s.method(rt, "Match"), s.fn("modsecurity", "ActionsExecute")
	if do == nil || match == nil || exec == nil {
		return
	}
	s.ex.noForms = false
	s.ex.cut = func(f *ssa.Function) bool { return f == match || f == exec }
	st := s.state()
	t := s.tx(st)
	rule := mkSym("rule", rt)
	st.assumeQuiet(nonnilCond(rule), true)
	subs, acts := s.get(st, rule, rt, "SubRules"), s.get(st, rule, rt, "Actions")
	sub := elemSym(0, elemOf(subs.typ))
	isMatch := func(e *Event) bool { return e.kind == EvCall && e.fn == match }
	isExec := func(e *Event) bool { return e.kind == EvCall && e.fn == exec }
	ms := &searcher{s: s, is: isMatch, val: func(e *Event) *Term { return e.args[0] }, goOn: func(x *State, e *Event) *Term { return e.res }}
	as := &searcher{s: s, is: isExec, val: func(e *Event) *Term { return e.args[1] }, spread: true}
	subActs := func(x *State) *Term { return s.get(x, sub, rt, "Actions") }
	for _, o := range s.call(st, do, rule, t) {
		r.count("paths of Do", 1)
		wantM := []nest{{nil, rule}, {[]*Term{subs}, sub}}
		wantA := []nest{
			{[]*Term{acts}, elemSym(0, elemOf(acts.typ))},
			{[]*Term{subs, subActs(st)}, elemSym(1, elemOf(acts.typ))},
		}
		es := o.st.ev.list()
		m, why := ms.run(o.st, es, nil)
		if !s.expect(why == "", o.st, "matches", o.pos, "the rules that have to match are not the rule and those chained to it: %s", why) {
			continue
		}
		a, why := as.run(o.st, es, nil)
		if !s.expect(why == "", o.st, "actions", o.pos, "the actions executed are not those of the rule and those chained to it: %s", why) {
			continue
		}
		all := append(append([]nest{}, m.nests...), m.partly...)
		if m.stop != nil {
			all = append(all, m.stopAt)
		}
		for _, w := range all {
			for _, u := range w.parts() {
				s.expect(u.equal(wantM[0]) || u.equal(wantM[1]), o.st, "match of another", o.pos, "(*SecRule).Do matches %s", u)
			}
		}
		if m.after != nil {
			r.violate("match after a failure", c.p.instrPos(m.after.instr), "another rule is matched after one did not match")
		}
		if as.has(es) {
			r.count("acting paths", 1)
			s.expect(m.stop == nil && m.broken == nil, o.st, "acts in part", o.pos, "actions execute although a rule of the chain does not match")
			if m.stop == nil && m.broken == nil {
				s.expect(sameNests(m.nests, wantM) || len(m.nests) == 1 && m.nests[0].equal(wantM[0]) && knownEmpty(o.st, func(l *Term) bool { return plain(l) == plain(subs) }), o.st, "acts without all", o.pos, "actions execute although not every rule of the chain has matched: %v", m.nests)
			}
			if a.broken != nil {
				r.violate("actions left early", a.broken.pos, "the loop over the actions is left early")
			}
			s.expect(sameNests(a.nests, wantA) || len(a.nests) == 1 && a.nests[0].equal(wantA[0]) && knownEmpty(o.st, func(l *Term) bool { return plain(l) == plain(subs) }), o.st, "other actions", o.pos, "the actions executed are %v, not those of the rule and then those of each chained rule", a.nests)
			lastM, firstA := -1, -1
			for i, e := range es {
				if ms.has([]*Event{e}) {
					lastM = i
				}
				if firstA < 0 && as.has([]*Event{e}) {
					firstA = i
				}
			}
			s.expect(lastM < firstA, o.st, "order", o.pos, "actions execute before all rules of the chain have matched")
			for _, e := range allEvents(o.st) {
				if isExec(e) {
					s.expect(e.args[0] == t, o.st, "transaction", c.p.instrPos(e.instr), "actions execute on another transaction")
				}
			}
		} else {
			r.count("paths without actions", 1)
			s.expect(m.stop != nil, o.st, "no actions", o.pos, "no action executes although no rule of the chain has failed to match")
		}
		for _, e := range allEvents(o.st) {
			if isIfaceCall(e, "Action", "Do") {
				r.violate("other action "+c.p.instrPos(e.instr), c.p.instrPos(e.instr), "(*SecRule).Do executes an action by itself")
			}
			if isMatch(e) {
				s.expect(len(e.args) == 2 && e.args[1] == t, o.st, "match transaction", c.p.instrPos(e.instr), "a rule is matched against another transaction")
			}
		}
	}
	r.require("acting paths", 1)
	r.require("paths without actions", 1)
	s.done()
	s.chainLoading()
	r.assumption("the actions of one rule are executed by ActionsExecute, established by C19")
}

// chainLoading: how the rules of a text are put together.
func (s *Spec) chainLoading() {
	c, r := s.c, s.r
	const depth = 4
	add := s.fn("seclang", "NewDireSetFromSecLangString")
	sc := c.p.typ("seclang/parser", "Scanner")
	ds := c.p.typ("seclang", "DireSet")
	et := c.p.typ("modsecurity", "Engine")
	rd, bd := c.p.typ("seclang/parser", "RuleDirective"), c.p.typ("seclang/parser", "BoolArgDirective")
	if add == nil || sc == nil || ds == nil || et == nil || rd == nil || bd == nil {
		r.violate("anchor", "seclang", "types of the rule language not found")
		return
	}
	all := s.method(types.NewPointer(sc), "AllDirective")
	execute := s.method(types.NewPointer(ds), "Execute")
	addRule := s.method(types.NewPointer(et), "AddSecRule")
	reqBody, ok1 := s.constant("seclang/parser", "TkDirReqBody")
	opEq, ok2 := s.constant("seclang/parser", "TkOpEq")
	if all == nil || execute == nil || addRule == nil || !ok1 || !ok2 {
		return
	}
	rt := s.ruleType()
	// kinds: r a rule, c a rule with chain, o another directive
	var texts []string
	var gen func(p string)
	gen = func(p string) {
		texts = append(texts, p)
		if len(p) < depth {
			for _, k := range []string{"r", "c", "o"} {
				gen(p + k)
			}
			return
		}
		// longer ones of rules only
		if len(p) < 8 && !strings.Contains(p, "o") {
			gen(p + "r")
			gen(p + "c")
		}
	}
	gen("")
	dirT := all.Signature.Results().At(0).Type()
	for _, text := range texts {
		x := s.sub()
		st := x.state()
		alloc := func(name string, t types.Type) *Term {
			a := T.mk(Term{op: OpAlloc, aux: "verif:" + name, typ: types.NewPointer(t)})
			return a
		}
		var dirs []*Term
		ids := map[int]*Term{}
		for i, k := range text {
			if k == 'o' {
				d := alloc(fmt.Sprint("dir", i), bd)
				x.set(st, d, types.NewPointer(bd), "Tk", mkInt(reqBody))
				x.set(st, d, types.NewPointer(bd), "Value", mkSym(fmt.Sprint("on", i), types.Typ[types.Bool]))
				dirs = append(dirs, mkSingle(T.mk(Term{op: OpIface, typ: types.NewPointer(bd), args: []*Term{d}})))
				continue
			}
			d := alloc(fmt.Sprint("dir", i), rd)
			pd := types.NewPointer(rd)
			ot := fieldType(rd, "Operator").(*types.Pointer)
			at := fieldType(rd, "Actions").(*types.Pointer)
			op, ac := alloc(fmt.Sprint("op", i), ot.Elem()), alloc(fmt.Sprint("acts", i), at.Elem())
			x.set(st, d, pd, "Variable", mkSeq(nil, fieldType(rd, "Variable")))
			x.set(st, d, pd, "Operator", op)
			x.set(st, d, pd, "Actions", ac)
			x.set(st, op, ot, "Tk", mkInt(opEq))
			x.set(st, op, ot, "Not", mkSym(fmt.Sprint("not", i), tBool))
			x.set(st, op, ot, "Argument", mkStr("0"))
			id := mkSym(fmt.Sprint("id", i), tInt)
			ids[i] = id
			x.set(st, ac, at, "Id", id)
			x.set(st, ac, at, "Phase", mkInt(int64(1+i%5)))
			if len(text) <= 4 {
				ph := mkSym(fmt.Sprint("phase", i), tInt)
				st.assumeQuiet(mkLE(toLin(ph).scale(-1).add(lin{k: 1}, 1)), true)
				st.assumeQuiet(mkLE(toLin(ph).add(lin{k: -5}, 1)), true)
				x.set(st, ac, at, "Phase", ph)
			}
			x.set(st, ac, at, "Chain", mkBool(k == 'c'))
			x.set(st, ac, at, "Trans", mkSeq(nil, fieldType(at.Elem(), "Trans")))
			x.set(st, ac, at, "Action", mkSeq(nil, fieldType(at.Elem(), "Action")))
			dirs = append(dirs, mkSingle(T.mk(Term{op: OpIface, typ: pd, args: []*Term{d}})))
		}
		list := mkSeq(dirs, dirT)
		asked := 0
		x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
			if f == all {
				asked++
				return []Outcome{{st: st, rets: []*Term{list, mkNil(nil)}}}, true
			}
			return nil, false
		}
		x.ex.cut = func(f *ssa.Function) bool { return f == addRule }
		// expected
		open := false
		var want []string // ids of the rules given to the engine with those attached
		first := -1
		for i, k := range text {
			if k == 'o' {
				continue
			}
			if open {
				want[len(want)-1] += "," + ids[i].String()
			} else {
				want = append(want, ids[i].String())
				first = i
			}
			open = k == 'c'
		}
		_ = first
		ruleIds := func(st *State, ru *Term) string {
			g := x.get(st, ru, rt, "Id").String()
			sub := st.norm(x.get(st, ru, rt, "SubRules"))
			if sub.isNil() {
				return g
			}
			if sub.op != OpSeq {
				g += ",?" + sub.String()
			} else {
				for _, it := range sub.args {
					if it.op != OpSingle {
						g += ",?" + it.String()
						continue
					}
					g += "," + x.get(st, it.args[0], rt, "Id").String()
					ss := st.norm(x.get(st, it.args[0], rt, "SubRules"))
					if !ss.isNil() && !(ss.op == OpSeq && len(ss.args) == 0) {
						g += "(" + ss.String() + ")"
					}
				}
			}
			return g
		}
		key := "text of " + describeText(text)
		accepted := false
		for _, o := range x.call(st, add, mkSym("text", stringType())) {
			r.count("paths of loading", 1)
			errT := o.rets[1]
			if open {
				x.must(o.st, nonnilCond(errT), "unfinished chain", o.pos, "%s is accepted although it ends inside a chain", key)
				continue
			}
			if isTrue(o.st, nonnilCond(errT)) {
				// a part that the library refuses
				r.count("refused texts", 1)
				continue
			}
			accepted = true
			x.must(o.st, mkEq(errT, mkNil(nil)), "undecided error", o.pos, "it is not decided whether %s is refused", key)
			base := o.st.ev
			e := mkSym("engine", types.NewPointer(et))
			o.st.assumeQuiet(nonnilCond(e), true)
			for _, p := range x.call(o.st, execute, o.rets[0], e) {
				if !isTrue(p.st, mkEq(p.ret(), mkNil(nil))) {
					continue
				}
				var got []string
				for _, ev := range p.st.ev.since(base) {
					if ev.kind == EvLoop && ev.loop != nil {
						x.r.violate("undecided loop", ev.loop.pos, "the order in which %s takes effect is not known", key)
					}
					if ev.kind != EvCall || ev.fn != addRule {
						continue
					}
					list := p.st.norm(ev.args[1])
					if list.op != OpSeq {
						list = mkSeq([]*Term{mkSingle(list)}, list.typ)
					}
					for _, it := range list.args {
						if it.op != OpSingle {
							got = append(got, "?"+it.String())
							continue
						}
						got = append(got, ruleIds(p.st, it.args[0]))
					}
				}
				r.count("loaded texts compared", 1)
				x.expect(strings.Join(got, " ") == strings.Join(want, " "), p.st, "chains of "+describeText(text), o.pos, "%s gives the engine the rules [%s] (each with those attached to it) instead of [%s]", key, strings.Join(got, "; "), strings.Join(want, "; "))
			}
		}
		if asked == 0 {
			r.violate("anchor AllDirective", c.pos(add), "loading does not scan its text with AllDirective")
			return
		}
		if !accepted && !open {
			r.violate("refused "+describeText(text), c.pos(add), "%s is never accepted", key)
		}
		x.done()
	}
	r.count("directive lists", len(texts))
	r.require("directive lists", 600)
	r.require("loaded texts compared", 60)
	r.assumption("the loading of a text depends on its directives only through chains of up to eight rules")
}

func describeText(t string) string {
	var out []string
	for _, k := range t {
		out = append(out, map[rune]string{'r': "rule", 'c': "chain rule", 'o': "other directive"}[k])
	}
	if len(out) == 0 {
		return "no directive"
	}
	return strings.Join(out, ", ")
}

func fieldType(t types.Type, name string) types.Type {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return tInt
}
