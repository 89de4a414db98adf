package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = func(c *Ctx, r *Report) { bothOrders(func() { checkDirectives(c, r) }) } }

// engineFields: the settings of an engine with their paths.
func engineFields(t types.Type) []string {
	var out []string
	var walk func(t types.Type, prefix string, depth int)
	walk = func(t types.Type, prefix string, depth int) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok || depth > 3 {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			out = append(out, prefix+f.Name())
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if _, ok := ft.Underlying().(*types.Struct); ok && f.Embedded() {
				walk(ft, prefix+f.Name()+".", depth+1)
			}
		}
	}
	walk(t, "", 0)
	return out
}

// setting: what a directive with a value has to do.
type setting struct {
	directive, value string
	want             map[string]bool // field (last component) -> value
}

var settings = []setting{
	{"SecRequestBodyAccess", "On", map[string]bool{"RequestBodyAccess": true}},
	{"SecRequestBodyAccess", "Off", map[string]bool{"RequestBodyAccess": false}},
	{"SecResponseBodyAccess", "On", map[string]bool{"ResponseBodyAccess": true}},
	{"SecResponseBodyAccess", "Off", map[string]bool{"ResponseBodyAccess": false}},
	{"SecRuleEngine", "On", nil},
	{"SecRuleEngine", "Off", nil},
	{"SecRuleEngine", "DetectionOnly", nil},
}

// checkDirectives: C21.
func checkDirectives(c *Ctx, r *Report) {
	r.method = methodAI + " Conditions on the texts of directive names and values are turned into automata, and the product of the automata of a path with those of the documented words is explored completely."
	r.rule = "on every path of scanning, loading and executing one directive, for every name and value over ASCII: names differ from the documented ones at most in case or the directive is refused; values differ from On, Off (and DetectionOnly for SecRuleEngine) at most in case or are refused; executing it changes exactly the documented engine setting to the documented value (SecRuleEngine: the effect of Enable with that mode) and writes nothing else; SecRule gives the engine its rule; Execute runs all directives in order until the first error and returns it; lists of up to three directives take effect in the order written"
	s := c.spec(r)
	t := s.ruleText()
	if t == nil {
		return
	}
	checkDirectiveTexts(s, t)
	s.executeOrder(t)
	s.listOrder(t)
	r.require("paths of scanning a directive", 10)
	r.require("settings compared", 7)
	s.done()
	r.assumption("directive names and values are ASCII texts; other texts differ from the documented words")
}

// checkDirectiveTexts: the names and values directives take, and their effects.
func checkDirectiveTexts(s *Spec, t *ruleText) {
	c, r := s.c, s.r
	readDirective := s.method(types.NewPointer(t.scanner), "ReadDirective")
	readWord := s.method(types.NewPointer(t.scanner), "ReadWord")
	rd := c.p.typ("seclang/parser", "RuleDirective")
	if readDirective == nil || readWord == nil || rd == nil {
		r.violate("anchor", "seclang/parser", "ReadDirective, ReadWord or RuleDirective not found")
		return
	}
	cuts := map[*ssa.Function]bool{}
	for _, n := range []string{"ReadVariables", "ReadOperator", "ReadActions"} {
		if m := s.method(types.NewPointer(t.scanner), n); m != nil {
			cuts[m] = true
		}
	}
	x := s.sub()
	x.ex.splitMaps = true
	x.ex.unrollMaps = true
	x.ex.cut = func(f *ssa.Function) bool { return cuts[f] }
	word, val := mkSym("word", tString), mkSym("value", tString)
	asked, got := ghostCell("asked"), ghostCell("read")
	x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		switch f {
		case readWord:
			st.heap[asked] = mkInt(1)
			return []Outcome{{st: st, rets: []*Term{word}}}, true
		case t.readString:
			if v, ok := st.heap[got].intVal(); !ok || v != 0 {
				r.violate("reads twice", c.p.instrPos(in), "a directive with one value reads more than one")
			}
			st.heap[got] = mkInt(1)
			return []Outcome{{st: st, rets: []*Term{val, mkNil(nil)}}}, true
		}
		return nil, false
	}
	st := x.state()
	st.heap[asked], st.heap[got] = mkInt(0), mkInt(0)
	sc := mkSym("scanner", types.NewPointer(t.scanner))
	st.assumeQuiet(nonnilCond(sc), true)
	var outs []loaded
	for _, o := range x.call(st, readDirective, sc) {
		if v, ok := o.st.heap[asked].intVal(); !ok || v == 0 {
			// no directive was begun
			r.count("paths without a directive", 1)
			continue
		}
		for _, q := range split(o.st, mkEq(o.rets[1], mkNil(nil))) {
			l := loaded{st: q, pos: o.pos, err: q.norm(o.rets[1])}
			if isTrue(q, mkEq(o.rets[1], mkNil(nil))) {
				l.err, l.dir = mkNil(nil), q.norm(o.rets[0])
			}
			outs = append(outs, l)
		}
	}
	names := []string{"SecRule", "SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess"}
	words := []string{"On", "Off", "DetectionOnly"}
	covered := map[string]bool{}
	for _, l := range outs {
		r.count("paths of scanning a directive", 1)
		// which documented words the texts of this path can be
		nameOf := func(txt *Term, doc []string) (map[string]string, bool) {
			ds, want, bad := textFacts(l.st, txt)
			if bad != nil {
				r.violate("undecided text", l.pos, "a directive is taken or refused by a condition on its text that is not understood: %s", clip(bad.String(), 200))
				return nil, false
			}
			n := len(ds)
			for _, w := range doc {
				ds = append(ds, wordDfa{w: w, fold: true})
			}
			hit := map[string]string{}
			ok := exploreTexts(ds, func(tr []bool, ex string) {
				for i := 0; i < n; i++ {
					if tr[i] != want[i] {
						return
					}
				}
				for i, w := range doc {
					if tr[n+i] {
						if _, h := hit[w]; !h {
							hit[w] = ex
						}
						return
					}
				}
				if _, h := hit[""]; !h {
					hit[""] = ex
				}
			})
			if !ok {
				r.violate("undecided text", l.pos, "the conditions on the text of a directive are too many")
			}
			return hit, ok
		}
		ws, ok1 := nameOf(word, names)
		vs, ok2 := nameOf(val, words)
		if !ok1 || !ok2 {
			continue
		}
		if len(ws) == 0 || len(vs) == 0 {
			r.count("paths no text can take", 1)
			continue
		}
		readVal := l.st.heap[got] != mkInt(0)
		refused := l.dir == nil
		if !refused {
			if _, h := ws[""]; h {
				r.violate("unknown name accepted", l.pos, "the directive name %q is accepted", ws[""])
				continue
			}
			if len(ws) > 1 {
				r.violate("names not told apart", l.pos, "%d directive names lead to the same directive", len(ws))
				continue
			}
		}
		for name := range ws {
			if name == "" {
				continue // refused as it has to be
			}
			if name == "SecRule" {
				if !refused {
					if l.dir.op != OpIface || typeStr(l.dir.typ) != typeStr(types.NewPointer(rd)) {
						r.violate("SecRule", l.pos, "SecRule (written %q) is scanned as %s", ws[name], l.dir)
						continue
					}
					covered["SecRule"] = true
				} else if !sinceCut(l.st, cuts) {
					r.violate("SecRule refused", l.pos, "SecRule (written %q) is refused without reading its parts", ws[name])
				}
				continue
			}
			if refused {
				if !readVal {
					r.violate("refused "+name, l.pos, "%s (written %q) is refused without reading its value", name, ws[name])
					continue
				}
				for v, ex := range vs {
					if v != "" && !(v == "DetectionOnly" && name != "SecRuleEngine") {
						r.violate("refused "+name+" "+v, l.pos, "%s refuses %q", name, ex)
					}
				}
				r.ok(1)
				continue
			}
			if !readVal {
				r.violate("no value "+name, l.pos, "%s is accepted without reading its value", name)
				continue
			}
			if _, h := vs[""]; h {
				r.violate("unknown value "+name, l.pos, "%s accepts the value %q", name, vs[""])
				continue
			}
			for v := range vs {
				s.directiveEffect(t, x, l, name, v, covered)
			}
		}
	}
	for _, w := range settings {
		if !covered[w.directive+" "+w.value] {
			r.violate("never "+w.directive+" "+w.value, c.pos(readDirective), "%s %s is never accepted", w.directive, w.value)
		}
	}
	if !covered["SecRule"] {
		r.violate("never SecRule", c.pos(readDirective), "SecRule is never accepted")
	}
	x.done()
}

func sinceCut(st *State, cuts map[*ssa.Function]bool) bool {
	for _, e := range allEvents(st) {
		if e.kind == EvCall && cuts[e.fn] {
			return true
		}
	}
	return false
}

// engineSym: an arbitrary engine.
func (s *Spec) engineSym(st *State, et types.Type) *Term {
	e := mkSym("engine", types.NewPointer(et))
	st.assumeQuiet(nonnilCond(e), true)
	for _, f := range engineFields(et) {
		if _, ft := fieldIndex(types.NewPointer(et), lastPart(f)); ft != nil {
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Struct); ok {
					st.assumeQuiet(nonnilCond(s.get(st, e, types.NewPointer(et), f)), true)
				}
			}
		}
	}
	return e
}

func lastPart(f string) string { return f[strings.LastIndex(f, ".")+1:] }

// directiveEffect: what executing a scanned directive does to the engine.
func (s *Spec) directiveEffect(t *ruleText, x *Spec, l loaded, name, value string, covered map[string]bool) {
	r := s.r
	pe := types.NewPointer(t.engine)
	y := s.sub()
	y.ex.cut = func(f *ssa.Function) bool { return f == t.addRule }
	list := mkSeq([]*Term{mkSingle(l.dir)}, t.all.Signature.Results().At(0).Type())
	y.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if f == t.all {
			return []Outcome{{st: st, rets: []*Term{list, mkNil(nil)}}}, true
		}
		return nil, false
	}
	key := name + " " + value
	for _, o := range y.call(l.st, t.load, mkSym("text", tString)) {
		if !y.must(o.st, mkEq(o.rets[1], mkNil(nil)), "refused by the loader "+key, o.pos, "%s is refused by the loader", key) {
			continue
		}
		e := y.engineSym(o.st, t.engine)
		before := map[string]*Term{}
		fields := engineFields(t.engine)
		for _, f := range fields {
			before[f] = y.get(o.st, e, pe, f)
		}
		want := map[string]*Term{}
		for f, v := range before {
			want[f] = v
		}
		if name == "SecRuleEngine" {
			en := s.method(pe, "Enable")
			con, ok := s.constant("modsecurity", map[string]string{"On": "StatusOn", "Off": "StatusOff", "DetectionOnly": "StatusDect"}[value])
			if en == nil || !ok {
				return
			}
			outs := y.call(o.st, en, e, mkInt(con))
			if len(outs) != 1 {
				r.violate("undecided Enable", s.c.pos(en), "Enable does not have exactly one outcome")
				return
			}
			for _, f := range fields {
				want[f] = y.get(outs[0].st, e, pe, f)
			}
			// a transaction made afterwards is in that mode
			on := value == "On"
			if !eq(outs[0].st, want["Enabled"], mkBool(on)) || !eq(outs[0].st, want["DetectionOnly"], mkBool(value == "DetectionOnly")) {
				r.violate("mode of "+value, s.c.pos(en), "Enable does not select the mode %s", value)
			}
		} else {
			for _, w := range settings {
				if w.directive == name && w.value == value {
					for _, f := range fields {
						if v, ok := w.want[lastPart(f)]; ok {
							want[f] = mkBool(v)
						}
					}
				}
			}
		}
		mark := o.st.ev
		cells := map[*Term]string{}
		for _, f := range fields {
			a, _ := y.addr(o.st, e, pe, f)
			cells[a] = f
		}
		for _, p := range y.call(o.st, t.execute, o.rets[0], e) {
			if !y.must(p.st, mkEq(p.ret(), mkNil(nil)), "execution fails "+key, p.pos, "executing %s may fail", key) {
				continue
			}
			for _, f := range fields {
				g := y.get(p.st, e, pe, f)
				y.expect(eq(p.st, g, want[f]), p.st, "setting "+f+" after "+key, p.pos, "executing %s leaves %s as %s instead of %s", key, f, g, want[f])
			}
			for _, ev := range p.st.ev.since(mark) {
				switch ev.kind {
				case EvStore, EvMapSet, EvMapDel:
					if ev.kind == EvStore && cells[ev.addr] != "" {
						continue
					}
					y.expect(false, p.st, "writes elsewhere "+key, s.c.p.instrPos(ev.instr), "executing %s writes %s", key, ev.addr)
				case EvLoop:
					r.violate("undecided loop "+key, p.pos, "executing %s runs a loop whose number of iterations is not known", key)
				case EvCall:
					if ev.fn == t.addRule {
						r.violate("adds a rule "+key, p.pos, "executing %s adds a rule", key)
					}
				}
			}
			r.count("settings compared", 1)
			r.ok(1)
			covered[key] = true
		}
	}
	y.done()
}

// executeOrder: Execute runs every directive of the set in order until the first error.
func (s *Spec) executeOrder(t *ruleText) {
	c, r := s.c, s.r
	x := s.sub()
	x.ex.noForms = false
	st := x.state()
	ds := mkSym("set", types.NewPointer(t.dset))
	st.assumeQuiet(nonnilCond(ds), true)
	e := x.engineSym(st, t.engine)
	is := func(e *Event) bool {
		return e.kind == EvCall && e.method != nil && strings.HasSuffix(e.callee, "seclang.Dire).Execute")
	}
	se := &searcher{s: x, is: is, val: func(e *Event) *Term { return e.recvOrArg() }, goOn: func(y *State, e *Event) *Term { return mkEq(e.res, mkNil(nil)) }}
	for _, o := range x.call(st, t.execute, ds, e) {
		r.count("paths of Execute", 1)
		m, why := se.run(o.st, o.st.ev.list(), nil)
		if !x.expect(why == "", o.st, "Execute", o.pos, "the directives executed are not those of the set in order: %s", why) {
			continue
		}
		for _, ev := range allEvents(o.st) {
			if is(ev) {
				x.expect(len(ev.args) > 0 && ev.args[len(ev.args)-1] == e, o.st, "engine", c.p.instrPos(ev.instr), "a directive is executed on another engine")
			}
		}
		all := append(append([]nest{}, m.nests...), m.partly...)
		for _, n := range all {
			for _, u := range n.parts() {
				ok := len(u.levels) == 1 && plain(u.levels[0]).op == OpLoad && addrRoot(plain(u.levels[0]).args[0]) == ds && u.equal(nest{u.levels, elemSym(0, elemOf(u.levels[0].typ))})
				x.expect(ok, o.st, "other directives", o.pos, "Execute executes %s", u)
			}
		}
		if m.after != nil {
			r.violate("after an error", c.p.instrPos(m.after.instr), "a directive is executed after one has failed")
		}
		switch {
		case m.stop != nil:
			x.must(o.st, mkEq(o.ret(), m.stop.res), "error lost", o.pos, "Execute does not return the error of the directive that failed")
		case m.broken != nil:
			r.violate("left early", m.broken.pos, "Execute leaves directives out without an error")
		default:
			x.must(o.st, mkEq(o.ret(), mkNil(nil)), "error made up", o.pos, "Execute fails although every directive succeeded")
			if len(m.nests) == 0 {
				x.expect(knownEmpty(o.st, func(l *Term) bool { return plain(l).op == OpLoad && addrRoot(plain(l).args[0]) == ds }), o.st, "nothing executed", o.pos, "Execute succeeds without executing the directives")
			} else {
				x.expect(len(m.nests) == 1, o.st, "executed twice", o.pos, "Execute executes directives more than once: %v", m.nests)
			}
		}
	}
	r.require("paths of Execute", 2)
	x.done()
}

// listOrder: lists of up to three directives take effect in the order written.
func (s *Spec) listOrder(t *ruleText) {
	c, r := s.c, s.r
	bd, td, rd := c.p.typ("seclang/parser", "BoolArgDirective"), c.p.typ("seclang/parser", "TriBoolArgDirective"), c.p.typ("seclang/parser", "RuleDirective")
	reqBody, ok1 := s.constant("seclang/parser", "TkDirReqBody")
	resBody, ok2 := s.constant("seclang/parser", "TkDirResBody")
	eng, ok3 := s.constant("seclang/parser", "TkDirRuleEng")
	opEq, ok4 := s.constant("seclang/parser", "TkOpEq")
	if bd == nil || td == nil || rd == nil || !ok1 || !ok2 || !ok3 || !ok4 {
		r.violate("anchor", "seclang/parser", "the directive types are not found")
		return
	}
	pe := types.NewPointer(t.engine)
	var texts []string
	var gen func(p string)
	gen = func(p string) {
		texts = append(texts, p)
		if len(p) < 3 {
			for _, k := range []string{"q", "s", "e", "r"} {
				gen(p + k)
			}
		}
	}
	gen("")
	fields := engineFields(t.engine)
	for _, text := range texts {
		x := s.sub()
		st := x.state()
		alloc := func(name string, t types.Type) *Term {
			return T.mk(Term{op: OpAlloc, aux: "verif:" + name, typ: types.NewPointer(t)})
		}
		var dirs []*Term
		want := map[string]*Term{}
		var ids []string
		for i, k := range text {
			n := fmt.Sprint("dir", i)
			switch k {
			case 'q', 's':
				d := alloc(n, bd)
				v := mkSym(fmt.Sprint("on", i), types.Typ[types.Bool])
				tk, f := reqBody, "RequestBodyAccess"
				if k == 's' {
					tk, f = resBody, "ResponseBodyAccess"
				}
				x.set(st, d, types.NewPointer(bd), "Tk", mkInt(tk))
				x.set(st, d, types.NewPointer(bd), "Value", v)
				want[f] = v
				dirs = append(dirs, mkSingle(T.mk(Term{op: OpIface, typ: types.NewPointer(bd), args: []*Term{d}})))
			case 'e':
				d := alloc(n, td)
				x.set(st, d, types.NewPointer(td), "Tk", mkInt(eng))
				// alternate the modes so that the last one can be told
				mode, nm := int64(i%3), []string{"TriBoolTrue", "TriBoolElse", "TriBoolFalse"}[i%3]
				if v, ok := s.constant("seclang/parser", nm); ok {
					mode = v
				}
				x.set(st, d, types.NewPointer(td), "Value", mkInt(mode))
				want["Enabled"], want["DetectionOnly"] = mkBool(i%3 == 0), mkBool(i%3 == 1)
				dirs = append(dirs, mkSingle(T.mk(Term{op: OpIface, typ: types.NewPointer(td), args: []*Term{d}})))
			case 'r':
				d := alloc(n, rd)
				pd := types.NewPointer(rd)
				ot := fieldType(rd, "Operator").(*types.Pointer)
				at := fieldType(rd, "Actions").(*types.Pointer)
				op, ac := alloc("op"+n, ot.Elem()), alloc("acts"+n, at.Elem())
				x.set(st, d, pd, "Variable", mkSeq(nil, fieldType(rd, "Variable")))
				x.set(st, d, pd, "Operator", op)
				x.set(st, d, pd, "Actions", ac)
				x.set(st, op, ot, "Tk", mkInt(opEq))
				x.set(st, op, ot, "Not", mkBool(false))
				x.set(st, op, ot, "Argument", mkStr("0"))
				id := mkSym(fmt.Sprint("id", i), tInt)
				ids = append(ids, id.String())
				x.set(st, ac, at, "Id", id)
				x.set(st, ac, at, "Phase", mkInt(2))
				x.set(st, ac, at, "Chain", mkBool(false))
				x.set(st, ac, at, "Trans", mkSeq(nil, fieldType(at.Elem(), "Trans")))
				x.set(st, ac, at, "Action", mkSeq(nil, fieldType(at.Elem(), "Action")))
				dirs = append(dirs, mkSingle(T.mk(Term{op: OpIface, typ: pd, args: []*Term{d}})))
			}
		}
		list := mkSeq(dirs, t.all.Signature.Results().At(0).Type())
		x.ex.cut = func(f *ssa.Function) bool { return f == t.addRule }
		x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
			if f == t.all {
				return []Outcome{{st: st, rets: []*Term{list, mkNil(nil)}}}, true
			}
			if f == t.addRule {
				st.event(&Event{kind: EvCall, callee: relName(f), fn: f, args: args, instr: in})
				return []Outcome{{st: st}}, true
			}
			return nil, false
		}
		for _, o := range x.call(st, t.load, mkSym("text", tString)) {
			x.must(o.st, mkEq(o.rets[1], mkNil(nil)), "list refused", o.pos, "the directives %q are refused", text)
			e := x.engineSym(o.st, t.engine)
			before := map[string]*Term{}
			for _, f := range fields {
				before[f] = x.get(o.st, e, pe, f)
			}
			mark := o.st.ev
			for _, p := range x.call(o.st, t.execute, o.rets[0], e) {
				x.must(p.st, mkEq(p.ret(), mkNil(nil)), "list fails", p.pos, "executing the directives %q may fail", text)
				for _, f := range fields {
					w := before[f]
					if v, ok := want[lastPart(f)]; ok {
						w = v
					}
					g := x.get(p.st, e, pe, f)
					x.expect(eq(p.st, g, w), p.st, "order "+f, p.pos, "after the directives %s the setting %s is %s instead of %s", describeList(text), f, g, w)
				}
				var got []string
				for _, ev := range p.st.ev.since(mark) {
					if ev.kind != EvCall || ev.fn != t.addRule {
						continue
					}
					rl, ok := p.st.listOf(p.st.norm(ev.args[1]))
					if !ok {
						rl = []*Term{ev.args[1]}
					}
					for _, ru := range rl {
						got = append(got, x.get(p.st, ru, t.rt, "Id").String())
					}
				}
				x.expect(strings.Join(got, " ") == strings.Join(ids, " "), p.st, "rules", p.pos, "the directives %s give the engine the rules [%s] instead of [%s]", describeList(text), strings.Join(got, " "), strings.Join(ids, " "))
				r.count("lists of directives compared", 1)
				r.ok(1)
			}
		}
		x.done()
	}
	r.require("lists of directives compared", 85)
}

func describeList(t string) string {
	var out []string
	for _, k := range t {
		out = append(out, map[rune]string{'q': "SecRequestBodyAccess", 's': "SecResponseBodyAccess", 'e': "SecRuleEngine", 'r': "SecRule"}[k])
	}
	return strings.Join(out, ", ")
}
