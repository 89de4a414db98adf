package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ruleText follows the text of one SecRule (variables, operator, actions) through the
// scanner, the loader and Execute.
type ruleText struct {
	s                                           *Spec
	scanner, dset, engine, desc                 *types.Named
	readString, all, execute, addRule, fromName *ssa.Function
	load                                        *ssa.Function
	rt                                          types.Type
	eos                                         *Term
	// what else is replaced while a text is taken
	also func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool)
}

func (s *Spec) ruleText() *ruleText {
	c := s.c
	t := &ruleText{s: s}
	t.scanner, t.dset, t.engine, t.desc = c.p.typ("seclang/parser", "Scanner"), c.p.typ("seclang", "DireSet"), c.p.typ("modsecurity", "Engine"), c.p.typ("seclang/parser", "DirectiveDesc")
	t.rt = s.ruleType()
	if t.scanner == nil || t.dset == nil || t.engine == nil || t.desc == nil || t.rt == nil {
		s.r.violate("anchor", "seclang", "types of the rule language not found")
		return nil
	}
	t.readString = s.method(types.NewPointer(t.scanner), "ReadString")
	t.all = s.method(types.NewPointer(t.scanner), "AllDirective")
	t.execute = s.method(types.NewPointer(t.dset), "Execute")
	t.addRule = s.method(types.NewPointer(t.engine), "AddSecRule")
	t.fromName = s.fn("seclang/parser", "DirectiveFromString")
	t.load = s.fn("seclang", "NewDireSetFromSecLangString")
	g := c.p.global("seclang/parser", "ErrEOS")
	if t.readString == nil || t.all == nil || t.execute == nil || t.addRule == nil || t.fromName == nil || t.load == nil || g == nil {
		return nil
	}
	t.eos = T.mk(Term{op: OpGlobal, g: g, typ: g.Type()})
	return t
}

// callValue calls a function value.
func (s *Spec) callValue(st *State, f *Term, args ...*Term) ([]Outcome, bool) {
	f = st.norm(f)
	if f.op != OpFunc && f.op != OpClosure {
		return nil, false
	}
	s2 := st.clone()
	s2.ex = s.ex
	var bind []*Term
	if f.op == OpClosure {
		bind = f.args
	}
	var out []Outcome
	for _, o := range s.ex.execFn(f.fn, args, bind, s2, 0, nil, nil) {
		if o.panic {
			s.r.count("panicking paths left out", 1)
			continue
		}
		out = append(out, o)
	}
	return out, true
}

// loaded is one way in which a rule text is taken.
type loaded struct {
	st   *State
	rule *Term // nil if refused
	err  *Term
	pos  string
	// the directive as scanned, nil if scanning refused the text
	dir  *Term
	base *Event // events before the rule was compiled
	// directives that follow it in the text
	rest []*Term
}

// scan: the directive name with its quoted parts as scanned.
func (t *ruleText) scan(x *Spec, st *State, name string, parts []*Term) []loaded {
	s := t.s
	x.ex.unrollMaps = true
	var out []loaded
	g := ghostCell("parts")
	st.heap[g] = mkInt(0)
	x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if f != t.readString {
			if t.also != nil {
				return t.also(f, st, args, in)
			}
			return nil, false
		}
		i, ok := st.heap[g].intVal()
		if !ok {
			s.r.violate("undecided parts", x.c.p.instrPos(in), "the number of parts read before is not known")
			return []Outcome{{st: st, rets: []*Term{mkStr(""), mkNil(nil)}}}, true
		}
		if int(i) >= len(parts) {
			return []Outcome{{st: st, rets: []*Term{mkStr(""), st.load(t.eos, errorType)}}}, true
		}
		st.heap[g] = mkInt(i + 1)
		return []Outcome{{st: st, rets: []*Term{parts[i], mkNil(nil)}}}, true
	}
	assumeAtoms(st, parts...)
	for _, o := range x.call(st, t.fromName, mkStr(name)) {
		d := o.st.norm(o.rets[0])
		if d.isNil() {
			out = append(out, loaded{st: o.st, err: constErr("unknown directive"), pos: o.pos})
			continue
		}
		f := x.get(o.st, d, types.NewPointer(t.desc), "Func")
		sc := mkSym("scanner", types.NewPointer(t.scanner))
		o.st.assumeQuiet(nonnilCond(sc), true)
		outs, ok := x.callValue(o.st, f, sc)
		if !ok {
			s.r.violate("undecided scanner of "+name, x.c.pos(t.fromName), "the function scanning %s is not known: %s", name, f)
			continue
		}
		for _, p := range outs {
			for _, q := range split(p.st, mkEq(p.rets[1], mkNil(nil))) {
				l := loaded{st: q, pos: p.pos, err: q.norm(p.rets[1])}
				if v, k := q.eval(mkEq(l.err, mkNil(nil))); k && v {
					l.err, l.dir = mkNil(nil), p.rets[0]
				}
				out = append(out, l)
			}
		}
	}
	return out
}

// compile: the directive set loaded from the scanned directives and executed; the rules
// given to the engine.
func (t *ruleText) compile(x *Spec, l loaded) []loaded {
	s := t.s
	dirT := t.all.Signature.Results().At(0).Type()
	one := []*Term{mkSingle(l.dir)}
	for _, d := range l.rest {
		one = append(one, mkSingle(d))
	}
	list := mkSeq(one, dirT)
	x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if f == t.all {
			return []Outcome{{st: st, rets: []*Term{list, mkNil(nil)}}}, true
		}
		if t.also != nil {
			return t.also(f, st, args, in)
		}
		return nil, false
	}
	old := x.ex.cut
	x.ex.cut = func(f *ssa.Function) bool { return f == t.addRule || old != nil && old(f) }
	defer func() { x.ex.cut = old }()
	base := l.st.ev
	var out []loaded
	for _, o := range x.call(l.st, t.load, mkSym("text", tString)) {
		for _, q := range split(o.st, mkEq(o.rets[1], mkNil(nil))) {
			n := loaded{st: q, pos: o.pos, err: q.norm(o.rets[1]), dir: l.dir, base: base, rest: l.rest}
			if v, k := q.eval(mkEq(n.err, mkNil(nil))); !k || !v {
				out = append(out, n)
				continue
			}
			e := mkSym("engine", types.NewPointer(t.engine))
			q.assumeQuiet(nonnilCond(e), true)
			mark := q.ev
			for _, p := range x.call(q, t.execute, o.rets[0], e) {
				for _, q := range split(p.st, mkEq(p.ret(), mkNil(nil))) {
					n := loaded{st: q, pos: p.pos, err: q.norm(p.ret()), dir: l.dir, base: base, rest: l.rest}
					if v, k := q.eval(mkEq(n.err, mkNil(nil))); k && v {
						n.err = mkNil(nil)
						var rules []*Term
						for _, ev := range q.ev.since(mark) {
							if ev.kind == EvCall && ev.fn == t.addRule {
								rl, ok := q.listOf(q.norm(ev.args[1]))
								if !ok {
									rl = []*Term{ev.args[1]}
								}
								rules = append(rules, rl...)
							}
						}
						if len(rules) == 1 {
							n.rule = q.norm(rules[0])
						} else {
							s.r.violate("one rule", p.pos, "a text with one rule gives the engine %d rules", len(rules))
							continue
						}
					}
					out = append(out, n)
				}
			}
		}
	}
	return out
}

// rule: a rule text taken all the way.
func (t *ruleText) rule(x *Spec, st *State, variables, operator, actions *Term) []loaded {
	var out []loaded
	for _, l := range t.scan(x, st, "SecRule", []*Term{variables, operator, actions}) {
		if l.dir == nil {
			out = append(out, l)
			continue
		}
		out = append(out, t.compile(x, l)...)
	}
	return out
}

// list: a list-valued field of a rule as its elements.
func (t *ruleText) list(x *Spec, l loaded, field string) ([]*Term, bool) {
	v := l.st.norm(x.get(l.st, l.rule, t.rt, field))
	return l.st.listOf(v)
}

// name: what Name() of a part says, "" if it is not a constant.
func (t *ruleText) name(x *Spec, st *State, part *Term) string {
	name := ""
	x.ex.hook = nil
	for i, o := range x.invoke(st, part, nil, "Name") {
		n, ok := o.st.norm(o.ret()).strVal()
		if !ok || i > 0 && n != name {
			return ""
		}
		name = n
	}
	return name
}

var _ = fmt.Sprint
