package main

import (
	"go/types"
	"strings"
)

func init() { checks["C03"] = checkNewTransactions }

// configType: objects a transaction may share, which processing never writes (C01).
func configType(t types.Type) bool {
	for {
		p, ok := t.(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	switch strings.TrimPrefix(typeStr(t), repoMod+"/") {
	case "modsecurity.Engine", "modsecurity.Limits", "modsecurity.Config", "modsecurity.SecRuleSet":
		return true
	}
	return false
}

// checkNewTransactions: C03.
func checkNewTransactions(c *Ctx, r *Report) {
	r.method = methodAI + " Ownership: every cell reachable from the new transaction is enumerated on each path."
	r.rule = "every path of a function that returns a new transaction returns either an error and nil, or no error and a transaction whose getters and exported fields are the documented clean values, every reachable pointer, slice and map of which (engine and rule set aside) is allocated on that path and held in one place only, and whose bodies accept a first write exactly up to the engine's limits"
	s := c.spec(r)
	if s.tt == nil {
		return
	}
	begin, ok1 := s.constant("modsecurity", "PhaseBegin")
	start, ok2 := s.constant("modsecurity", "StatusNotStarted")
	if !ok1 || !ok2 {
		return
	}
	q := s.quiet()
	for _, fn := range c.p.funcs {
		if fn.Parent() != nil || !exportedName(fn.Name()) || fn.Synthetic != "" {
			continue
		}
		ti, ei := -1, -1
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rt := fn.Signature.Results().At(i).Type()
			if types.Identical(rt, s.tt) {
				ti = i
			}
			if types.Identical(rt, types.Universe.Lookup("error").Type()) {
				ei = i
			}
		}
		if ti < 0 {
			continue
		}
		name := relName(fn)
		r.count("functions that create transactions", 1)
		st := s.state()
		args := s.args(st, fn, nil)
		var engine, rules *Term
		for i, p := range fn.Params {
			switch strings.TrimPrefix(typeStr(p.Type()), "*"+repoMod+"/modsecurity.") {
			case "Engine":
				engine = args[i]
			case "SecRuleSet":
				rules = args[i]
			}
		}
		if engine == nil {
			r.violate("anchor "+name, c.pos(fn), "%s has no engine", name)
			continue
		}
		et := fn.Params[0].Type()
		for i, p := range fn.Params {
			if args[i] == engine {
				et = p.Type()
			}
		}
		if ei < 0 {
			r.violate("no error "+name, c.pos(fn), "%s cannot report an error", name)
			continue
		}
		// constructors that return an existing transaction are no constructors
		good := 0
		for _, o := range s.call(st, fn, args...) {
			t, e := o.st.norm(o.st.canon(o.rets[ti])), o.st.norm(o.st.canon(o.rets[ei]))
			r.count("paths of constructors", 1)
			failed := isTrue(o.st, mkEq(t, mkNil(nil)))
			if failed {
				s.expect(isTrue(o.st, nonnilCond(e)), o.st, name+" nil", o.pos, "%s returns neither a transaction nor an error", name)
				continue
			}
			if !s.expect(isTrue(o.st, mkEq(e, mkNil(nil))), o.st, name+" error", o.pos, "%s returns a transaction together with an error (%s)", name, e) {
				continue
			}
			if !s.expect(freshRoot(t), o.st, name+" fresh", o.pos, "%s returns %s, which is not newly allocated", name, t) {
				continue
			}
			good++
			x := o.st
			w := &owned{s: s, st: x, at: map[*Term]string{}, name: name, pos: o.pos}
			w.object(t, s.tt, "")
			r.count("cells of new transactions", w.n)
			// what the host and the rules see
			clean := func(what string, cond *Term) {
				s.must(x, cond, name+" "+what, o.pos, "%s: %s of a new transaction is %s", name, what, x.norm(q.get(x, t, s.tt, what)))
				r.count("clean fields", 1)
			}
			f := func(path string) *Term { return q.get(x, t, s.tt, path) }
			is := func(path string, v *Term) { clean(path, mkEq(f(path), v)) }
			is("Engine", engine)
			if rules != nil {
				is("RuleSet", rules)
			} else {
				is("RuleSet", q.get(x, engine, et, "RuleSet"))
			}
			clean("Abort", mkNot(f("Abort")))
			for _, p := range []string{"NetInfo", "Request", "Response", "Errors", "Request.Body", "Response.Body", "Data", "VariableCache"} {
				s.must(x, nonnilCond(f(p)), name+" "+p+" present", o.pos, "%s: %s of a new transaction is missing", name, p)
			}
			for _, p := range []string{"SrcIp", "SrcPort", "DstIp", "DstPort", "Method", "Request.Proto", "Response.Proto"} {
				is(p, mkStr(""))
			}
			is("URL", mkNil(nil))
			is("Response.Code", mkInt(0))
			is("RequestBodyError", mkNil(nil))
			for _, p := range []string{"Request.Header", "Response.Header", "Data", "VariableCache"} {
				m := f(p)
				mc := x.maps[m]
				s.expect(m.isNil() || freshRoot(m) && mc != nil && mc.exact && len(mc.entries) == 0, x, name+" "+p, o.pos, "%s: %s of a new transaction is %s, not empty", name, p, m)
				r.count("clean fields", 1)
			}
			for _, g := range []struct {
				n string
				v int64
			}{{"CurrentPhase", begin}, {"CurrentRule", start}, {"NextRule", 0}} {
				v := q.getter(x, t, g.n)
				s.expect(eq(x, v, mkInt(g.v)), x, name+" "+g.n, o.pos, "%s: %s of a new transaction is %s", name, g.n, v)
				r.count("clean fields", 1)
			}
			for _, v := range q.verdicts(x, t) {
				s.expect(eq(v.st, s.vget(v, "Status"), mkInt(200)), v.st, name+" Status", o.pos, "%s: the status of a new transaction is %s", name, s.vget(v, "Status"))
				s.expect(isTrue(v.st, mkNot(s.vget(v, "Disruptive"))), v.st, name+" Disruptive", o.pos, "%s: a new transaction is disrupted", name)
				s.expect(eq(v.st, mkLen(s.vget(v, "Log")), mkInt(0)), v.st, name+" Log", o.pos, "%s: the log of a new transaction is not empty", name)
				s.expect(eq(v.st, s.vget(v, "Url"), mkNil(nil)), v.st, name+" Url", o.pos, "%s: a new transaction has a redirect URL", name)
				s.expect(eq(v.st, s.vget(v, "Pause"), mkInt(0)), v.st, name+" Pause", o.pos, "%s: a new transaction has a pause", name)
				r.count("clean fields", 5)
			}
			// the bodies
			lim := func(p string) *Term { return q.get(st, engine, et, p) }
			c.newBody(s, r, x, t, "AppendRequestBody", name, o.pos, lim("RequestBodyInMem"), lim("RequestBody"), lim("TmpPath"))
			c.newBody(s, r, x, t, "AppendResponseBody", name, o.pos, lim("ResponseBody"), lim("ResponseBody"), lim("TmpPath"))
			for _, b := range []string{"Request.Body", "Response.Body"} {
				a, bt := q.addr(x, t, s.tt, b)
				if a == nil {
					continue
				}
				body := x.load(a, bt)
				for _, l := range q.invoke(x, body, bt, "Len") {
					s.expect(eq(l.st, l.ret(), mkInt(0)), l.st, name+" "+b, o.pos, "%s: %s of a new transaction has %s bytes", name, b, l.ret())
				}
			}
		}
		s.expect(good > 0, nil, name+" never", c.pos(fn), "%s never makes a transaction", name)
	}
	r.require("functions that create transactions", 2)
	r.require("clean fields", 40)
	r.require("cells of new transactions", 40)
	r.require("first body writes", 8)
	s.done()
	r.assumption("the engine's limits are not negative; opening a temporary file may fail")
}

// newBody: the first write to a body of a new transaction.
func (c *Ctx) newBody(s *Spec, r *Report, st *State, t *Term, method, name, pos string, mem, total, dir *Term) {
	m := s.method(s.tt, method)
	if m == nil || len(m.Params) != 2 {
		return
	}
	st = st.clone()
	p := mkSym("p", m.Params[1].Type())
	n := mkLen(p)
	over := mkNot(mkLE(toLin(n).add(toLin(total), -1))) // len(p) > total
	big := mkNot(mkLE(toLin(n).add(toLin(mem), -1)))    // len(p) > mem
	key := name + " " + method
	for _, o := range s.call(st, m, t, p) {
		file := false
		for _, e := range o.st.ev.since(st.ev) {
			if e.kind == EvCall && (strings.HasSuffix(e.callee, ".TempFile") || strings.HasSuffix(e.callee, ".CreateTemp")) {
				file = true
				s.expect(len(e.args) > 0 && eq(o.st, e.args[0], dir), o.st, key+" dir", c.p.instrPos(e.instr), "%s: the body of a new transaction is stored in %s instead of the engine's TmpPath", key, e.args[0])
			}
		}
		r.count("first body writes", 1)
		err := o.ret()
		if file {
			s.must(o.st, big, key+" mem", o.pos, "%s: a body may be stored in a file although it is within the engine's memory limit", key)
			s.must(o.st, mkNot(over), key+" total", o.pos, "%s: a body beyond the engine's limit may be stored", key)
			continue
		}
		for _, y := range split(o.st, mkEq(err, mkNil(nil))) {
			if isTrue(y, mkEq(err, mkNil(nil))) {
				s.must(y, mkNot(big), key+" mem", o.pos, "%s: a body beyond the engine's memory limit may be kept in memory", key)
				s.must(y, mkNot(over), key+" total", o.pos, "%s: a body beyond the engine's limit may be stored", key)
			} else {
				s.must(y, over, key+" refused", o.pos, "%s: a body within the engine's limit may be refused (%s)", key, err)
			}
		}
	}
}

// owned enumerates what a new object reaches.
type owned struct {
	s    *Spec
	st   *State
	at   map[*Term]string // object -> where it is held
	name string
	pos  string
	n    int
}

func (w *owned) object(p *Term, t types.Type, path string) {
	fs := derefStruct(t)
	if fs == nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			w.value(w.st.load(p, pt.Elem()), pt.Elem(), path)
		}
		return
	}
	if opaqueStruct(t.Underlying().(*types.Pointer).Elem()) {
		return
	}
	for i := 0; i < fs.NumFields(); i++ {
		ft := fs.Field(i).Type()
		w.value(w.st.load(mkFieldAddr(p, i, types.NewPointer(ft)), ft), ft, path+"."+fs.Field(i).Name())
	}
}

func (w *owned) value(v *Term, t types.Type, path string) {
	w.n++
	v = w.st.norm(w.st.canon(v))
	key := w.name + " owns " + path
	bad := func(format string, a ...interface{}) {
		w.s.expect(false, w.st, key, w.pos, format, a...)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			w.value(mkField(v, i, u.Field(i).Type()), u.Field(i).Type(), path+"."+u.Field(i).Name())
		}
		return
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		if v.isNil() || configType(t) {
			w.s.expect(true, nil, key, w.pos, "")
			return
		}
	case *types.Interface:
		if v.isNil() {
			return
		}
		if v.op != OpIface {
			bad("%s: %s of a new transaction is %s, which is not known to be its own", w.name, path, v)
			return
		}
		w.value(v.args[0], v.typ, path)
		return
	case *types.Signature:
		if v.isNil() || v.op == OpFunc {
			return
		}
		bad("%s: %s of a new transaction is the function value %s", w.name, path, v)
		return
	case *types.Array:
		return
	default: // numbers, strings, booleans
		if !v.isConst() && !w.fromLimits(v) {
			bad("%s: %s of a new transaction is %s, which is neither a constant nor a setting of the engine", w.name, path, v)
		}
		w.s.expect(true, nil, key, w.pos, "")
		return
	}
	root := v
	if root.op == OpSlice {
		root = root.args[0]
	}
	if (!freshRoot(root) || w.s.c.initObj(root)) && !w.freshCall(root) {
		bad("%s: %s of a new transaction is %s, which it does not own alone", w.name, path, v)
		return
	}
	if strings.HasPrefix(root.aux, "bytes.NewBuffer") && len(root.args) == 1 {
		w.s.expect(eq(w.st, mkLen(root.args[0]), mkInt(0)), w.st, key+" content", w.pos, "%s: %s of a new transaction already has content", w.name, path)
	}
	if old, dup := w.at[root]; dup {
		bad("%s: %s and %s of a new transaction are the same object", w.name, old, path)
		return
	}
	w.at[root] = path
	w.s.expect(true, nil, key, w.pos, "")
	if _, ok := t.Underlying().(*types.Pointer); ok {
		w.object(v, t, path)
	}
	if mc := w.st.maps[root]; mc != nil {
		mt := t.Underlying().(*types.Map)
		for _, e := range mc.entries {
			w.value(e.v, mt.Elem(), path+"[]")
		}
	}
}

// fromLimits: a setting of the engine.
func (w *owned) fromLimits(v *Term) bool {
	return v.op == OpLoad && v.args[0].op == OpFieldAddr && configType(v.args[0].args[0].typ)
}

// freshCall: the result of an external constructor that got nothing to share.
func (w *owned) freshCall(v *Term) bool {
	if v.op == OpExtract {
		v = v.args[0]
	}
	if v.op != OpCall && v.op != OpPure {
		return false
	}
	for _, a := range v.args {
		if a == nil || a.isConst() || a.isNil() || freshRoot(a) {
			continue
		}
		if a.typ != nil {
			switch a.typ.Underlying().(type) {
			case *types.Basic:
				continue
			}
		}
		return false
	}
	return true
}
