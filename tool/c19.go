package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = checkActionOrder
}

// traceItem: a part of the sequence of calls made by a function; either one call on a
// known receiver or, for every element of a container in order, one call on it if the
// guard holds.
type traceItem struct {
	recv      *Term
	container *Term
	guard     []*Term // on elem
	elem      *Term
	desc      string
}

// doTrace reconstructs the sequence of calls of a method on a path; "" or the reason why
// it is not known.
func (s *Spec) doTrace(st *State, es []*Event, is func(e *Event) bool) ([]traceItem, string) {
	var out []traceItem
	for _, e := range es {
		if is(e) {
			out = append(out, traceItem{recv: e.recvOrArg()})
			continue
		}
		if e.kind != EvLoop || e.loop == nil {
			continue
		}
		rec := e.loop
		any := false
		for _, o := range rec.outs {
			for _, x := range flatten(o.events) {
				if is(x) {
					any = true
				}
			}
		}
		if !any {
			continue
		}
		if rec.kind != "slice" || rec.rev || rec.container == nil {
			return nil, "the loop at " + rec.pos + " does not traverse a slice in order"
		}
		et := rec.elemType()
		var item *traceItem
		for _, o := range rec.outs {
			if o.kind == "panic" {
				continue
			}
			if o.kind != "back" && !o.normal {
				return nil, "the loop at " + rec.pos + " may end early"
			}
			var calls []*Event
			for _, x := range flatten(o.events) {
				if is(x) {
					calls = append(calls, x)
				}
			}
			if len(calls) == 0 {
				continue
			}
			if len(calls) > 1 {
				return nil, "an iteration of the loop at " + rec.pos + " makes several calls"
			}
			if o.normal {
				return nil, "a call at the end of the loop at " + rec.pos
			}
			if item != nil {
				return nil, "several kinds of iterations of the loop at " + rec.pos + " make calls"
			}
			elem := rec.hst.load(mkIndexAddr(rec.container, rec.idx, ptrTo(et)), et)
			if got := calls[0].recvOrArg(); got != elem {
				return nil, fmt.Sprintf("the call in the loop at %s is on %s, not on the element", rec.pos, got)
			}
			item = &traceItem{container: rec.container, guard: rec.guard(o), elem: elem}
		}
		// guards of the other iterations must be the complement: every path through the
		// body is in outs, so nothing else is needed
		if item != nil {
			out = append(out, *item)
		}
	}
	return out, ""
}

func (e *Event) recvOrArg() *Term {
	if e.recv != nil {
		return e.recv
	}
	if len(e.args) > 0 {
		return e.args[0]
	}
	return nil
}

func flatten(es []*Event) []*Event {
	var out []*Event
	seen := map[*LoopRec]bool{}
	var add func(es []*Event)
	add = func(es []*Event) {
		for _, e := range es {
			out = append(out, e)
			if e.kind == EvLoop && e.loop != nil && !seen[e.loop] {
				seen[e.loop] = true
				for _, o := range e.loop.outs {
					add(o.events)
				}
			}
		}
	}
	add(es)
	return out
}

// resolve replaces a container that an earlier loop on the path has filled by the elements
// it was filled from.
func (s *Spec) resolve(st *State, it traceItem) (traceItem, string) {
	for depth := 0; depth < 4; depth++ {
		c := it.container
		if c == nil {
			return it, ""
		}
		var root, key *Term
		switch {
		case c.op == OpLoad && c.args[0].op == OpIndexAddr && freshRoot(addrRoot(c)) || c.op == OpLoad && freshRoot(addrRoot(c.args[0])):
			root = addrRoot(c.args[0])
			if c.args[0].op == OpIndexAddr {
				key = c.args[0].args[1]
			}
		case c.op == OpLookup && freshRoot(c.args[0]):
			root, key = c.args[0], c.args[1]
		default:
			return it, ""
		}
		var src *traceItem
		for _, e := range st.ev.list() {
			if e.kind != EvLoop {
				continue
			}
			got, why := s.fills(e.loop, root, key)
			if why != "" {
				return it, why
			}
			if got != nil {
				if src != nil {
					return it, "several loops fill " + root.String()
				}
				src = got
			}
		}
		if src == nil {
			return it, "nothing is known about " + c.String()
		}
		// elements of the filled container are those of the source
		ng := append([]*Term{}, src.guard...)
		for _, g := range it.guard {
			ng = append(ng, subst(g, it.elem, src.elem))
		}
		it = traceItem{container: src.container, guard: ng, elem: src.elem}
	}
	return it, "containers nested too deeply"
}

// fills: what a loop appends to root[key]: nil if the loop does not write root.
func (s *Spec) fills(rec *LoopRec, root, key *Term) (*traceItem, string) {
	var res *traceItem
	wrote := false
	for _, o := range rec.outs {
		if o.kind == "panic" || o.kind == "exit" && o.normal {
			continue // nothing of the body has run; the state is the one after the loop
		}
		type write struct{ addr, k, val *Term }
		var ev []write
		for _, a := range sortedHeap(o.st) {
			if v := o.st.heap[a]; addrRoot(a) == root && rec.hst.heap[a] != v && !(v.op == OpUnk && v.aux == "alias") {
				var k *Term
				if a.op == OpIndexAddr {
					k = a.args[1]
				}
				ev = append(ev, write{a, k, v})
			}
		}
		if m, h := o.st.maps[root], rec.hst.maps[root]; m != nil && m != h {
			if h == nil || m.gen != h.gen+1 || len(m.entries) != 1 {
				return nil, fmt.Sprint("the loop at ", rec.pos, " fills ", root, " in an unknown way ", "")
			}
			ev = append(ev, write{nil, m.entries[0].k, m.entries[0].v})
		}
		if len(ev) == 0 {
			if o.st.allocG[root] != rec.hst.allocG[root] {
				return nil, "the loop at " + rec.pos + " changes " + root.String() + " in an unknown way"
			}
			continue
		}
		wrote = true
		if len(ev) > 1 || o.kind != "back" || rec.kind != "slice" || rec.rev {
			return nil, fmt.Sprint("the loop at ", rec.pos, " fills ", root, " in an unknown way ")
		}
		et := rec.elemType()
		elem := rec.hst.load(mkIndexAddr(rec.container, rec.idx, ptrTo(et)), et)
		e := ev[0]
		k := e.k
		var old *Term
		v := e.val
		if v == nil || v.op != OpSeq || len(v.args) != 2 || v.args[0].op != OpSpread || v.args[1].op != OpSingle || v.args[1].args[0] != elem {
			return nil, fmt.Sprintf("the loop at %s stores %s", rec.pos, v)
		}
		old = v.args[0].args[0]
		okOld := old.op == OpLoad && old.args[0] == e.addr || old.op == OpLookup && old.args[0] == root && old.args[1] == k
		if !okOld {
			return nil, fmt.Sprintf("the loop at %s does not append to what it stores to: %s", rec.pos, old)
		}
		if key != nil && e.addr != nil {
			if v := rec.pre.load(mkIndexAddr(e.addr.args[0], key, e.addr.typ), nil); !v.isNil() && !isTrue(rec.pre, mkEq(mkLen(v), mkInt(0))) {
				return nil, fmt.Sprintf("%s has elements before the loop at %s: %s", root, rec.pos, v)
			}
		} else if m := rec.pre.maps[root]; key != nil && (m == nil || !m.exact || len(m.entries) > 0) {
			return nil, fmt.Sprintf("%s is not known to be empty before the loop at %s", root, rec.pos)
		}
		if res != nil {
			return nil, "several kinds of iterations of the loop at " + rec.pos + " fill " + root.String()
		}
		g := rec.guard(o)
		if key != nil {
			g = append(append([]*Term{}, g...), mkEq(k, key))
		} else if k != nil {
			return nil, "unknown element of " + root.String()
		}
		res = &traceItem{container: rec.container, guard: g, elem: elem}
	}
	if !wrote {
		return nil, ""
	}
	for _, o := range rec.outs {
		if o.kind != "back" && o.kind != "panic" && !o.normal {
			return nil, "the loop at " + rec.pos + " may end early"
		}
	}
	return res, ""
}

func isGroup(t, elem *Term) bool {
	return t.op == OpPure && strings.HasSuffix(t.aux, ".ActionGroup") && len(t.args) == 1 && t.args[0] == elem
}

func pureGetter(names ...string) func(*types.Func) bool {
	return func(m *types.Func) bool {
		for _, n := range names {
			if m.Name() == n {
				return true
			}
		}
		return false
	}
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func checkActionOrder(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "for an action list of any length, ActionsExecute calls Do on exactly the elements, each once, group by group (metadata, data, non-disruptive, disruptive, flow) in listed order; every built-in action belongs to its documented group"
	s := c.spec(r)
	if s.tt == nil {
		return
	}
	c.actionsRun(s, r)
	order := []string{"ActionGroupMetaData", "ActionGroupData", "ActionGroupNonDisruptive", "ActionGroupDisruptive", "ActionGroupFlow", "ActionGroupCount"}
	num := map[string]int64{}
	for i, n := range order {
		v, ok := s.constant("modsecurity", n)
		if !ok {
			return
		}
		num[n] = v
		s.expect(v == int64(i), nil, "constant "+n, "modsecurity", "%s is %d, the groups must be metadata, data, non-disruptive, disruptive, flow", n, v)
	}
	want := map[string]string{"status": order[1], "log": order[2], "deny": order[3], "block": order[3], "pass": order[3], "allow": order[3], "skip": order[4]}
	seen := map[string]bool{}
	st := s.state()
	s.builtinActions(st, func(k *ssa.Function, x *State, a *Term) {
		name := ""
		for _, o := range s.invoke(x, a, nil, "Name") {
			name, _ = o.st.norm(o.ret()).strVal()
		}
		r.count("action constructors", 1)
		g := s.groupOf(x, a)
		if s.expect(g >= 0 && g < num[order[5]], x, "group of "+k.Name(), c.pos(k), "the group of %s is not a valid constant", k.Name()) {
			if w, ok := want[name]; ok {
				seen[name] = true
				s.expect(g == num[w], x, "group of "+k.Name(), c.pos(k), "action %q belongs to group %d, it must be %s", name, g, w)
			}
		}
	})
	for n := range want {
		s.expect(seen[n], nil, "action "+n, "modsecurity/actions", "no constructor of action %q found", n)
	}
	r.require("action constructors", 7)
	s.done()
}

// actionsRun: ActionsExecute calls Do of every action exactly once, group by group, in
// listed order; without the disruptive group in DetectionOnly mode.
func (c *Ctx) actionsRun(s0 *Spec, r *Report) {
	s := s0.sub()
	fn := s.fn("modsecurity", "ActionsExecute")
	if fn == nil {
		return
	}
	n, ok1 := s.constant("modsecurity", "ActionGroupCount")
	dis, ok2 := s.constant("modsecurity", "ActionGroupDisruptive")
	if !ok1 || !ok2 {
		return
	}
	s.ex.pureInvoke = pureGetter("ActionGroup")
	isDo := func(e *Event) bool { return isIfaceCall(e, "Action", "Do") }
	st := s.state()
	t := s.tx(st)
	as := mkSym("as", fn.Params[1].Type())
	_, _, dect := s.modes(st, t)
	for _, x := range split(st, dect) {
		d := isTrue(x, dect)
		for _, o := range s.call(x, fn, t, as) {
			r.count("paths of ActionsExecute", 1)
			tr, why := s.doTrace(o.st, o.st.ev.since(x.ev), isDo)
			var got []string
			for _, it := range tr {
				if why != "" {
					break
				}
				if it, why = s.resolve(o.st, it); why != "" {
					break
				}
				g := int64(-1)
				if it.container == as && len(it.guard) == 1 {
					for k := int64(0); k < n; k++ {
						if q := it.guard[0]; q.op == OpEq && (q.args[1] == mkInt(k) && isGroup(q.args[0], it.elem) || q.args[0] == mkInt(k) && isGroup(q.args[1], it.elem)) {
							g = k
						}
					}
				}
				if g < 0 {
					why = fmt.Sprintf("Do is called for the elements of %s where %s", it.container, it.guard)
					break
				}
				got = append(got, fmt.Sprint(g))
			}
			if why != "" {
				r.violate("order undecided", c.pos(fn), "the actions that ActionsExecute runs are not known to be each one once in group order: %s", why)
				continue
			}
			var want []string
			for k := int64(0); k < n; k++ {
				if !(d && k == dis) {
					want = append(want, fmt.Sprint(k))
				}
			}
			s.expect(strings.Join(got, " ") == strings.Join(want, " "), o.st, fmt.Sprintf("groups executed, DetectionOnly %v", d), c.pos(fn), "ActionsExecute runs the action groups %v in this order, it must be %v", got, want)
			r.sample("ActionsExecute, DetectionOnly %v: for each group of %v, every action of the group once in listed order", d, got)
			for _, e := range flatten(o.st.ev.list()) {
				if isDo(e) {
					s.expect(len(e.args) == 1 && e.args[0] == t, o.st, "argument of Do", c.p.instrPos(e.instr), "an action is executed with the transaction %s", e.args)
				}
			}
		}
	}
	r.require("paths of ActionsExecute", 2)
	s.done()
	r.assumption("the group of an action does not change while a list of actions is executed")
}
