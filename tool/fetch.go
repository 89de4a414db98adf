package main

import (
	"fmt"
	"go/types"
	"regexp"

	"golang.org/x/tools/go/ssa"
)

// What the lists returned by variables consist of: known values, whole lists, and per
// member of a collection the values that the way through the loop for that member adds.

type fpart struct {
	base   bool  // the list under construction
	one    *Term // a value
	spread *Term // all values of an unknown list
	per    *fper // for each member of a collection
}

type fper struct {
	rec       *LoopRec
	container *Term
	key, elem *Term
	paths     []*fpath
}

type fpath struct {
	st    *State
	parts []fpart
}

type fetchEval struct {
	s    *Spec
	lvs  map[*Term]*LoopRec
	recs []*LoopRec
	why  string // why a list is not understood
}

func (s *Spec) fetchEval(st *State) *fetchEval {
	e := &fetchEval{s: s, lvs: map[*Term]*LoopRec{}}
	for _, ev := range allEvents(st) {
		if ev.kind == EvLoop && ev.loop != nil {
			e.recs = append(e.recs, ev.loop)
			for _, v := range ev.loop.vars {
				e.lvs[v.lv] = ev.loop
			}
		}
	}
	return e
}

func (e *fetchEval) fail(format string, a ...interface{}) ([]fpart, bool) {
	if e.why == "" {
		e.why = fmt.Sprintf(format, a...)
	}
	return nil, false
}

// list: the parts of a list value; base is the list under construction, if any.
func (e *fetchEval) list(st *State, t, base *Term) ([]fpart, bool) {
	t = st.norm(t)
	if t == base && base != nil {
		return []fpart{{base: true}}, true
	}
	if t.isNil() {
		return nil, true
	}
	switch t.op {
	case OpSeq:
		var out []fpart
		for _, it := range t.args {
			switch it.op {
			case OpSingle:
				out = append(out, fpart{one: it.args[0]})
			case OpSpread:
				l, ok := e.list(st, it.args[0], base)
				if !ok {
					return nil, false
				}
				out = append(out, l...)
			default:
				return e.fail("the items %s", clip(it.String(), 100))
			}
		}
		return out, true
	case OpLoopVar:
		if rec := e.lvs[t]; rec != nil {
			return e.loop(st, rec, t, base)
		}
	}
	if l, ok := st.listOf(t); ok {
		var out []fpart
		for _, x := range l {
			out = append(out, fpart{one: x})
		}
		return out, true
	}
	if e.entails0(st, t) {
		return nil, true
	}
	return []fpart{{spread: t}}, true
}

// entails0: the list is known to be empty.
func (e *fetchEval) entails0(st *State, t *Term) bool {
	return isTrue(st, mkEq(t, mkNil(nil))) || isTrue(st, mkLE(toLin(mkLen(t))))
}

// loop: the list that a loop builds in one of its variables.
func (e *fetchEval) loop(st *State, rec *LoopRec, lv, base *Term) ([]fpart, bool) {
	var init *Term
	for _, v := range rec.vars {
		if v.lv == lv {
			init = v.init
		}
	}
	out, ok := e.list(rec.pre, init, base)
	if !ok {
		return nil, false
	}
	p := &fper{rec: rec, container: rec.container, key: rec.key, elem: rec.elem}
	if !e.complete(st, rec) {
		return nil, false
	}
	if rec.container == nil {
		return e.fail("what the loop at %s ranges over", rec.pos)
	}
	for _, o := range rec.backs() {
		if o.st.ex == nil {
			continue
		}
		l, ok := e.list(o.st, o.next[lv], lv)
		if !ok {
			return nil, false
		}
		n := 0
		q := &fpath{st: o.st}
		for _, x := range l {
			if x.base {
				n++
				continue
			}
			q.parts = append(q.parts, x)
		}
		if n != 1 {
			return e.fail("the list built at %s, which is not extended on every way", rec.pos)
		}
		p.paths = append(p.paths, q)
	}
	if x, ok := e.whole(p); ok {
		l, ok := e.list(rec.pre, x, nil)
		return append(out, l...), ok
	}
	if m := p.container; m.op == OpAlloc && rec.kind == "map" {
		c, ok := e.compose(st, p, m)
		if !ok {
			return nil, false
		}
		return append(out, c...), true
	}
	return append(out, fpart{per: p}), true
}

// complete: on this path the loop went over all members.
func (e *fetchEval) complete(st *State, rec *LoopRec) bool {
	for x := st.ends; x != nil; x = x.prev {
		if x.rec == rec {
			if !x.out.normal {
				e.fail("the loop at %s may stop before the last member", rec.pos)
			}
			return x.out.normal
		}
	}
	e.fail("how the loop at %s ends", rec.pos)
	return false
}

// whole: a loop that appends every element of a list is the list.
func (e *fetchEval) whole(p *fper) (*Term, bool) {
	if p.rec.kind != "slice" || len(p.paths) != 1 || len(p.paths[0].parts) != 1 {
		return nil, false
	}
	x := p.paths[0].parts[0].one
	if x == nil {
		return nil, false
	}
	b, at := indexed(x)
	if b == nil || b != p.container || at != p.rec.idx {
		return nil, false
	}
	return p.container, true
}

// isElem: the values of the member, as ranged over or looked up.
func (p *fper) isElem(st *State, t *Term) bool {
	return t == p.elem || st.norm(t) == st.norm(p.elem) || t.op == OpLookup && t.args[0] == p.container && (t.args[1] == p.key || st.norm(t.args[1]) == st.norm(p.key))
}

// entriesAdded: the entries that an iteration adds to a map.
func entriesAdded(rec *LoopRec, o *iterOut, m *Term) (es []mapEntry, ok bool) {
	was, is := rec.hst.maps[m], o.st.maps[m]
	switch {
	case is == nil || was != nil && is.gen == was.gen:
		return nil, true
	case was != nil && len(was.entries) > 0:
		return nil, false
	}
	return is.entries, true
}

// builders: the loops that write into the map.
func (e *fetchEval) builders(m *Term) []*LoopRec {
	var out []*LoopRec
	for _, rec := range e.recs {
		for _, o := range rec.backs() { // the other states went on after the loop
			if is, was := o.st.maps[m], rec.hst.maps[m]; is != nil && (was == nil || is.gen != was.gen) {
				out = append(out, rec)
				break
			}
		}
	}
	return out
}

// compose: the loop runs over a map that another loop filled from a collection, one entry
// per member under the name of the member.
func (e *fetchEval) compose(st *State, p *fper, m *Term) ([]fpart, bool) {
	if c := p.rec.pre.maps[m]; c != nil && c.exact && len(c.entries) == 0 {
		return nil, true
	}
	bs := e.builders(m)
	if len(bs) != 1 || bs[0].kind != "map" || bs[0].container == nil {
		return []fpart{{per: p}}, true
	}
	rec := bs[0]
	if c := rec.pre.maps[m]; c == nil || !c.exact || len(c.entries) != 0 {
		return e.fail("what the map ranged over at %s contains at first", p.rec.pos)
	}
	np := &fper{rec: rec, container: rec.container, key: rec.key, elem: rec.elem}
	if !e.complete(p.rec.pre, rec) {
		return nil, false
	}
	for _, o := range rec.backs() {
		es, ok := entriesAdded(rec, o, m)
		if !ok || len(es) > 1 {
			return e.fail("what the loop at %s writes", rec.pos)
		}
		if len(es) == 0 {
			np.paths = append(np.paths, &fpath{st: o.st})
			continue
		}
		is := func(k *Term) bool { return k == rec.key || o.st.norm(k) == o.st.norm(rec.key) }
		if !is(es[0].k) {
			return []fpart{{per: p}}, true
		}
		// the names of members are distinct and the map was empty: nothing is there yet
		st1 := o.st.clone()
		mem := map[*Term]*Term{}
		fresh := func(t *Term) *Term {
			return rewrite(t, func(x *Term) *Term {
				if x.op == OpLookup && x.args[0] == m && is(x.args[1]) {
					return mkNil(x.typ)
				}
				if x.op == OpHas && x.args[0] == m && is(x.args[1]) {
					return mkBool(false)
				}
				return nil
			}, mem)
		}
		bad := false
		for _, f := range o.facts {
			if g := fresh(f); g != f && !st1.assumeQuiet(g, true) {
				bad = true
			}
		}
		if bad {
			continue
		}
		val := fresh(es[0].v)
		// what is done with the entry
		for _, o2 := range p.paths {
			st2 := st1.clone()
			sub := map[*Term]*Term{}
			inst := func(t *Term) *Term {
				return rewrite(t, func(x *Term) *Term {
					switch {
					case x == p.key:
						return rec.key
					case x == p.elem || x.op == OpLookup && x.args[0] == m && x.args[1] == p.key:
						return val
					}
					return nil
				}, sub)
			}
			bad := false
			var facts []*Term
			for _, o3 := range p.rec.backs() {
				if o3.st == o2.st {
					facts = o3.facts
				}
			}
			for _, f := range facts {
				if f == p.rec.more {
					continue
				}
				if !st2.assumeQuiet(inst(f), true) {
					bad = true
					break
				}
			}
			if bad {
				continue
			}
			q := &fpath{st: st2}
			for _, x := range o2.parts {
				switch {
				case x.one != nil:
					q.parts = append(q.parts, fpart{one: inst(x.one)})
				case x.spread != nil:
					l, ok := e.list(st2, inst(x.spread), nil)
					if !ok {
						return nil, false
					}
					q.parts = append(q.parts, l...)
				default:
					return e.fail("the loop at %s inside another", p.rec.pos)
				}
			}
			np.paths = append(np.paths, q)
		}
	}
	return []fpart{{per: np}}, true
}

// ---- the outside of variables

// fetchHooks: the stored body as a text, aborting as an effect without outcome, regular
// expressions as arbitrary sets of texts.
type fetchHooks struct {
	s       *Spec
	x       *Spec
	body    map[*ssa.Function]string
	abort   *ssa.Function
	aborted *Term // cell: the status given to AbortWithError
	nabort  *Term // cell: how often
	parses  *Term // cell: how often a body is read
	rt      types.Type
}

func (h *fetchHooks) re(text *Term) *Term { return mkPure("verif:re", []*Term{text}, h.rt, 0) }

func (s *Spec) fetchHooks(x *Spec) *fetchHooks {
	h := &fetchHooks{s: s, x: x, body: map[*ssa.Function]string{}, aborted: ghostCell("aborted"), nabort: ghostCell("aborts"), parses: ghostCell("parses")}
	h.abort = s.method(s.tt, "AbortWithError")
	_, bt := fieldIndex(s.tt, "Request")
	if bt != nil {
		_, bt = fieldIndex(bt, "Body")
	}
	if bt == nil || h.abort == nil {
		s.r.violate("anchor", "modsecurity", "Transaction.Request.Body not found")
		return nil
	}
	for _, n := range []string{"String", "Bytes", "Len"} {
		if m := s.c.p.method(bt, n); m != nil {
			h.body[m] = n
		}
	}
	x.ex.hook = h.hook
	return h
}

func bodyText(b *Term) *Term { return mkPure("verif:body", []*Term{b}, tString, 0) }
func bodyLen(b *Term) *Term {
	return mkPure("verif:length", []*Term{b}, types.Typ[types.Int64], 0)
}
func bodyFits(b *Term) *Term   { return mkPure("verif:fits", []*Term{b}, tBool, 0) }
func reValid(text *Term) *Term { return mkPure("verif:valid", []*Term{text}, tBool, 0) }
func reMatch(re, x *Term) *Term {
	return mkPure("verif:match", []*Term{re, x}, tBool, 0)
}
func bodyErr() *Term { return constErr("verif:body does not fit") }

func (h *fetchHooks) hook(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
	if f == h.abort {
		q := st.clone()
		q.store(h.aborted, q.norm(args[1]), tInt)
		n := q.load(h.nabort, tInt)
		q.store(h.nabort, mkAdd(n, mkInt(1)), tInt)
		return []Outcome{{st: q}}, true
	}
	switch n := h.body[f]; n {
	case "Len":
		b := st.norm(args[0])
		q := st.clone()
		l := bodyLen(b)
		q.assumeQuiet(mkLE(toLin(l).scale(-1)), true)
		return []Outcome{{st: q, rets: []*Term{l}}}, true
	case "String", "Bytes":
		b := st.norm(args[0])
		rt := f.Signature.Results().At(0).Type()
		var out []Outcome
		for _, q := range split(st, bodyFits(b)) {
			c := q.load(h.parses, tInt)
			q.store(h.parses, mkAdd(c, mkInt(1)), tInt)
			bump(q, readsOf(b))
			text := bodyText(b)
			err := mkNil(nil)
			if !isTrue(q, bodyFits(b)) {
				text, err = mkPure("verif:truncated", []*Term{b}, tString, 0), bodyErr()
			} else {
				q.assumeQuiet(mkEq(fromLin(toLin(mkLen(text))), bodyLen(b)), true)
			}
			if n == "Bytes" {
				text = T.mk(Term{op: OpConv, args: []*Term{text}, typ: rt})
			}
			out = append(out, Outcome{st: q, rets: []*Term{text, err}})
		}
		return out, true
	}
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "regexp" {
		return nil, false
	}
	switch name := f.Name(); name {
	case "Compile":
		text := st.norm(args[0])
		rt := f.Signature.Results().At(0).Type()
		var out []Outcome
		if w, ok := text.strVal(); ok {
			// whether it is valid is known
			st = st.clone()
			_, err := regexp.Compile(w)
			st.assumeQuiet(reValid(text), err == nil)
		}
		for _, q := range split(st, reValid(text)) {
			if isTrue(q, reValid(text)) {
				h.rt = rt
				re := h.re(text)
				q.assumeQuiet(nonnilCond(re), true)
				out = append(out, Outcome{st: q, rets: []*Term{re, mkNil(nil)}})
			} else {
				out = append(out, Outcome{st: q, rets: []*Term{mkNil(rt), constErr("verif:invalid regular expression")}})
			}
		}
		return out, true
	case "MatchString", "Match", "FindStringIndex", "FindIndex":
		if f.Signature.Recv() == nil {
			return nil, false
		}
		re, x := st.norm(args[0]), st.norm(args[1])
		if b := bytesOf(x); b != nil {
			x = b
		}
		m := reMatch(re, x)
		if name == "MatchString" || name == "Match" {
			return []Outcome{{st: st.clone(), rets: []*Term{m}}}, true
		}
		var out []Outcome
		rt := f.Signature.Results().At(0).Type()
		for _, q := range split(st, m) {
			r := mkNil(rt)
			if isTrue(q, m) {
				r = mkPure("verif:found", []*Term{re, x}, rt, 0)
				q.assumeQuiet(nonnilCond(r), true)
				q.assumeQuiet(mkEq(mkLen(r), mkInt(2)), true)
			}
			out = append(out, Outcome{st: q, rets: []*Term{r}})
		}
		return out, true
	}
	return nil, false
}

func (p fpart) String() string {
	switch {
	case p.one != nil:
		return "value " + clip(p.one.String(), 80)
	case p.spread != nil:
		return "all of " + clip(p.spread.String(), 80)
	case p.per != nil:
		r := "for each of " + clip(p.per.container.String(), 80) + ":"
		for _, q := range p.per.paths {
			r += fmt.Sprintf(" {%s}", partsText(q.parts))
		}
		return r
	}
	return "base"
}

func partsText(ps []fpart) string {
	r := ""
	for i, p := range ps {
		if i > 0 {
			r += ", "
		}
		r += p.String()
	}
	return r
}
