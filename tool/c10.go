package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkSelectors }

// selector is one selector given to a collection variable.
type selector struct {
	include bool
	text    *Term
	re      *Term // the text between the slashes, nil: a name
}

func (x selector) String() string {
	r := "!"
	if x.include {
		r = ""
	}
	return r + selText(x.text)
}

func selText(t *Term) string {
	r := ""
	for _, p := range ropeOf(t) {
		if w, ok := p.strVal(); ok {
			r += w
		} else {
			r += strings.TrimPrefix(p.aux, "text:")
		}
	}
	return r
}

func selsText(sels []selector) string {
	var out []string
	for _, x := range sels {
		out = append(out, x.String())
	}
	return strings.Join(out, " ")
}

// The collection variables.
var collections = []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"}

type selCheck struct {
	*Spec
	x   *Spec
	h   *fetchHooks
	n   int
	key string
	pos string
}

func checkSelectors(c *Ctx, r *Report) {
	r.method = methodAI + " A returned list is read as what the loops that built it add for each member of a collection."
	r.rule = "for every collection variable, any transaction and every sequence of up to two (some of up to four) include and exclude selectors with arbitrary texts: each way through the loop over the members adds exactly the values (the name) of the member if the facts of the way entail that the member is selected, and nothing if they entail that it is not, and they entail one of both; a selector between slashes is compiled as a regular expression, an invalid one gives an error, any other text is a name; rule texts combining selectors, exclusions and counts compile to the variables with these selectors"
	s := c.spec(r)
	done := map[string]bool{}
	for _, f := range s.constructors("modsecurity/variables", "Variable") {
		if f.Signature.Params().Len() != 0 {
			continue
		}
		s.selectorsOf(f, done)
	}
	for _, n := range collections {
		if !done[n] {
			r.violate("no collection "+n, "modsecurity/variables", "no constructor makes a variable named %q", n)
		}
	}
	s.ruleSelectors()
	s.done()
	r.require("collection variables", 12)
	r.require("selector sequences", 300)
	r.require("ways per member judged", 1000)
	r.require("rule texts", 60)
	r.assumption("Go maps have distinct keys and range visits each once; regexp.Compile refuses exactly the invalid texts and MatchString is a function of expression and text. What the collections contain is C09's matter; which values are inspected how, C12's. Texts of selectors in rules contain no comma and no bar. Unspecified: the selector // ; an exclusion of a variable that the rule does not list; the order of variables and of values of a collection")
}

func (s *Spec) selectorsOf(f *ssa.Function, done map[string]bool) {
	r := s.r
	x := s.sub()
	sc := &selCheck{Spec: s}
	st := x.state()
	for _, o := range x.call(st, f) {
		v := o.st.norm(o.ret())
		name := ""
		for _, p := range x.invoke(o.st, v, nil, "Name") {
			name, _ = p.st.norm(p.ret()).strVal()
		}
		known := false
		for _, n := range collections {
			known = known || n == name
		}
		if !known {
			continue
		}
		done[name] = true
		r.count("collection variables", 1)
		var seqs [][]selector
		name1 := func(inc bool) selector {
			sc.n++
			return selector{inc, mkAtom(fmt.Sprintf("name%d", sc.n), "/", 1), nil}
		}
		re1 := func(inc bool) selector {
			sc.n++
			a := mkAtom(fmt.Sprintf("expr%d", sc.n), "", 1)
			return selector{inc, mkText("/", a, "/"), a}
		}
		shape := func(inc bool) []selector {
			a, b := name1(inc).text, name1(inc).text
			any := re1(inc).re
			return []selector{
				{inc, a, nil}, {inc, mkText("/", a), nil}, {inc, mkText(a, "/"), nil}, {inc, mkStr("/"), nil}, {inc, mkStr(""), nil}, {inc, mkText(a, "/", b), nil},
				{inc, mkText("/", a, "/", b), nil}, {inc, mkText(a, "/", b, "/"), nil}, {inc, mkText("a", any, "b"), nil}, {inc, mkText("/", any, "b"), nil}, {inc, mkText("a", any, "/"), nil},
				{inc, mkText("/", a, "/"), a}, {inc, mkText("/", any, "/"), any}, {inc, mkText("//", any, "/"), mkText("/", any)}, {inc, mkText("/", any, "//"), mkText(any, "/")},
			}
		}
		kinds := []func() selector{func() selector { return name1(true) }, func() selector { return re1(true) }, func() selector { return name1(false) }, func() selector { return re1(false) }}
		seqs = append(seqs, nil)
		for _, inc := range []bool{true, false} {
			for _, sh := range shape(inc) {
				seqs = append(seqs, []selector{sh})
			}
		}
		for _, k := range []string{"00", "01", "02", "03", "10", "11", "12", "13", "20", "21", "22", "23", "30", "31", "32", "33", "000", "111", "222", "333", "0123", "3210", "0213"} {
			var q []selector
			for _, d := range k {
				q = append(q, kinds[d-'0']())
			}
			seqs = append(seqs, q)
		}
		for _, sels := range seqs {
			r.count("selector sequences", 1)
			sc.x = s.sub()
			if sc.h = s.fetchHooks(sc.x); sc.h == nil {
				return
			}
			st := sc.x.state()
			t := sc.x.tx(st)
			if len(sels) > 1 {
				// a request with all there can be
				for _, f := range []*Term{mkEq(s.get(st, t, s.tt, "Request.Method"), mkStr("POST")), s.get(st, t, s.tt, "Engine.RequestBodyAccess"),
					nonnilCond(s.get(st, t, s.tt, "Request.URL")), mkLE(lin{k: 1}.add(toLin(bodyLen(s.get(st, t, s.tt, "Request.Body"))), -1))} {
					st.assumeQuiet(f, true)
				}
			}
			for _, o := range sc.x.call(st, f) {
				sc.sequence(name, o.st, o.st.norm(o.ret()), t, sels)
			}
			sc.x.done()
		}
	}
	x.done()
}

// sequence: the selectors given one after the other, then the values fetched.
func (sc *selCheck) sequence(name string, st *State, v, t *Term, sels []selector) {
	x := sc.x
	cur := []*State{st}
	sc.key = name + " " + selsText(sels)
	for _, sel := range sels {
		method := "Exclude"
		if sel.include {
			method = "Include"
		}
		var next []*State
		for _, c := range cur {
			assumeAtoms(c, sel.text)
			for _, o := range x.invoke(c, v, nil, method, sel.text) {
				err := o.st.norm(o.ret())
				for _, q := range split(o.st, mkEq(err, mkNil(nil))) {
					good := isTrue(q, mkEq(err, mkNil(nil)))
					if sel.re == nil {
						if x.expect(good, q, sc.key+" "+method, o.pos, "%s: %s(%s) gives an error", name, method, selText(sel.text)) {
							next = append(next, q)
						}
						continue
					}
					valid := reValid(q.norm(sel.re))
					if good {
						if x.expect(isTrue(q, valid), q, sc.key+" "+method, o.pos, "%s: %s(%s) takes an expression that may be invalid", name, method, selText(sel.text)) {
							next = append(next, q)
						}
					} else {
						x.expect(isTrue(q, mkNot(valid)), q, sc.key+" "+method, o.pos, "%s: %s(%s) refuses an expression that may be valid", name, method, selText(sel.text))
					}
				}
			}
		}
		cur = next
	}
	for _, c := range cur {
		for _, o := range x.invoke(c, v, nil, "Fetch", t) {
			sc.pos = o.pos
			sc.fetched(name, o.st, o.ret(), sels)
		}
	}
	if len(cur) == 0 {
		x.expect(false, st, sc.key, name, "%s cannot be given the selectors %s", name, selsText(sels))
	}
}

// fetched judges a returned list.
func (sc *selCheck) fetched(name string, st *State, ret *Term, sels []selector) {
	e := sc.x.fetchEval(st)
	parts, ok := e.list(st, ret, nil)
	sc.r.count("results judged", 1)
	if !ok {
		sc.x.expect(false, st, sc.key+" list", sc.pos, "%s: cannot tell what is returned: %s", sc.key, e.why)
		return
	}
	for _, p := range parts {
		if p.per == nil {
			sc.x.expect(false, st, sc.key+" outside", sc.pos, "%s: %s is returned whatever the selectors say", sc.key, p)
			continue
		}
		sc.members(name, p.per, sels)
	}
}

func (sc *selCheck) members(name string, p *fper, sels []selector) {
	x := sc.x
	if p.key == nil || p.elem == nil {
		x.expect(false, p.rec.pre, sc.key+" loop", p.rec.pos, "%s: the loop at %s does not go over named members", sc.key, p.rec.pos)
		return
	}
	if len(p.paths) == 0 {
		x.expect(false, p.rec.pre, sc.key+" loop", p.rec.pos, "%s: the loop at %s adds nothing for any member", sc.key, p.rec.pos)
	}
	for _, q := range p.paths {
		sc.r.count("ways per member judged", 1)
		var inc, exc []*Term
		nameT := q.st.norm(p.key)
		for _, s := range sels {
			var f *Term
			if s.re == nil {
				f = x.ex.equal(q.st, nameT, q.st.norm(s.text))
			} else {
				f = reMatch(sc.h.re(q.st.norm(s.re)), nameT)
			}
			if s.include {
				inc = append(inc, f)
			} else {
				exc = append(exc, f)
			}
		}
		var conds []*Term
		if len(inc) > 0 {
			conds = append(conds, mkOr(inc))
		}
		for _, f := range exc {
			conds = append(conds, mkNot(f))
		}
		selected := mkAnd(conds)
		var states []*State
		if v, ok := selected.boolVal(); ok {
			_ = v
			states = []*State{q.st}
		} else {
			states = split(q.st, selected)
		}
		for _, m := range states {
			if !m.saturate() {
				continue
			}
			is := isTrue(m, selected)
			n := 0
			for _, it := range q.parts {
				switch {
				case it.one != nil && strings.HasSuffix(name, "_NAMES") && m.norm(it.one) == m.norm(p.key):
					n++
				case it.spread != nil && !strings.HasSuffix(name, "_NAMES") && p.isElem(m, it.spread):
					n++
				default:
					n = -100
				}
			}
			empty := !strings.HasSuffix(name, "_NAMES") && isTrue(m, mkLE(toLin(mkLen(p.elem))))
			for _, it := range q.parts {
				empty = empty || it.spread != nil && p.isElem(m, it.spread) && isTrue(m, mkLE(toLin(mkLen(it.spread))))
			}
			switch {
			case n < 0:
				x.expect(false, m, sc.key+" what", sc.pos, "%s: for a member, %s is returned", sc.key, partsText(q.parts))
			case is && n != 1 && !empty:
				x.expect(false, m, sc.key+" missing", sc.pos, "%s: a selected member is returned %d times", sc.key, n)
			case !is && n != 0 && !empty:
				x.expect(false, m, sc.key+" extra", sc.pos, "%s: a member that is not selected is returned", sc.key)
			}
		}
	}
}

// ---- in rules

type expectedVar struct {
	name  string
	count bool
	sels  []selector
}

func (s *Spec) ruleSelectors() {
	t := s.ruleText()
	if t == nil {
		return
	}
	n := 0
	type item struct {
		neg, count bool
		name       string
		re, plain  bool
		sep        string
	}
	parse := func(spec, v, w string) []item {
		var out []item
		for _, f := range strings.Split(spec, " ") {
			var it item
			it.sep = ":"
			if f[0] == '!' {
				it.neg, f = true, f[1:]
			} else if f[0] == '&' {
				it.count, f = true, f[1:]
			}
			it.name = v
			if f[0] == 'W' {
				it.name = w
			}
			switch f[1:] {
			case "":
				it.plain = true
			case ":a":
			case ".a":
				it.sep = "."
			case ":/":
				it.re = true
			}
			out = append(out, it)
		}
		return out
	}
	for _, vw := range [][2]string{{"REQUEST_HEADERS", "REQUEST_COOKIES_NAMES"}, {"ARGS_GET", "REQUEST_HEADERS"}, {"REQUEST_COOKIES_NAMES", "ARGS_GET_NAMES"}} {
		for _, spec := range []string{"V:a", "V.a", "V:/", "V:a V:a", "V:a V:/", "V !V:a", "V !V:/", "!V:a V", "V:a !V:a", "!V:a V:a", "V !V:a !V:a", "V V:a", "V:a V", "V V:/", "V:a V !V:a",
			"&V:a", "&V", "&V:/", "&V:a V:a", "V:a &V:a", "&V V:a", "V &V:a", "&V:a &V:a", "&V &V:a", "&V:/ V:/", "V:a W:a", "V W:a", "V:a W !W:a", "V:a W !W:a !V:a", "&V:a W:a", "V V", "V &V"} {
			items := parse(spec, vw[0], vw[1])
			for _, bar := range []string{"|", ","} {
				if bar == "," && len(items) == 1 {
					continue
				}
				var parts []interface{}
				type vk struct {
					n string
					c bool
				}
				exp := map[vk]*expectedVar{}
				whole := map[vk]bool{}
				var order []vk
				var res []*Term
				for i, it := range items {
					if i > 0 {
						parts = append(parts, bar)
					}
					if it.neg {
						parts = append(parts, "!")
					}
					if it.count {
						parts = append(parts, "&")
					}
					parts = append(parts, it.name)
					k := vk{it.name, it.count}
					if exp[k] == nil {
						exp[k] = &expectedVar{name: it.name, count: it.count}
						order = append(order, k)
					}
					if it.plain {
						whole[k] = true
						continue
					}
					n++
					sel := selector{include: !it.neg}
					if it.re {
						a := mkAtom(fmt.Sprintf("expr%d", n), ",|", 1)
						sel.re, sel.text = a, mkText("/", a, "/")
						res = append(res, a)
					} else {
						sel.text = mkAtom(fmt.Sprintf("name%d", n), ",|/", 1)
					}
					parts = append(parts, it.sep, sel.text)
					exp[k].sels = append(exp[k].sels, sel)
				}
				var want []*expectedVar
				for _, k := range order {
					if whole[k] {
						var q []selector
						for _, sel := range exp[k].sels {
							if !sel.include {
								q = append(q, sel)
							}
						}
						exp[k].sels = q
					}
					want = append(want, exp[k])
				}
				s.r.count("rule texts", 1)
				s.ruleText1(t, mkText(parts...), want, res)
			}
		}
	}
}

// ruleText1: one text of variables.
func (s *Spec) ruleText1(t *ruleText, text *Term, want []*expectedVar, res []*Term) {
	x := s.sub()
	sc := &selCheck{Spec: s, x: x}
	if sc.h = s.fetchHooks(x); sc.h == nil {
		return
	}
	x.ex.hook = nil
	t.also = sc.h.hook
	defer func() { t.also = nil }()
	key := selText(text)
	st := x.state()
	tx := x.tx(st)
	taken := false
	for _, l := range t.rule(x, st, text, mkStr("@rx a"), mkStr("id:1")) {
		x.ex.hook = sc.h.hook
		sc.pos = l.pos
		var valid []*Term
		for _, a := range res {
			valid = append(valid, reValid(a))
		}
		if l.rule == nil {
			x.expect(isTrue(l.st, mkNot(mkAnd(valid))), l.st, key+" refused", l.pos, "the variables %s are refused", key)
			continue
		}
		taken = true
		if !x.expect(isTrue(l.st, mkAnd(valid)), l.st, key+" invalid", l.pos, "the variables %s are taken although an expression may be invalid", key) {
			continue
		}
		vars, ok := t.list(x, l, "Variables")
		if !x.expect(ok, l.st, key+" variables", l.pos, "the variables of the rule %s are not known", key) {
			continue
		}
		used := map[*expectedVar]bool{}
		for _, v := range vars {
			name := t.name(x, l.st, v)
			x.ex.hook = sc.h.hook
			for _, o := range x.invoke(l.st, v, nil, "Fetch", tx) {
				list := o.st.norm(o.ret())
				count := false
				if es, ok := o.st.listOf(list); ok && len(es) == 1 {
					if l, ok := countOf(o.st, es[0]); ok {
						count, list = true, l
					}
				}
				var w *expectedVar
				for _, e := range want {
					if e.name == name && e.count == count {
						w = e
					}
				}
				if !x.expect(w != nil, o.st, key+" extra", o.pos, "the variables %s: the rule also inspects %s (count: %v)", key, name, count) {
					continue
				}
				used[w] = true
				sc.key, sc.pos = key+" "+name, o.pos
				if list != nil {
					sc.fetched(name, o.st, list, w.sels)
				}
			}
		}
		x.expect(len(vars) == len(want), l.st, key+" number", l.pos, "the variables %s give %d variables, not %d", key, len(vars), len(want))
		for _, w := range want {
			x.expect(used[w], l.st, key+" missing "+w.name, l.pos, "the variables %s: %s (count: %v) is not inspected", key, w.name, w.count)
		}
	}
	x.expect(taken, st, key+" refused", "seclang", "the variables %s are never taken", key)
	x.done()
}

// countOf: the list whose length a text states.
func countOf(st *State, t *Term) (*Term, bool) {
	t = st.norm(t)
	if (t.op == OpPure || t.op == OpCall) && (t.aux == "strconv.Itoa" || t.aux == "strconv.FormatInt") {
		n := st.norm(t.args[0])
		for n.op == OpConv && len(n.args) == 1 {
			n = n.args[0]
		}
		if n.op == OpLen {
			return n.args[0], true
		}
		if l, ok := counted(st, n); ok {
			return l, true
		}
	}
	if w, ok := t.strVal(); ok && w == "0" {
		return mkNil(nil), true
	}
	return nil, false
}

// counted: a number that a loop over a list increments once per element.
func counted(st *State, n *Term) (*Term, bool) {
	for x := st.ends; x != nil; x = x.prev {
		if !x.out.normal || x.rec.container == nil || x.rec.kind != "slice" {
			continue
		}
		for _, v := range x.rec.vars {
			if v.lv != n || v.init != mkInt(0) {
				continue
			}
			for _, o := range x.rec.backs() {
				if o.next[n] != mkAdd(n, mkInt(1)) {
					return nil, false
				}
			}
			return x.rec.container, true
		}
	}
	return nil, false
}
