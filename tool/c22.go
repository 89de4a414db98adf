package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = func(c *Ctx, r *Report) { bothOrders(func() { checkCompiled(c, r) }) } }

// actionText is one action of a rule text with what it has to give.
type actionText struct {
	name  string
	text  *Term
	trans string // transformation
	meta  string // metadata name with its value
	val   *Term
	make  string // constructor of the action
	args  func(st *State) []*Term
	id    func(st *State) *Term
	phase int64
	chain bool
}

// atoi: the number a text stands for, as strconv.Atoi reads it.
func atoi(st *State, t *Term) *Term {
	t = st.norm(t)
	if v, ok := foldText("strconv.Atoi", []*Term{t}, nil); ok {
		return v[0]
	}
	tup := types.NewTuple(types.NewVar(0, nil, "", tInt), types.NewVar(0, nil, "", errorType))
	call := T.mk(Term{op: OpPure, aux: "strconv.Atoi", args: []*Term{t}, typ: tup})
	return T.mk(Term{op: OpExtract, args: []*Term{call}, n: 0, typ: tInt})
}

// actionTexts: all forms of actions; k keeps the atoms of several actions of a text apart.
func actionTexts(k int) []actionText {
	var out []actionText
	n := 0
	plain := func() *Term { n++; return mkAtom(fmt.Sprintf("plain%d_%d", k, n), spaces+",'\"", 1) }
	quoted := func() *Term { n++; return mkAtom(fmt.Sprintf("quoted%d_%d", k, n), ",'\"", 0) }
	none := func(st *State) []*Term { return nil }
	one := func(f func() *Term) func(*State) []*Term { return func(*State) []*Term { return []*Term{f()} } }
	for _, c := range [][2]string{{"deny", "NewActionDeny"}, {"log", "NewActionLog"}, {"block", "NewActionBlock"}, {"pass", "NewActionPass"}, {"skip", "NewActionSkip"}} {
		out = append(out, actionText{name: c[0], text: mkText(c[0]), make: c[1], args: none})
	}
	for _, q := range []string{"", "'", "\""} {
		atom := plain
		if q != "" {
			atom = quoted
		}
		a := atom()
		num := func(a *Term) func(*State) []*Term {
			return func(st *State) []*Term { return []*Term{atoi(st, a)} }
		}
		out = append(out, actionText{name: "status:" + q + "N" + q, text: mkText("status:", q, a, q), make: "NewActionStatus", args: num(a)})
		b := atom()
		out = append(out, actionText{name: "skip:" + q + "N" + q, text: mkText("skip:", q, b, q), make: "NewActionSkipN", args: num(b)})
		d := atom()
		out = append(out, actionText{name: "id:" + q + "N" + q, text: mkText("id:", q, d, q), id: func(st *State) *Term { return atoi(st, d) }})
		for _, arg := range []string{"phase", "request"} {
			arg := arg
			out = append(out, actionText{name: "allow:" + q + arg + q, text: mkText("allow:", q, arg, q), make: "NewActionAllow", args: one(func() *Term { return mkStr(arg) })})
		}
		for _, m := range []string{"msg", "tag", "rev", "ver", "logdata"} {
			v := atom()
			out = append(out, actionText{name: m + ":" + q + "…" + q, text: mkText(m, ":", q, v, q), meta: m, val: v})
		}
		for i, sv := range []string{"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"} {
			if q != "" && i != 2 {
				continue
			}
			out = append(out, actionText{name: "severity:" + q + sv + q, text: mkText("severity:", q, sv, q), meta: "severity", val: mkStr(fmt.Sprint(i))})
			out = append(out, actionText{name: fmt.Sprint("severity:", q, i, q), text: mkText("severity:", q, fmt.Sprint(i), q), meta: "severity", val: mkStr(fmt.Sprint(i))})
		}
		for _, p := range []struct {
			t string
			n int64
		}{{"1", 1}, {"2", 2}, {"3", 3}, {"4", 4}, {"5", 5}, {"request", 2}, {"response", 4}, {"logging", 5}} {
			out = append(out, actionText{name: "phase:" + q + p.t + q, text: mkText("phase:", q, p.t, q), phase: p.n})
		}
		for _, tr := range readmeTransforms {
			if q != "" && tr != "none" && tr != "urlDecode" {
				continue
			}
			out = append(out, actionText{name: "t:" + q + tr + q, text: mkText("t:", q, tr, q), trans: tr})
		}
	}
	out = append(out, actionText{name: "allow", text: mkText("allow"), make: "NewActionAllow", args: one(func() *Term { return mkStr("") })})
	out = append(out, actionText{name: "chain", text: mkText("chain"), chain: true})
	return out
}

// checkCompiled: C22.
func checkCompiled(c *Ctx, r *Report) {
	r.method = methodAI + " Texts are concatenations of constants and atoms that stand for any text without the listed characters."
	r.rule = "the text of a rule is followed through the scanner, the loader and Execute. Actions: every form of every action (bare, with a plain, single-quoted or double-quoted argument of any content), every ordered pair of them, and lists of all of them, give exactly the parts the constructors make from the arguments, transformations and actions in the order written, metadata under its name in the order written, id, phase (1-5, request, response, logging; 2 if absent) and chain flag. Operators: [!][@op ]argument gives the operator of that name made from that argument, rx without @, and negation exactly for a leading !. Variables: [!&]NAME[:selector] lists give the variables in order with exclusion, count and selector"
	s := c.spec(r)
	t := s.ruleText()
	if t == nil {
		return
	}
	cx := &compileCheck{s: s, t: t, trans: map[string]*ssa.Function{}, ops: map[string]*ssa.Function{}}
	if !cx.constructors() {
		return
	}
	all := actionTexts(0)
	for _, a := range all {
		cx.actions([]actionText{a}, ",")
	}
	// ordered pairs of one form of each kind
	kinds := func(k int) []actionText {
		seen := map[string]bool{}
		var out []actionText
		for _, a := range actionTexts(k) {
			n := a.name
			if i := strings.IndexAny(n, ":"); i >= 0 && !strings.HasPrefix(n, "t:") {
				n = n[:i+1]
			}
			if n == "severity:" || n == "phase:" || n == "t:none" || n == "allow:" {
				n = a.name // more than one form
			}
			if strings.Contains(a.name, "\"") || seen[n] {
				continue
			}
			seen[n] = true
			out = append(out, a)
		}
		return out
	}
	for i, a := range kinds(1) {
		for j, b := range kinds(2) {
			sep := ","
			if (i+j)%2 == 1 {
				sep = ",\n    "
			}
			cx.actions([]actionText{a, b}, sep)
		}
	}
	// long lists
	rev := func(l []actionText) []actionText {
		var out []actionText
		for i := len(l) - 1; i >= 0; i-- {
			out = append(out, l[i])
		}
		return out
	}
	pick := func(l []actionText) []actionText {
		var out []actionText
		id, ph := false, false
		for _, a := range l {
			if strings.HasPrefix(a.name, "status") || strings.HasPrefix(a.name, "skip:") || a.chain {
				continue // the number of cases
			}
			if a.id != nil {
				if id {
					continue
				}
				id = true
			}
			if a.phase != 0 {
				if ph {
					continue
				}
				ph = true
			}
			out = append(out, a)
		}
		return out
	}
	cx.actions(pick(kinds(3)), ",")
	cx.actions(rev(pick(kinds(4))), ", ")
	cx.operators()
	cx.variables()
	r.require("action lists compared", 500)
	r.require("operator texts compared", 12)
	r.require("variable lists compared", 100)
	s.done()
	r.assumption("arguments contain no comma and no quote inside (the scanner splits actions at commas); lists of more than two actions are compared for two orders of all kinds")
	r.assumption("the implementation a name stands for is established by C08")
}

type compileCheck struct {
	s          *Spec
	t          *ruleText
	trans, ops map[string]*ssa.Function
}

// constructors: the functions that make the part of each name.
func (cx *compileCheck) constructors() bool {
	s := cx.s
	for _, p := range []struct {
		pkg, iface string
		m          map[string]*ssa.Function
	}{{"modsecurity/transforms", "Trans", cx.trans}, {"modsecurity/operators", "Operator", cx.ops}} {
		for _, f := range s.constructors(p.pkg, p.iface) {
			x := s.sub()
			var args []*Term
			for _, q := range f.Params {
				args = append(args, mkSym(q.Name(), q.Type()))
			}
			for _, o := range x.call(x.state(), f, args...) {
				v := o.st.norm(o.rets[0])
				if v.isNil() {
					continue
				}
				for _, n := range x.invoke(o.st, v, nil, "Name") {
					if name, ok := n.st.norm(n.ret()).strVal(); ok {
						p.m[name] = f
					}
				}
			}
		}
	}
	ok := true
	for _, n := range readmeTransforms {
		if cx.trans[n] == nil {
			s.r.violate("constructor of "+n, "modsecurity/transforms", "no constructor makes a transformation named %s", n)
			ok = false
		}
	}
	for _, n := range readmeOperators {
		if cx.ops[n] == nil {
			s.r.violate("constructor of "+n, "modsecurity/operators", "no constructor makes an operator named %s", n)
			ok = false
		}
	}
	return ok
}

// made: the shape of what a constructor makes.
func (cx *compileCheck) made(x *Spec, st *State, f *ssa.Function, args ...*Term) string {
	if f == nil {
		return "?"
	}
	x.ex.hook = nil
	out := ""
	for _, o := range x.call(st, f, args...) {
		if len(o.rets) == 2 && !isTrue(o.st, mkEq(o.rets[1], mkNil(nil))) {
			continue
		}
		sh := x.shape(o.st, o.rets[0])
		if out != "" && sh != out {
			return "several"
		}
		out = sh
	}
	return out
}

// actions compares the rule of a list of actions with what it has to be.
func (cx *compileCheck) actions(list []actionText, sep string) {
	s, t, r := cx.s, cx.t, cx.s.r
	text := mkStr("")
	var names []string
	ids, phases, chains := 0, 0, 0
	for i, a := range list {
		if i > 0 {
			text = mkConcat(text, mkStr(sep))
		}
		text = mkConcat(text, a.text)
		names = append(names, a.name)
		if a.id != nil {
			ids++
		}
		if a.phase != 0 {
			phases++
		}
		if a.chain {
			chains++
		}
	}
	if ids > 1 || phases > 1 || chains > 1 {
		return
	}
	what := strings.Join(names, ",")
	key := what
	if len(list) > 3 {
		key = "long list"
	}
	x := s.sub()
	accepted := false
	scanned := t.scan(x, x.state(), "SecRule", []*Term{mkStr("REQUEST_URI"), mkStr("@rx a"), text})
	for _, l := range scanned {
		if l.dir == nil {
			continue
		}
		var whole []loaded
		if chains > 0 || len(list) == 1 {
			ad := l.st.norm(l.dir)
			if ad.op == OpIface {
				at := cx.get(x, l.st, ad, "Actions")
				flag := x.get(l.st, at, fieldType(cx.dirType(), "Actions"), "Chain")
				x.must(l.st, mkEq(flag, mkBool(chains > 0)), "chain flag "+key, l.pos, "the actions %q do not give the chain flag %v", what, chains > 0)
			}
		}
		if chains > 0 {
			// loading needs the rest of the chain
			for _, n := range t.scan(x, l.st, "SecRule", []*Term{mkStr("REQUEST_METHOD"), mkStr("@rx b"), mkStr("pass")}) {
				if n.dir == nil {
					continue
				}
				q := l
				q.st, q.rest = n.st, []*Term{n.dir}
				whole = append(whole, q)
			}
		} else {
			whole = append(whole, l)
		}
		for _, l := range whole {
			for _, m := range t.compile(x, l) {
				if m.rule == nil {
					continue
				}
				accepted = true
				cx.compare(x, m, list, key, what)
				r.count("action lists compared", 1)
				r.ok(1)
			}
		}
	}
	if !accepted {
		r.violate("refused "+key, s.c.pos(t.load), "a rule with the actions %q is never accepted", what)
	}
	x.done()
}

func (cx *compileCheck) dirType() types.Type {
	return cx.s.c.p.typ("seclang/parser", "RuleDirective")
}

func (cx *compileCheck) get(x *Spec, st *State, dir *Term, f string) *Term {
	return st.norm(x.get(st, dir.args[0], types.NewPointer(cx.dirType()), f))
}

func (cx *compileCheck) compare(x *Spec, m loaded, list []actionText, key, what string) {
	s, t := cx.s, cx.t
	var wantT, wantA []string
	meta := map[string][]string{}
	id, phase := mkInt(0), int64(2)
	for _, a := range list {
		switch {
		case a.trans != "":
			wantT = append(wantT, cx.made(x, m.st, cx.trans[a.trans]))
		case a.make != "":
			wantA = append(wantA, cx.made(x, m.st, s.fn("modsecurity/actions", a.make), a.args(m.st)...))
		case a.meta != "":
			meta[a.meta] = append(meta[a.meta], m.st.norm(a.val).String())
		case a.id != nil:
			id = m.st.norm(a.id(m.st))
		case a.phase != 0:
			phase = a.phase
		}
	}
	shapes := func(field string) ([]string, bool) {
		l, ok := t.list(x, m, field)
		var out []string
		for _, e := range l {
			out = append(out, x.shape(m.st, e))
		}
		return out, ok
	}
	cmp := func(field string, want []string) {
		got, ok := shapes(field)
		if !x.expect(ok, m.st, "undecided "+field+" "+key, m.pos, "the %s of a rule with the actions %q are not known", field, what) {
			return
		}
		x.expect(strings.Join(got, "; ") == strings.Join(want, "; "), m.st, field+" "+key, m.pos, "the actions %q give the %s [%s] instead of [%s]", what, field, clip(strings.Join(got, "; "), 150), clip(strings.Join(want, "; "), 150))
	}
	cmp("Trans", wantT)
	cmp("Actions", wantA)
	g := x.get(m.st, m.rule, t.rt, "Id")
	x.expect(eq(m.st, g, id), m.st, "id "+key, m.pos, "the actions %q give the id %s instead of %s", what, g, id)
	g = x.get(m.st, m.rule, t.rt, "Phase")
	x.expect(eq(m.st, g, mkInt(phase)), m.st, "phase "+key, m.pos, "the actions %q give the phase %s instead of %d", what, g, phase)
	md := m.st.norm(x.get(m.st, m.rule, t.rt, "MetaData"))
	mc := m.st.maps[md]
	if md.isNil() {
		mc = &MapC{exact: true}
	}
	if !x.expect(mc != nil && mc.exact, m.st, "undecided metadata "+key, m.pos, "the metadata of a rule with the actions %q is not known", what) {
		return
	}
	got := map[string]string{}
	for _, e := range mc.entries {
		k, _ := m.st.norm(e.k).strVal()
		l, ok := m.st.listOf(m.st.norm(e.v))
		if !ok {
			got[k] = "?" + e.v.String()
			continue
		}
		var vs []string
		for _, v := range l {
			vs = append(vs, m.st.norm(v).String())
		}
		if len(vs) > 0 {
			got[k] = strings.Join(vs, "; ")
		}
	}
	for k, v := range meta {
		x.expect(got[k] == strings.Join(v, "; "), m.st, "metadata "+k+" "+key, m.pos, "the actions %q record %s as [%s] instead of [%s]", what, k, got[k], strings.Join(v, "; "))
	}
	for k, v := range got {
		if meta[k] == nil {
			x.expect(false, m.st, "metadata "+k+" "+key, m.pos, "the actions %q record %s as [%s]", what, k, v)
		}
	}
	// what the text does not mention
	subs, ok := t.list(x, m, "SubRules")
	x.expect(ok && len(subs) == len(m.rest), m.st, "sub rules "+key, m.pos, "a single rule has rules chained to it")
}

// operators: operator texts.
func (cx *compileCheck) operators() {
	s, t, r := cx.s, cx.t, cx.s.r
	arg := mkAtom("argument", "", 0)
	type form struct {
		text *Term
		op   string
		arg  *Term
		not  bool
	}
	var forms []form
	for _, neg := range []string{"", "!"} {
		for _, op := range readmeOperators {
			forms = append(forms, form{mkText(neg, "@", op, " ", arg), op, arg, neg != ""})
		}
		for _, first := range []string{"a", "^", "(", "5", "\\", "'", " "} {
			forms = append(forms, form{mkText(neg, first, arg), "rx", mkText(first, arg), neg != ""})
		}
		forms = append(forms, form{mkText(neg, "@rx"), "rx", mkStr(""), neg != ""})
	}
	for _, f := range forms {
		x := s.sub()
		what := f.text.String()
		accepted := false
		for _, m := range t.rule(x, x.state(), mkStr("REQUEST_URI"), f.text, mkStr("id:1")) {
			if m.rule == nil {
				continue
			}
			accepted = true
			want := cx.made(x, m.st, cx.ops[f.op], f.arg)
			got := x.shape(m.st, x.get(m.st, m.rule, t.rt, "Operator"))
			x.expect(got == want, m.st, "operator "+what, m.pos, "the operator text %s gives the operator %s instead of %s", what, clip(got, 200), clip(want, 200))
			n := x.get(m.st, m.rule, t.rt, "Not")
			x.expect(eq(m.st, n, mkBool(f.not)), m.st, "negation "+what, m.pos, "the operator text %s gives the negation %s", what, n)
			r.count("operator texts compared", 1)
			r.ok(1)
		}
		if !accepted {
			r.violate("refused operator "+what, s.c.pos(t.load), "a rule with the operator text %s is never accepted", what)
		}
		x.done()
	}
}

// variables: variable lists as scanned.
func (cx *compileCheck) variables() {
	s, t, r := cx.s, cx.t, cx.s.r
	vt := fieldType(cx.dirType(), "Variable").Underlying().(*types.Slice).Elem()
	token := map[string]*Term{}
	names := []string{"ARGS", "REQUEST_HEADERS", "REQUEST_URI"}
	scan := func(text *Term) []loaded {
		x := s.sub()
		var out []loaded
		for _, l := range t.scan(x, x.state(), "SecRule", []*Term{text, mkStr("@rx a"), mkStr("id:1")}) {
			if l.dir != nil {
				out = append(out, l)
			}
		}
		x.done()
		return out
	}
	vars := func(l loaded) ([]*Term, bool) {
		d := l.st.norm(l.dir)
		if d.op != OpIface {
			return nil, false
		}
		return l.st.listOf(cx.get(s, l.st, d, "Variable"))
	}
	for _, n := range names {
		for _, l := range scan(mkStr(n)) {
			vs, ok := vars(l)
			if !ok || len(vs) != 1 {
				r.violate("variable "+n, l.pos, "the variable %s is not scanned as one variable", n)
				return
			}
			token[n] = s.get(l.st, vs[0], vt, "Tk")
		}
		if token[n] == nil {
			r.violate("variable "+n, s.c.pos(t.load), "the variable %s is refused", n)
			return
		}
	}
	type part struct {
		text, sel *Term
		name      string
		excl, cnt bool
	}
	parts := func(k int) []part {
		var out []part
		for i, n := range names {
			for _, p := range []string{"", "!", "&"} {
				for _, withSel := range []bool{false, true} {
					if !withSel && p == "!" || i > 0 && p == "" && !withSel && k > 0 {
						continue
					}
					pt := part{name: n, excl: p == "!", cnt: p == "&", sel: mkStr("")}
					pt.text = mkText(p, n)
					if withSel {
						pt.sel = mkAtom(fmt.Sprintf("selector%d_%d", k, len(out)), ",|", 1)
						pt.text = mkText(p, n, ":", pt.sel)
					}
					out = append(out, pt)
				}
			}
		}
		return out
	}
	check := func(list []part, sep string) {
		text := mkStr("")
		for i, p := range list {
			if i > 0 {
				text = mkConcat(text, mkStr(sep))
			}
			text = mkConcat(text, p.text)
		}
		what := text.String()
		outs := scan(text)
		if len(outs) == 0 {
			r.violate("refused variables "+what, s.c.pos(t.load), "the variables %s are refused", what)
		}
		for _, l := range outs {
			vs, ok := vars(l)
			if !s.expect(ok && len(vs) == len(list), l.st, "variables "+what, l.pos, "the variables %s are scanned as %d variables", what, len(vs)) {
				continue
			}
			for i, p := range list {
				for _, f := range []struct {
					field string
					want  *Term
				}{{"Tk", token[p.name]}, {"Index", p.sel}, {"Count", mkBool(p.cnt)}, {"Exclusion", mkBool(p.excl)}} {
					g := s.get(l.st, vs[i], vt, f.field)
					s.expect(eq(l.st, g, f.want), l.st, f.field+" of "+what, l.pos, "variable %d of %s has %s %s instead of %s", i+1, what, f.field, g, f.want)
				}
			}
			r.count("variable lists compared", 1)
			r.ok(1)
		}
	}
	for _, p := range parts(0) {
		check([]part{p}, "|")
	}
	for i, p := range parts(1) {
		for j, q := range parts(2) {
			sep := "|"
			if (i+j)%2 == 1 {
				sep = ","
			}
			check([]part{p, q}, sep)
		}
	}
	// every form in the third position, and all of them in a row
	l1, l2, l3 := parts(1), parts(2), parts(3)
	for i, p := range l3 {
		check([]part{l1[i%len(l1)], l2[(i*5+2)%len(l2)], p}, "|")
	}
	check(l2, "|")
}
