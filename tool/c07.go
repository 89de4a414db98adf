package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = func(c *Ctx, r *Report) { bothOrders(func() { checkRejected(c, r) }) }
}

// checkRejected: C07.
func checkRejected(c *Ctx, r *Report) {
	r.method = methodAI + " Texts are concatenations of constants and atoms that stand for any text without the listed characters."
	r.rule = "rule texts with an arbitrary name or argument are followed through the scanner, the loader and Execute: on every path that accepts one, the name is a known one, numbers were parsed without error and lie in the documented range, regular expressions compiled. Missing and empty parts, unknown directive names and values, unfinished chains and unterminated strings are refused on every path. In every function of scanning, loading and executing, on every path on which a call returned an error, an error is returned (the end of the input between directives aside), and an error of the reader is kept until it is returned. A refused text yields no rule set"
	s := c.spec(r)
	t := s.ruleText()
	if t == nil {
		return
	}
	cx := &rejectCheck{s: s, t: t}
	cx.arguments()
	cx.names()
	cx.parts()
	cx.directives()
	s.errorsKept(t)
	r.require("accepting paths judged", 60)
	r.require("texts refused", 40)
	s.done()
	r.assumption("which name selects which implementation is established by C08, the effect of directives by C21, of chains by C12")
}

type rejectCheck struct {
	s *Spec
	t *ruleText
}

// judged calls f on every path that accepts the rule text.
func (cx *rejectCheck) judged(what string, v, o, a *Term, need bool, f func(x *Spec, l loaded) string) {
	s, t, r := cx.s, cx.t, cx.s.r
	x := s.sub()
	x.ex.splitMaps = true
	accepted := false
	for _, l := range t.rule(x, x.state(), v, o, a) {
		if l.rule == nil {
			if isTrue(l.st, mkEq(l.err, mkNil(nil))) {
				r.violate("no rule "+what, l.pos, "%s: the text is accepted and gives no rule", what)
			}
			continue
		}
		accepted = true
		r.count("accepting paths judged", 1)
		if why := f(x, l); why != "" {
			x.expect(false, l.st, what, l.pos, "%s: accepted although %s", what, why)
		} else {
			r.ok(1)
		}
	}
	if need && !accepted {
		r.violate("never "+what, s.c.pos(t.load), "%s: never accepted", what)
	}
	if !accepted {
		r.count("texts refused", 1)
		r.ok(1)
	}
	x.done()
}

// parsed: on the path, a text containing the atom was parsed without an error by one of
// the functions; the number it stands for.
func parsed(st *State, atom *Term, fns ...string) *Term {
	in := func(t *Term) bool {
		found := false
		walkTerm(t, map[*Term]bool{}, func(u *Term) { found = found || u == atom })
		return found
	}
	for _, f := range st.forder {
		// f: error of fn(… atom …) == nil
		var hit *Term
		walkTerm(f, map[*Term]bool{}, func(u *Term) {
			if u.op == OpPure && hit == nil {
				for _, n := range fns {
					if u.aux == n && in(u) {
						hit = u
					}
				}
			}
		})
		if hit == nil {
			continue
		}
		e := T.mk(Term{op: OpExtract, args: []*Term{hit}, n: 1, typ: errorType})
		if isTrue(st, mkEq(e, mkNil(nil))) {
			return T.mk(Term{op: OpExtract, args: []*Term{hit}, n: 0, typ: hit.typ.(*types.Tuple).At(0).Type()})
		}
	}
	return nil
}

var atois = []string{"strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint"}

func walkTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		walkTerm(a, seen, f)
	}
}

// constant text of an atom on a path
func constOf(st *State, a *Term) (string, bool) { return st.norm(a).strVal() }

// arguments of actions, operators and selectors.
func (cx *rejectCheck) arguments() {
	n := 0
	uri, rx, id := mkStr("REQUEST_URI"), mkStr("@rx a"), mkStr("id:1")
	number := func(l loaded, a *Term, lo, hi int64) string {
		v := parsed(l.st, a, atois...)
		if c, ok := constOf(l.st, a); ok {
			if f, ok := foldText("strconv.Atoi", []*Term{mkStr(strings.TrimSpace(c))}, nil); ok && f[1].isNil() {
				v = f[0]
			}
		}
		if v == nil {
			return "the argument was not parsed as a number"
		}
		if lo <= hi && (!isTrue(l.st, mkLE(lin{k: lo}.add(toLin(v), -1))) || hi < 1<<62 && !isTrue(l.st, mkLE(toLin(v).add(lin{k: -hi}, 1)))) {
			return fmt.Sprintf("the number may be outside %d to %d", lo, hi)
		}
		return ""
	}
	word := func(l loaded, a *Term, ws ...string) bool {
		c, ok := constOf(l.st, a)
		for _, w := range ws {
			if ok && c == w || w == "" && isTrue(l.st, mkEq(a, mkStr(""))) {
				return true
			}
		}
		return false
	}
	for _, q := range []string{"", "'", "\""} {
		mk := func() *Term {
			n++
			if q == "" {
				return mkAtom(fmt.Sprintf("argument%d", n), spaces+",'\"", 1)
			}
			return mkAtom(fmt.Sprintf("argument%d", n), ",'\"", 0)
		}
		act := func(name string, need bool, f func(x *Spec, l loaded, a *Term) string) {
			a := mk()
			cx.judged(name+":"+q+"X"+q, uri, rx, mkText(name, ":", q, a, q), need, func(x *Spec, l loaded) string { return f(x, l, a) })
		}
		act("id", true, func(x *Spec, l loaded, a *Term) string { return number(l, a, 1, 0) })
		act("status", true, func(x *Spec, l loaded, a *Term) string { return number(l, a, 1, 0) })
		act("skip", true, func(x *Spec, l loaded, a *Term) string {
			if q == "" && isTrue(l.st, mkEq(a, mkStr(""))) {
				return "" // as without an argument
			}
			return number(l, a, 1, 1<<62)
		})
		act("allow", true, func(x *Spec, l loaded, a *Term) string {
			if word(l, a, "", "phase", "request") {
				return ""
			}
			return "the argument is none of those documented"
		})
		act("phase", true, func(x *Spec, l loaded, a *Term) string {
			p := x.get(l.st, l.rule, cx.t.rt, "Phase")
			if !isTrue(l.st, mkLE(lin{k: 1}.add(toLin(p), -1))) || !isTrue(l.st, mkLE(toLin(p).add(lin{k: -5}, 1))) {
				return fmt.Sprintf("the phase %s may be outside 1 to 5", p)
			}
			if word(l, a, "request", "response", "logging") {
				return ""
			}
			return number(l, a, 1, 5)
		})
		act("severity", true, func(x *Spec, l loaded, a *Term) string {
			if word(l, a, "EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG") {
				return ""
			}
			return number(l, a, 0, 7)
		})
		act("t", true, func(x *Spec, l loaded, a *Term) string {
			if word(l, a, readmeTransforms...) || word(l, a, cx.s.ownNames("modsecurity/transforms", "Trans")...) {
				return ""
			}
			return fmt.Sprintf("%s is not known to be the name of a transformation", l.st.norm(a))
		})
	}
	for _, neg := range []string{"", "!"} {
		for _, op := range []string{"eq", "ge", "gt", "le", "lt"} {
			n++
			a := mkAtom(fmt.Sprintf("argument%d", n), "", 0)
			cx.judged(neg+"@"+op+" X", uri, mkText(neg, "@", op, " ", a), id, true, func(x *Spec, l loaded) string { return number(l, a, 1, 0) })
		}
		for _, p := range []string{"@rx ", "a", "("} {
			n++
			a := mkAtom(fmt.Sprintf("argument%d", n), "", 0)
			cx.judged(neg+p+"X", uri, mkText(neg, p, a), id, true, func(x *Spec, l loaded) string {
				if parsed(l.st, a, "regexp.Compile") == nil {
					return "the regular expression was not compiled"
				}
				return ""
			})
		}
	}
	for _, p := range []string{"", "!", "&"} {
		for _, v := range []string{"ARGS", "REQUEST_HEADERS", "REQUEST_COOKIES", "ARGS_NAMES"} {
			n++
			a := mkAtom(fmt.Sprintf("selector%d", n), ",|/", 1)
			cx.judged(p+v+":/X/", mkText(p, v, ":/", a, "/"), rx, id, true, func(x *Spec, l loaded) string {
				if parsed(l.st, a, "regexp.Compile") == nil {
					return "the regular expression was not compiled"
				}
				return ""
			})
		}
	}
}

// ownNames: the names that parts of a kind give themselves.
func (s *Spec) ownNames(pkg, iface string) []string {
	it := s.c.p.iface("modsecurity", iface)
	if it == nil {
		s.r.violate("anchor", "modsecurity", "interface %s not found", iface)
		return nil
	}
	var out []string
	for _, t := range s.c.p.implementers(it) {
		x := s.quiet()
		m := s.c.p.method(t, "Name")
		for _, o := range x.call(x.state(), m, x.args(x.state(), m, mkSym("part", t))...) {
			if n, ok := o.st.norm(o.ret()).strVal(); ok && n != "" {
				out = append(out, n)
			}
		}
	}
	return out
}

// names: arbitrary names in every role.
func (cx *rejectCheck) names() {
	uri, rx, id := mkStr("REQUEST_URI"), mkStr("@rx a"), mkStr("id:1")
	known := func(a *Term, readme []string, pkg, iface string) func(*Spec, loaded) string {
		names := append(append([]string{}, readme...), cx.s.ownNames(pkg, iface)...)
		return func(x *Spec, l loaded) string {
			n, ok := constOf(l.st, a)
			for _, k := range names {
				if ok && n == k {
					return ""
				}
			}
			return fmt.Sprintf("%s is not known to be a name", l.st.norm(a))
		}
	}
	v := mkAtom("variable", ",|:.!&", 1)
	for _, p := range []string{"", "&"} {
		cx.judged("variable "+p+"X", mkText(p, v), rx, id, true, known(v, readmeVariables, "modsecurity/variables", "Variable"))
	}
	v2 := mkAtom("variable2", ",|:.!&", 1)
	cx.judged("variable X:a", mkText(v2, ":a"), rx, id, true, known(v2, readmeVariables, "modsecurity/variables", "Variable"))
	cx.judged("variable !X:a", mkText("!", v2, ":a|ARGS"), rx, id, true, known(v2, readmeVariables, "modsecurity/variables", "Variable"))
	o := mkAtom("operator", " ", 0)
	for _, p := range []string{"@", "!@"} {
		cx.judged("operator "+p+"X 5", uri, mkText(p, o, " 5"), id, true, known(o, readmeOperators, "modsecurity/operators", "Operator"))
		cx.judged("operator "+p+"X", uri, mkText(p, o), id, true, known(o, readmeOperators, "modsecurity/operators", "Operator"))
	}
	a := mkAtom("action", ",:'\""+spaces, 1)
	readme := append([]string{}, readmeActions...)
	for n := range metaNames {
		readme = append(readme, n)
	}
	cx.judged("action X", uri, rx, mkText(a), true, known(a, readme, "modsecurity/actions", "Action"))
	cx.judged("action X:1", uri, rx, mkText(a, ":1"), true, known(a, readme, "modsecurity/actions", "Action"))
	cx.judged("actions X,deny", uri, rx, mkText(a, ",deny"), true, known(a, readme, "modsecurity/actions", "Action"))
	cx.judged("actions deny,X", uri, rx, mkText("deny,", a), true, known(a, readme, "modsecurity/actions", "Action"))
}

// refused: no path takes the text.
func (cx *rejectCheck) refused(what string, name string, parts ...string) {
	s, t, r := cx.s, cx.t, cx.s.r
	x := s.sub()
	x.ex.splitMaps = true
	var ps []*Term
	for _, p := range parts {
		ps = append(ps, mkStr(p))
	}
	n := 0
	for _, l := range t.scan(x, x.state(), name, ps) {
		n++
		if l.dir == nil {
			continue
		}
		for _, m := range t.compile(x, l) {
			if isTrue(m.st, mkNot(mkEq(m.err, mkNil(nil)))) {
				continue
			}
			if k, v := m.st.eval(mkEq(m.err, mkNil(nil))); !k || v {
				x.expect(false, m.st, what, m.pos, "%s %q is accepted", name, parts)
			}
		}
	}
	if n == 0 {
		r.violate("undecided "+what, s.c.pos(t.load), "%s %q is not followed", name, parts)
	}
	r.count("texts refused", 1)
	r.ok(1)
	x.done()
}

// parts: missing, empty and malformed parts.
func (cx *rejectCheck) parts() {
	full := []string{"REQUEST_URI", "@rx a", "id:1"}
	for i := 0; i < 3; i++ {
		cx.refused(fmt.Sprintf("SecRule with %d parts", i), "SecRule", full[:i]...)
		p := append([]string{}, full...)
		p[i] = ""
		cx.refused(fmt.Sprintf("SecRule with part %d empty", i+1), "SecRule", p...)
	}
	for i, l := range [][]string{
		{"|", "ARGS|", "|ARGS", "ARGS||ARGS", "!", "&", "ARGS|!", "ARGS|&", "ARGS,", ":a", "!:a", "ARGS ", "NOPE", "ARGS|NOPE", "ARGS_NAME", "args", "ARGS:/(/", "!ARGS:/(/", "&ARGS:/(/", "ARGS|REQUEST_HEADERS:/[/"},
		{"!", "@", "!@", "@ 5", "@nope 5", "@eq", "@eq five", "@ge 5x", "@gt ", "@lt 5 6", "@le 0x10", "@rx (", "!@rx [", "(", "!(", "@RX a", "@rxx a"},
		{" ", ",", "id:1,", ",id:1", "id:1,,deny", "id", "id:", "id:x", "id:1x", "id:1.5", "id:''", "phase", "phase:0", "phase:6", "phase:-1", "phase:x", "phase:", "phase:''", "status", "status:x", "status:", "severity", "severity:8", "severity:-1", "severity:x", "severity:", "skip:0", "skip:-1", "skip:x", "allow:x", "allow:phases", "t", "t:", "t:nope", "t:lowercas", "nope", "nope:1", "deny,nope", "Deny", "capture", "setvar:x"},
	} {
		for _, v := range l {
			if i == 2 && (v == "capture" || v == "setvar:x") {
				continue // C08
			}
			p := append([]string{}, full...)
			p[i] = v
			cx.refused(fmt.Sprintf("SecRule %q", strings.Join(p, " ")), "SecRule", p...)
		}
	}
	// the last rule of a text is chained
	cx.refused("unfinished chain", "SecRule", "REQUEST_URI", "@rx a", "id:1,chain")
}

// directives: names, values and the end of the input.
func (cx *rejectCheck) directives() {
	s, t, r := cx.s, cx.t, cx.s.r
	for _, d := range []string{"SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess"} {
		cx.refused(d+" without value", d)
		for _, v := range []string{"", "Onn", "NoOff", "Offf", "1", "Detection", "true", "On Off"} {
			cx.refused(d+" "+v, d, v)
		}
	}
	cx.refused("DetectionOnly", "SecRequestBodyAccess", "DetectionOnly")
	cx.refused("DetectionOnly", "SecResponseBodyAccess", "DetectionOnly")
	// all names and values (as C21)
	q := *r
	q.seen, q.viol, q.counts = map[string]bool{}, nil, map[string]int{}
	n := *s
	n.r = &q
	checkDirectiveTexts(&n, t)
	for _, v := range q.viol {
		for _, p := range []string{"unknown ", "undecided", "anchor", "names not told apart"} {
			if strings.HasPrefix(v.key, p) {
				r.violate(v.key, v.where, "%s", v.msg)
				break
			}
		}
	}
	r.count("paths of scanning a directive", q.counts["paths of scanning a directive"])
	r.ok(q.checked - r.checked)
	r.require("paths of scanning a directive", 10)
	// the input ends inside a directive
	rd := s.method(types.NewPointer(t.scanner), "ReadDirective")
	word := s.method(types.NewPointer(t.scanner), "ReadWord")
	if rd == nil || word == nil {
		return
	}
	for _, d := range []string{"SecRule", "SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess", "", "Nope"} {
		x := s.sub()
		x.ex.unrollMaps = true
		begun := ghostCell("begun")
		st := x.state()
		st.heap[begun] = mkInt(0)
		x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
			switch f {
			case word:
				st.heap[begun] = mkInt(1)
				return []Outcome{{st: st, rets: []*Term{mkStr(d)}}}, true
			case t.readString:
				return []Outcome{{st: st, rets: []*Term{mkStr(""), st.load(t.eos, errorType)}}}, true
			}
			return nil, false
		}
		sc := mkSym("scanner", types.NewPointer(t.scanner))
		st.assumeQuiet(nonnilCond(sc), true)
		for _, o := range x.call(st, rd, sc) {
			if o.st.heap[begun] != mkInt(1) {
				continue
			}
			err := o.rets[1]
			x.must(o.st, mkNot(mkEq(err, mkNil(nil))), "end of input in "+d, o.pos, "the input ends inside %s and no error is returned", d)
			x.must(o.st, mkNot(mkEq(err, o.st.load(t.eos, errorType))), "end of input in "+d, o.pos, "the input ends inside %s, and this is reported like the end of the rules", d)
			r.count("ends of input followed", 1)
		}
		x.done()
	}
	r.require("ends of input followed", 5)
}

// errorsKept: errors of calls, of the reader, and of unterminated strings.
func (s *Spec) errorsKept(t *ruleText) {
	ec := &errCheck{s: s, t: t, never: map[*ssa.Function]int{}}
	ec.rd = s.method(types.NewPointer(t.scanner), "ReadDirective")
	if ec.rd == nil {
		return
	}
	ec.local()
	ec.reader()
	ec.quotes()
	ec.loading()
	s.r.require("calls whose error is kept", 25)
	s.r.require("methods of the scanner with read errors", 8)
}

type errCheck struct {
	s     *Spec
	t     *ruleText
	rd    *ssa.Function
	never map[*ssa.Function]int
}

// errIndex: the position of the error among the results, -1 if there is none.
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if types.Identical(sig.Results().At(i).Type(), errorType) {
			return i
		}
	}
	return -1
}

func errOf(e *Event, sig *types.Signature) *Term {
	i := errIndex(sig)
	if i < 0 || e.res == nil {
		return nil
	}
	if sig.Results().Len() == 1 {
		return e.res
	}
	return T.mk(Term{op: OpExtract, args: []*Term{e.res}, n: int64(i), typ: errorType})
}

// plainParser: a function from basic values to basic values; what it refuses is judged
// by the texts accepted.
func plainParser(sig *types.Signature) bool {
	if sig.Recv() != nil {
		return false
	}
	basic := func(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }
	for i := 0; i < sig.Params().Len(); i++ {
		if !basic(sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if !basic(rt) && !types.Identical(rt, errorType) {
			return false
		}
	}
	return true
}

// byteReader: a function that yields a byte or character of the input.
func byteReader(sig *types.Signature) bool {
	if sig.Results().Len() == 0 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

func (ec *errCheck) kept(f *ssa.Function) bool {
	return f.Pkg != nil && inRepo(f) && len(f.Blocks) > 0 && errIndex(f.Signature) >= 0 && !plainParser(f.Signature) && !byteReader(f.Signature)
}

// neverFails: the function returns a nil error on every path.
func (ec *errCheck) neverFails(f *ssa.Function) bool {
	if v, ok := ec.never[f]; ok {
		return v == 1
	}
	ec.never[f] = 0
	x := ec.s.quiet()
	x.ex.cut = func(g *ssa.Function) bool { return g != f && ec.kept(g) }
	st := x.state()
	ok := true
	outs := x.call(st, f, x.args(st, f, nil)...)
	for _, o := range outs {
		ok = ok && isTrue(o.st, mkEq(o.rets[errIndex(f.Signature)], mkNil(nil)))
	}
	if ok && len(outs) > 0 && len(x.ex.problems) == 0 {
		ec.never[f] = 1
	}
	return ec.never[f] == 1
}

func (ec *errCheck) local() {
	s, t, r := ec.s, ec.t, ec.s.r
	roots := []*ssa.Function{t.load, t.execute}
	for _, f := range s.ex.mod.methodsOf(types.NewPointer(t.scanner)) {
		roots = append(roots, f)
	}
	for _, f := range s.ex.mod.reach(roots...) {
		if f.Pkg == nil || !inRepo(f) || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		relevant := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && errIndex(c.Common().Signature()) >= 0 {
					relevant = true
				}
			}
		}
		if !relevant {
			continue
		}
		ec.function(f)
	}
	r.count("functions whose errors are followed", 0)
}

func (ec *errCheck) function(f *ssa.Function) {
	s, t, r := ec.s, ec.t, ec.s.r
	x := s.sub()
	x.ex.cut = func(g *ssa.Function) bool { return g != f && ec.kept(g) }
	st := x.state()
	ri := errIndex(f.Signature)
	seen := map[ssa.Instruction]bool{}
	// owed: the signature of the call if the event is one whose error matters
	owed := func(e *Event) *types.Signature {
		if e.kind != EvCall {
			return nil
		}
		switch {
		case e.fn != nil:
			if ec.kept(e.fn) && !ec.neverFails(e.fn) {
				return e.fn.Signature
			}
		case e.method != nil:
			if e.method.Pkg() != nil && strings.HasPrefix(e.method.Pkg().Path(), repoMod) {
				return e.method.Type().(*types.Signature)
			}
		default:
			if c, ok := e.instr.(ssa.CallInstruction); ok {
				return c.Common().Signature()
			}
		}
		return nil
	}
	// carried: loop variables that hold the error of a call into the next round
	carried := map[*LoopRec]map[*Term]*Event{}
	check := func(st *State, es []*Event, ret *Term, next map[*Term]*Term, of *LoopRec) {
		type duty struct {
			err *Term
			e   *Event
		}
		var duties []duty
		inits := map[*Term]bool{}
		if of != nil {
			for v, e := range carried[of] {
				duties = append(duties, duty{v, e})
			}
		}
		for _, e := range es {
			if e.kind == EvLoop && e.loop != nil {
				for _, v := range e.loop.vars {
					if c := carried[e.loop][v.lv]; c != nil {
						inits[v.init] = true
						duties = append(duties, duty{v.lv, c})
					}
				}
			}
		}
		for _, e := range es {
			sig := owed(e)
			if sig == nil {
				continue
			}
			err := errOf(e, sig)
			if err == nil {
				continue
			}
			if !seen[e.instr] {
				seen[e.instr] = true
				r.count("calls whose error is kept", 1)
			}
			if !inits[err] {
				duties = append(duties, duty{err, e})
			}
		}
		for _, d := range duties {
			err, e := d.err, d.e
			r.ok(1)
			nilErr := mkEq(err, mkNil(nil))
			if isTrue(st, nilErr) {
				continue
			}
			pos := s.c.p.instrPos(e.instr)
			if e.fn == ec.rd && isTrue(st, mkEq(err, st.load(t.eos, errorType))) {
				continue // the end of the rules
			}
			kept := false
			for v, n := range next {
				if n == err && v.typ != nil && types.Identical(v.typ, errorType) {
					kept = true
				}
			}
			switch {
			case kept:
			case of != nil:
				x.expect(false, st, "error in loop "+pos, pos, "%s goes on although %s may have failed", f, e.callee)
			case ret == nil:
				x.expect(false, st, "error dropped "+pos, pos, "%s cannot report that %s failed", f, e.callee)
			default:
				ok := true
				for _, q := range split(st, nilErr) {
					if isTrue(q, nilErr) || e.fn == ec.rd && isTrue(q, mkEq(err, q.load(t.eos, errorType))) {
						continue
					}
					if !isTrue(q, mkNot(mkEq(ret, mkNil(nil)))) && feasible(q, mkEq(ret, mkNil(nil))) {
						ok = false
					}
				}
				x.expect(ok, st, "error dropped "+pos, pos, "%s may return no error although %s has failed", f, e.callee)
			}
		}
	}
	outs := x.call(st, f, x.args(st, f, nil)...)
	var loops []*LoopRec
	known := map[*LoopRec]bool{}
	for _, o := range outs {
		for _, e := range allEvents(o.st) {
			if e.kind == EvLoop && e.loop != nil && !known[e.loop] {
				known[e.loop] = true
				loops = append(loops, e.loop)
			}
		}
	}
	for _, l := range loops {
		carried[l] = map[*Term]*Event{}
		for _, b := range l.backs() {
			for _, e := range b.events {
				if sig := owed(e); sig != nil {
					for v, n := range b.next {
						if n == errOf(e, sig) && v.typ != nil && types.Identical(v.typ, errorType) {
							carried[l][v] = e
						}
					}
				}
			}
		}
	}
	for _, l := range loops {
		for _, b := range l.backs() {
			check(b.st, b.events, nil, b.next, l)
		}
	}
	for _, o := range outs {
		var ret *Term
		if ri >= 0 {
			ret = o.rets[ri]
		}
		check(o.st, o.st.ev.list(), ret, nil, nil)
	}
	x.done()
}

// reading is a call that takes bytes from the input.
func reading(f *ssa.Function) bool {
	n := fullName(f)
	return strings.HasPrefix(n, "(*bufio.Reader).") && errIndex(f.Signature) >= 0 && !strings.Contains(n, "Unread")
}

// reader: an error of the input is remembered and returned.
func (ec *errCheck) reader() {
	s, t, r := ec.s, ec.t, ec.s.r
	var fields []int
	st0 := t.scanner.Underlying().(*types.Struct)
	for i := 0; i < st0.NumFields(); i++ {
		if types.Identical(st0.Field(i).Type(), errorType) {
			fields = append(fields, i)
		}
	}
	failed := ghostCell("failed")
	eof := s.c.p.foreignGlobal("io", "EOF")
	var best []func()
	for _, fi := range fields {
		var bad []func()
		bad = ec.readerWith(failed, fi, st0.Field(fi).Type(), eof)
		if best == nil || len(bad) < len(best) {
			best = bad
		}
		if len(bad) == 0 {
			best = nil
			return
		}
	}
	if len(fields) == 0 {
		r.violate("read error", s.c.pos(ec.rd), "the scanner keeps no error of its input")
	}
	for _, f := range best {
		f()
	}
}

func (ec *errCheck) readerWith(failed *Term, fi int, ft types.Type, eof *Term) (bad []func()) {
	s, t := ec.s, ec.t
	units := ec.units()
	for _, m := range units {
		m := m
		x := s.sub()
		x.ex.cut = func(g *ssa.Function) bool { return g != m && units.has(g) }
		sc := mkSym("scanner", types.NewPointer(t.scanner))
		field := mkFieldAddr(sc, fi, types.NewPointer(ft))
		keeps := func(st *State) []*Term {
			f := st.load(field, ft)
			return ([]*Term{mkNot(mkEq(f, st.load(t.eos, errorType))), mkOr([]*Term{mkEq(st.load(failed, tInt), mkInt(0)), mkNot(mkEq(f, mkNil(nil)))})})
		}
		inv := func(st *State) *Term { return mkAnd(keeps(st)) }
		x.ex.headPreds = append(x.ex.headPreds, func(st *State) *Term { return keeps(st)[0] }, func(st *State) *Term { return keeps(st)[1] })
		x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
			if !reading(f) {
				return nil, false
			}
			var outs []Outcome
			for i := 0; i < 3; i++ {
				q := st.clone()
				var rets []*Term
				rt := f.Signature.Results()
				for j := 0; j < rt.Len(); j++ {
					rets = append(rets, mkSym(fmt.Sprintf("read%d_%d_%d", i, j, q.bumpCount("verif:read")), rt.At(j).Type()))
				}
				ei := errIndex(f.Signature)
				switch i {
				case 0:
					rets[ei] = mkNil(nil)
				case 1:
					rets[ei] = q.load(eof, errorType)
					q.assumeQuiet(mkNot(mkEq(rets[ei], mkNil(nil))), true)
					q.assumeQuiet(mkNot(mkEq(rets[ei], q.load(t.eos, errorType))), true)
				case 2:
					q.assumeQuiet(mkNot(mkEq(rets[ei], mkNil(nil))), true)
					q.assumeQuiet(mkNot(mkEq(rets[ei], q.load(eof, errorType))), true)
					q.assumeQuiet(mkNot(mkEq(rets[ei], q.load(t.eos, errorType))), true)
					q.store(failed, mkInt(1), tInt)
				}
				outs = append(outs, Outcome{st: q, rets: rets})
			}
			return outs, true
		}
		// the other units keep the invariant as well
		x.ex.rely = func(st *State, e *Event) func(*State) {
			if e.fn != nil && !units.has(e.fn) {
				return nil
			}
			return func(post *State) {
				post.store(failed, mkSym(fmt.Sprintf("failed%d", post.bumpCount("verif:failed")), tInt), tInt)
				post.assumeQuiet(inv(post), true)
			}
		}
		st := x.state()
		var args []*Term
		for i, p := range m.Params {
			if types.Identical(p.Type(), sc.typ) {
				args = append(args, sc)
			} else {
				args = append(args, x.ex.symArgs(m)[i])
			}
		}
		st.assumeQuiet(nonnilCond(sc), true)
		st.assumeQuiet(inv(st), true)
		n := 0
		for _, o := range x.call(st, m, args...) {
			n++
			o := o
			if !isTrue(o.st, inv(o.st)) {
				bad = append(bad, func() {
					x.expect(false, o.st, "read error lost in "+m.Name(), o.pos, "%s may lose an error of the input", m)
				})
			} else {
				s.r.ok(1)
			}
			if m == ec.rd {
				for _, q := range split(o.st, mkEq(o.rets[1], o.st.load(t.eos, errorType))) {
					q := q
					if v, k := q.eval(mkEq(o.rets[1], q.load(t.eos, errorType))); k && !v {
						continue
					}
					if !isTrue(q, mkEq(q.load(failed, tInt), mkInt(0))) {
						bad = append(bad, func() {
							x.expect(false, q, "read error as end", o.pos, "reading the input may have failed and %s reports the end of the rules", m)
						})
					}
				}
			}
		}
		for _, k := range sortedKeys(x.ex.problems) {
			k := k
			bad = append(bad, func() { s.r.violate("undecided "+k, k, "the analysis could not decide: %s", k) })
		}
		s.r.count("methods of the scanner with read errors", 1)
	}
	return bad
}

type fnList []*ssa.Function

func (l fnList) has(f *ssa.Function) bool {
	for _, g := range l {
		if g == f {
			return true
		}
	}
	return false
}

// units: the functions with a scanner that are judged by themselves: exported ones,
// those with loops, and function values. The others are entered.
func (ec *errCheck) units() fnList {
	s, t := ec.s, ec.t
	roots := []*ssa.Function{t.load}
	roots = append(roots, s.ex.mod.methodsOf(types.NewPointer(t.scanner))...)
	var out fnList
	for _, f := range s.ex.mod.reach(roots...) {
		if !inRepo(f) || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		with := false
		for _, p := range f.Params {
			with = with || types.Identical(p.Type(), types.NewPointer(t.scanner))
		}
		if !with {
			continue
		}
		taken := f.Parent() != nil
		for _, l := range s.c.p.taken {
			taken = taken || fnList(l).has(f)
		}
		if taken || f.Object() != nil && f.Object().Exported() || len(findLoops(f).headers) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// quotes: a quoted text ends with its quote, unless nothing is left of the input.
func (ec *errCheck) quotes() {
	s, t, r := ec.s, ec.t, ec.s.r
	st0 := t.scanner.Underlying().(*types.Struct)
	var best []func()
	tried := 0
	for fi := 0; fi < st0.NumFields(); fi++ {
		b, ok := st0.Field(fi).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		bad, good := ec.quotesWith(fi, st0.Field(fi).Type())
		if len(bad) == 0 && good > 0 {
			r.count("ends of quoted texts", good)
			r.ok(good)
			return
		}
		tried++
		if len(bad) > 0 && (best == nil || len(bad) < len(best)) {
			best = bad
		}
	}
	if len(best) == 0 {
		r.violate("undecided quotes", s.c.pos(t.readString), "how %s follows quoted texts is not known", t.readString)
	}
	for _, f := range best {
		f()
	}
}

func (ec *errCheck) quotesWith(fi int, ft types.Type) (bad []func(), good int) {
	s, t := ec.s, ec.t
	for _, quote := range []int64{'"', '\''} {
		x := s.sub()
		last, prev := ghostCell("last"), ghostCell("prev")
		sc := mkSym("scanner", types.NewPointer(t.scanner))
		field := mkFieldAddr(sc, fi, types.NewPointer(ft))
		x.ex.headPreds = append(x.ex.headPreds, func(st *State) *Term { return mkEq(st.load(field, ft), st.load(last, tInt)) })
		x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
			if strings.HasPrefix(fullName(f), "(*bufio.Reader).Unread") {
				st.store(last, st.load(prev, tInt), tInt)
				return []Outcome{{st: st, rets: []*Term{mkNil(nil)}}}, true
			}
			if !reading(f) || f.Signature.Results().Len() != 2 {
				return nil, false
			}
			var outs []Outcome
			for i := 0; i < 2; i++ {
				q := st.clone()
				n := q.bumpCount("verif:byte")
				c := mkSym(fmt.Sprintf("byte%d", n), f.Signature.Results().At(0).Type())
				e := mkNil(nil)
				if i == 1 {
					e = mkSym(fmt.Sprintf("readerr%d", n), errorType)
					q.assumeQuiet(mkNot(mkEq(e, mkNil(nil))), true)
				}
				q.store(prev, q.load(last, tInt), tInt)
				if i == 0 {
					q.store(last, c, tInt)
				} else {
					q.store(last, mkInt(-2), tInt)
				}
				outs = append(outs, Outcome{st: q, rets: []*Term{c, e}})
			}
			return outs, true
		}
		st := x.state()
		st.assumeQuiet(nonnilCond(sc), true)
		st.store(field, mkInt(quote), ft)
		st.store(last, mkInt(quote), tInt)
		st.store(prev, mkInt(0), tInt)
		for _, o := range x.call(st, t.readString, sc) {
			for _, q := range split(o.st, mkEq(o.rets[1], mkNil(nil))) {
				if v, k := q.eval(mkEq(o.rets[1], mkNil(nil))); !k || !v {
					continue
				}
				if isTrue(q, mkEq(o.rets[0], mkStr(""))) {
					continue
				}
				q, pos := q, o.pos
				if isTrue(q, mkOr([]*Term{mkEq(q.load(prev, tInt), mkInt(quote)), mkEq(q.load(last, tInt), mkInt(quote))})) {
					good++
				} else {
					bad = append(bad, func() {
						x.expect(false, q, fmt.Sprintf("unterminated %c", rune(quote)), pos, "a text that begins with %c is taken although no closing quote was read (%s, %s)", rune(quote), q.load(prev, tInt), q.load(last, tInt))
					})
				}
			}
		}
		for _, k := range sortedKeys(x.ex.problems) {
			k := k
			bad = append(bad, func() { s.r.violate("undecided "+k, k, "the analysis could not decide: %s", k) })
		}
	}
	return bad, good
}

// loading: text that is refused yields no rule set.
func (ec *errCheck) loading() {
	s, t := ec.s, ec.t
	x := s.sub()
	x.ex.cut = func(g *ssa.Function) bool { return g != t.load && ec.kept(g) }
	st := x.state()
	for _, o := range x.call(st, t.load, mkSym("text", tString)) {
		ok := mkOr([]*Term{mkEq(o.rets[1], mkNil(nil)), mkEq(o.rets[0], mkNil(nil))})
		x.must(o.st, ok, "rule set in spite of error", o.pos, "loading fails and yields a rule set nevertheless")
		x.must(o.st, mkOr([]*Term{mkNot(mkEq(o.rets[1], mkNil(nil))), mkNot(mkEq(o.rets[0], mkNil(nil)))}), "neither", o.pos, "loading yields neither a rule set nor an error")
	}
	x.done()
}

func (p *Prog) foreignType(pkg, name string) *types.Named {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == pkg {
			if m, ok := q.Members[name].(*ssa.Type); ok {
				n, _ := m.Type().(*types.Named)
				return n
			}
		}
	}
	return nil
}

func (p *Prog) foreignGlobal(pkg, name string) *Term {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == pkg {
			if g, ok := q.Members[name].(*ssa.Global); ok {
				return T.mk(Term{op: OpGlobal, g: g, typ: g.Type()})
			}
		}
	}
	return mkSym(pkg+"."+name, types.NewPointer(errorType))
}
