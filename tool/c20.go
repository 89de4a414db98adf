package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkOperators }

// checkOperators: C20.
func checkOperators(c *Ctx, r *Report) {
	r.method = methodAI + " Reading a number (strconv) and compiling and matching a regular expression (regexp) are replaced by their documented outcomes."
	r.rule = "for every operator constructor and any argument and value: the constructor returns an error and no operator exactly if the trimmed argument is no number in range (the regular expression does not compile); on every path of Match of the operator made, with the value read as the trimmed text being a number, no number, above or below the range, the result is true exactly if the relation named by Name holds between that number and the argument's (the argument as compiled matches the value)"
	s := c.spec(r)
	known := map[string]bool{}
	for _, f := range s.constructors("modsecurity/operators", "Operator") {
		if f.Signature.Params().Len() != 1 || !isString(f.Signature.Params().At(0).Type()) || errIndex(f.Signature) != 1 {
			r.violate("anchor "+relName(f), c.pos(f), "a constructor of operators with another signature: %s", f.Signature)
			continue
		}
		s.operator(f, known)
	}
	for _, n := range readmeOperators {
		if !known[n] {
			r.violate("no operator "+n, "modsecurity/operators", "no constructor makes an operator named %q", n)
		}
	}
	r.require("operators made", 6)
	r.require("paths of Match judged", 30)
	r.assumption("strconv.ParseInt and Atoi: the number; 0 for text that is none; the nearest number if out of range (documented). int has 64 bits. The name of an operator in SecLang selects the constructor (C08) and the argument reaches it unchanged (C22); no operator is modified by matching (C01)")
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// numText follows the reading of numbers from one text.
type numText struct {
	text *Term
	cell *Term // which outcome this path has: 0 not read, 1 number, 2 none, 3 above, 4 below
	num  *Term
}

func (n *numText) value(st *State) *Term {
	switch v, _ := st.load(n.cell, tInt).intVal(); v {
	case 1:
		return n.num
	case 2:
		return mkInt(0)
	case 3:
		return largest()
	case 4:
		return smallest()
	}
	return nil
}

// numErr: the error of an outcome: a *strconv.NumError that says why.
func numErr(st *State, kind int64, n *numText) *Term {
	if kind == 1 {
		return mkNil(nil)
	}
	t := st.ex.p.foreignType("strconv", "NumError")
	if t == nil {
		return constErr(fmt.Sprintf("verif:number %s %d", n.text, kind))
	}
	p := types.NewPointer(t)
	e := mkSym(fmt.Sprintf("verif:number %s %d", n.text, kind), p)
	st.assumeQuiet(nonnilCond(e), true)
	syntax, rng := st.load(st.ex.p.foreignGlobal("strconv", "ErrSyntax"), errorType), st.load(st.ex.p.foreignGlobal("strconv", "ErrRange"), errorType)
	for _, g := range []*Term{syntax, rng} {
		st.assumeQuiet(nonnilCond(g), true)
	}
	st.assumeQuiet(mkEq(syntax, rng), false)
	fs := t.Underlying().(*types.Struct)
	for i := 0; i < fs.NumFields(); i++ {
		if fs.Field(i).Name() == "Err" {
			why := syntax
			if kind > 2 {
				why = rng
			}
			st.heap[mkFieldAddr(e, i, types.NewPointer(errorType))] = why
		}
	}
	return T.mk(Term{op: OpIface, args: []*Term{e}, typ: p})
}

func errKind(t *Term) (int64, bool) {
	if t.op != OpIface || t.args[0].op != OpSym || !strings.HasPrefix(t.args[0].aux, "verif:number ") {
		return 0, false
	}
	w := t.args[0].aux
	return int64(w[len(w)-1] - '0'), true
}

// rxText follows the compiling and matching of one regular expression.
type rxText struct {
	text, value *Term
	compiled    *Term // cell: 0 no, 1 valid, 2 invalid
	matched     *Term // cell: 0 not asked, 1 matches, 2 does not
	re          *Term
}

func (s *Spec) operator(f *ssa.Function, known map[string]bool) {
	r, c := s.r, s.c
	x := s.sub()
	arg, val := mkAtom("argument", "", 0), mkAtom("value", "", 0)
	trim := func(t *Term) *Term { return mkPure("strings.TrimSpace", []*Term{t}, tString, 0) }
	na := &numText{text: arg, cell: ghostCell("argument"), num: mkSym("number of the argument", types.Typ[types.Int64])}
	nv := &numText{text: val, cell: ghostCell("value"), num: mkSym("number of the value", types.Typ[types.Int64])}
	rx := &rxText{text: arg, value: val, compiled: ghostCell("compiled"), matched: ghostCell("matched")}
	x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		name := fullName(f)
		switch name {
		case "strconv.Atoi", "strconv.ParseInt":
			if name == "strconv.ParseInt" {
				b, ok1 := args[1].intVal()
				w, ok2 := args[2].intVal()
				if !ok1 || !ok2 || b != 10 || w != 64 && w != 0 {
					return nil, false
				}
			}
			for _, n := range []*numText{na, nv} {
				if st.norm(args[0]) == trim(n.text) {
					return n.read(st, f.Signature), true
				}
			}
			return nil, false
		case "errors.Is":
			if k, ok := errKind(st.norm(args[0])); ok {
				if g := loadedGlobal(st, args[1]); g == "strconv.ErrRange" || g == "strconv.ErrSyntax" {
					return []Outcome{{st: st, rets: []*Term{mkBool((k > 2) == (g == "strconv.ErrRange"))}}}, true
				}
			}
			return nil, false
		case "regexp.Compile", "regexp.MustCompile":
			if st.norm(args[0]) != rx.text {
				return nil, false
			}
			return rx.compile(st, f.Signature), true
		}
		if strings.HasPrefix(name, "(*regexp.Regexp).") && rx.re != nil && st.norm(args[0]) == rx.re {
			return rx.match(x, st, f, args)
		}
		return nil, false
	}
	st := x.state()
	for _, g := range []*Term{na.cell, nv.cell, rx.compiled, rx.matched} {
		st.store(g, mkInt(0), tInt)
	}
	for _, n := range []*Term{na.num, nv.num, mkInt(0)} {
		st.assumeQuiet(mkLE(toLin(n).add(toLin(largest()), -1)), true)
		st.assumeQuiet(mkLE(toLin(smallest()).add(toLin(n), -1)), true)
	}
	for _, o := range x.call(st, f, arg) {
		bad := mkNot(mkEq(o.rets[1], mkNil(nil)))
		key := relName(f)
		state := func(g *Term) int64 { v, _ := o.st.load(g, tInt).intVal(); return v }
		if isTrue(o.st, bad) {
			x.expect(state(na.cell) > 1 || state(rx.compiled) == 2, o.st, key+" refuses", o.pos, "%s refuses an argument that is valid", key)
			x.must(o.st, mkEq(o.rets[0], mkNil(nil)), key+" operator in spite of error", o.pos, "%s returns an operator together with an error", key)
			continue
		}
		op := o.st.norm(o.rets[0])
		if !x.expect(isTrue(o.st, mkEq(o.rets[1], mkNil(nil))) && op.op == OpIface, o.st, key+" result", o.pos, "what %s returns is not known: %s, %s", key, op, o.rets[1]) {
			continue
		}
		name := ""
		for _, p := range x.invoke(o.st, op, nil, "Name") {
			name, _ = p.st.norm(p.ret()).strVal()
		}
		if !x.expect(name != "", o.st, key+" name", o.pos, "the name of the operator made by %s is not known", key) {
			continue
		}
		known[name] = true
		r.count("operators made", 1)
		var relation func(a, b *Term) *Term
		le := func(a, b *Term) *Term { return mkLE(toLin(a).add(toLin(b), -1)) }
		switch name {
		case "eq":
			relation = func(v, a *Term) *Term { return mkEq(v, a) }
		case "ge":
			relation = func(v, a *Term) *Term { return le(a, v) }
		case "gt":
			relation = func(v, a *Term) *Term { return mkNot(le(v, a)) }
		case "le":
			relation = func(v, a *Term) *Term { return le(v, a) }
		case "lt":
			relation = func(v, a *Term) *Term { return mkNot(le(a, v)) }
		case "rx":
		default:
			r.violate("unknown operator "+name, o.pos, "there is no statement about the operator %q", name)
			continue
		}
		if relation == nil {
			x.expect(state(rx.compiled) == 1, o.st, key+" accepts", o.pos, "%s accepts an argument that is no regular expression", key)
		} else {
			x.expect(state(na.cell) == 1, o.st, key+" accepts", o.pos, "%s accepts an argument that is no number", key)
		}
		m := c.p.method(op.typ, "Match")
		if m == nil {
			r.violate("anchor Match", o.pos, "the operator of %s has no method Match", key)
			continue
		}
		s.overflow(m)
		tr := mkSym("t", s.tt)
		q0 := o.st.clone()
		q0.assumeQuiet(nonnilCond(tr), true)
		for _, p := range x.invoke(q0, op, nil, "Match", tr, val) {
			for _, q := range split(p.st, p.ret()) {
				yes := isTrue(q, p.ret())
				if !yes && !isTrue(q, mkNot(p.ret())) {
					x.expect(false, q, name+" undecided", p.pos, "what %s decides is not known: %s", name, p.ret())
					continue
				}
				r.count("paths of Match judged", 1)
				var want *Term
				if relation == nil {
					switch v, _ := q.load(rx.matched, tInt).intVal(); v {
					case 1:
						want = mkBool(true)
					case 2:
						want = mkBool(false)
					default:
						x.expect(false, q, name+" not asked", p.pos, "%s decides without matching the value against its argument", name)
						continue
					}
				} else {
					n := nv.value(q)
					if n == nil {
						x.expect(false, q, name+" not read", p.pos, "%s decides without reading the number of the value", name)
						continue
					}
					want = relation(n, na.num)
				}
				if !yes {
					want = mkNot(want)
				}
				ok := isTrue(q, want)
				x.expect(ok, q, fmt.Sprintf("%s says %v", name, yes), p.pos, "%s says %v although it does not hold that %s", name, yes, want)
			}
		}
	}
	x.done()
}

// The largest and the smallest number, which the linear domain does not represent.
func largest() *Term  { return mkSym("the largest number", types.Typ[types.Int64]) }
func smallest() *Term { return mkSym("the smallest number", types.Typ[types.Int64]) }

func (n *numText) read(st *State, sig *types.Signature) []Outcome {
	var out []Outcome
	for k := int64(1); k <= 4; k++ {
		if v, _ := st.load(n.cell, tInt).intVal(); v != 0 && v != k {
			continue
		}
		q := st.clone()
		q.store(n.cell, mkInt(k), tInt)
		out = append(out, Outcome{st: q, rets: []*Term{n.value(q), numErr(q, k, n)}})
	}
	return out
}

func (x *rxText) compile(st *State, sig *types.Signature) []Outcome {
	rt := sig.Results().At(0).Type()
	x.re = mkSym("the regular expression", rt)
	var out []Outcome
	for k := int64(1); k <= 2; k++ {
		if v, _ := st.load(x.compiled, tInt).intVal(); v != 0 && v != k {
			continue
		}
		q := st.clone()
		q.store(x.compiled, mkInt(k), tInt)
		q.assumeQuiet(nonnilCond(x.re), true)
		o := Outcome{st: q}
		switch {
		case k == 1 && sig.Results().Len() == 1:
			o.rets = []*Term{x.re}
		case k == 1:
			o.rets = []*Term{x.re, mkNil(nil)}
		case sig.Results().Len() == 1:
			continue // panics: C04
		default:
			o.rets = []*Term{mkNil(rt), constErr("verif:regexp")}
		}
		out = append(out, o)
	}
	return out
}

// match: methods that tell whether the expression matches the value.
func (x *rxText) match(s *Spec, st *State, f *ssa.Function, args []*Term) ([]Outcome, bool) {
	if len(args) < 2 {
		return nil, false
	}
	a := st.norm(args[1])
	text := a == x.value || bytesOf(a) == x.value
	if !text || f.Signature.Results().Len() != 1 {
		return nil, false
	}
	rt := f.Signature.Results().At(0).Type()
	var out []Outcome
	for k := int64(1); k <= 2; k++ {
		if v, _ := st.load(x.matched, tInt).intVal(); v != 0 && v != k {
			continue
		}
		q := st.clone()
		q.store(x.matched, mkInt(k), tInt)
		var ret *Term
		name := f.Name()
		switch {
		case name == "MatchString" || name == "Match":
			ret = mkBool(k == 1)
		case strings.HasPrefix(name, "Find") && !strings.HasPrefix(name, "FindAll") && k == 2 && !isString(rt):
			ret = mkNil(rt)
		case strings.HasPrefix(name, "Find") && !strings.HasPrefix(name, "FindAll") && !isString(rt):
			ret = mkSym("match", rt)
			q.assumeQuiet(nonnilCond(ret), true)
			if strings.HasSuffix(name, "Index") {
				q.assumeQuiet(mkLE(lin{k: 2}.add(toLin(mkLen(ret)), -1)), true)
			} else if strings.Contains(name, "Submatch") {
				q.assumeQuiet(mkLE(lin{k: 1}.add(toLin(mkLen(ret)), -1)), true)
			}
		default:
			return nil, false
		}
		out = append(out, Outcome{st: q, rets: []*Term{ret}})
	}
	return out, true
}

// bytesOf: the text of []byte(text).
func bytesOf(a *Term) *Term {
	if a != nil && a.op == OpConv && len(a.args) == 1 {
		return a.args[0]
	}
	return nil
}

// loadedGlobal: the name of the foreign variable a term was loaded from.
func loadedGlobal(st *State, t *Term) string {
	for _, n := range []string{"strconv.ErrRange", "strconv.ErrSyntax", "io.EOF"} {
		i := strings.Index(n, ".")
		g := st.ex.p.foreignGlobal(n[:i], n[i+1:])
		if st.norm(t) == st.norm(st.load(g, errorType)) {
			return n
		}
	}
	return ""
}

// overflow: the analysis takes numbers as unbounded; arithmetic on what is compared is not
// understood.
func (s *Spec) overflow(m *ssa.Function) {
	for _, f := range s.ex.mod.reach(m) {
		if !inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok || op.Op != token.ADD && op.Op != token.SUB && op.Op != token.MUL && op.Op != token.SHL {
					continue
				}
				if bt, ok := op.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
					continue
				}
				_, k1 := op.X.(*ssa.Const)
				_, k2 := op.Y.(*ssa.Const)
				if k1 || k2 {
					continue
				}
				s.r.violate("arithmetic "+s.c.p.instrPos(in), s.c.p.instrPos(in), "%s computes %s: differences of 64-bit numbers overflow, so that the comparison is not decided by the relation", relName(f), op)
			}
		}
	}
}
