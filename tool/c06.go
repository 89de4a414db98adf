package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C06"] = checkTermination }

// ranking: why a loop comes to an end.
type ranking struct {
	s   *Spec
	rec *LoopRec
	why []string
}

// lasting: a term that denotes the same value in every iteration.
func (k *ranking) lasting(t *Term) bool {
	if k.rec.varies(t) {
		return false
	}
	return !contains(t, func(x *Term) bool {
		switch x.op {
		case OpLoad:
			return k.rec.pre.load(x.args[0], x.typ) != x
		case OpLookup:
			return x.n != k.rec.pre.mapGen(x.args[0]) && !contains(k.known(), func(y *Term) bool { return y == x })
		}
		return false
	})
}

// known: what was there before the loop: the initial values of its variables.
func (k *ranking) known() *Term {
	var l []*Term
	for _, v := range k.rec.vars {
		if v.init != nil {
			l = append(l, v.init)
		}
	}
	return T.mk(Term{op: OpPure, aux: "verif:known", args: l})
}

// measures: the numbers that the loop's variables make up.
func (k *ranking) measures() []*loopVar {
	var out []*loopVar
	for _, v := range k.rec.vars {
		if v.lv.typ != nil {
			out = append(out, v)
		}
	}
	return out
}

func (k *ranking) grows() bool {
	backs := k.rec.backs()
	for _, v := range k.measures() {
		t := v.lv.typ.Underlying()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			up, down := true, true
			for _, o := range backs {
				up = up && isTrue(o.st, mkLE(toLin(v.lv).add(toLin(o.next[v.lv]), -1).add(lin{k: 1}, 1)))
				down = down && isTrue(o.st, mkLE(toLin(o.next[v.lv]).add(toLin(v.lv), -1).add(lin{k: 1}, 1)))
			}
			if up && k.bounded(v.lv, 1) {
				k.why = append(k.why, fmt.Sprintf("%s grows up to a bound", v.lv))
				return true
			}
			if down && k.bounded(v.lv, -1) {
				k.why = append(k.why, fmt.Sprintf("%s falls to a bound", v.lv))
				return true
			}
		}
		shorter := false
		switch b := t.(type) {
		case *types.Slice:
			shorter = b != nil
		case *types.Basic:
			shorter = b.Info()&types.IsString != 0
		}
		for _, o := range backs {
			shorter = shorter && isTrue(o.st, mkLE(toLin(mkLen(o.next[v.lv])).add(toLin(mkLen(v.lv)), -1).add(lin{k: 1}, 1)))
		}
		if shorter {
			k.why = append(k.why, fmt.Sprintf("%s becomes shorter", v.lv))
			return true
		}
	}
	return false
}

// bounded: on every way back, sign*v is at most something that does not change.
func (k *ranking) bounded(v *Term, sign int64) bool {
	for _, o := range k.rec.backs() {
		ok := false
		for _, f := range o.facts {
			l, isLE := leOf(o.st, f)
			if !isLE {
				continue
			}
			c := l.c[v]
			if c*sign <= 0 {
				continue
			}
			rest := true
			for t := range l.c {
				rest = rest && (t == v || k.lasting(t))
			}
			if rest {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// leOf: a fact as a linear inequality.
func leOf(st *State, f *Term) (lin, bool) {
	neg := false
	for f.op == OpNot {
		f, neg = f.args[0], !neg
	}
	if v, known := st.eval(f); known && !v {
		neg = true
	}
	if f.op != OpLE {
		return lin{}, false
	}
	l := toLin(f.args[0])
	if neg {
		l = l.scale(-1).add(lin{k: 1}, 1)
	}
	return l, true
}

// walks: the loop goes over a map or the characters of a text, once.
func walks(p *Prog, l *natLoop) (string, bool) {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			if n.Block() != l.header {
				continue
			}
			rg, ok := n.Iter.(*ssa.Range)
			if !ok || l.blocks[rg.Block()] {
				continue
			}
			if n.IsString {
				return "the characters of a text", true
			}
			for c := range l.blocks {
				for _, x := range c.Instrs {
					if u, ok := x.(*ssa.MapUpdate); ok && u.Map == rg.X {
						return "", false
					}
				}
			}
			return "the entries of a map", true
		}
	}
	return "", false
}

// scanning: how scanning goes on. The input that is left and the character looked at: a step
// forward takes input, or comes to its end.
type scanning struct {
	s     *Spec
	x     *Spec
	left  *Term // cell: characters left in the readers
	last  *Term // cell: the last operation read a character
	st    types.Type
	field int
	ft    types.Type
	eos   *Term
	kinds map[*ssa.Function]*readKind
	root  *ssa.Function
	scan  *Term // the scanner
}

// readKind: what is known of a function that scans.
type readKind struct {
	fn      *ssa.Function
	param   int
	errAt   int  // which result is the error, -1 none
	forward bool // without error, if it is not called at the end of the input, it goes on
	ends    bool // called at the end of the input it gives an error
	sticks  bool // called at the end of the input it stays there
	onward  bool // it never goes back in the input
	moves   bool // the character looked at changes only with input taken, or at its end
}

func (s *Spec) scanning() *scanning {
	t := s.c.p.typ("seclang/parser", "Scanner")
	if t == nil {
		s.r.violate("anchor", "seclang/parser", "type Scanner not found")
		return nil
	}
	rd := &scanning{s: s, st: types.NewPointer(t), field: -1, left: ghostCell("left"), last: ghostCell("last read"), kinds: map[*ssa.Function]*readKind{}}
	fs := derefStruct(rd.st)
	for i := 0; fs != nil && i < fs.NumFields(); i++ {
		if b, ok := fs.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			if rd.field >= 0 {
				s.r.violate("anchor", "seclang/parser", "Scanner has more than one field for a character")
				return nil
			}
			rd.field, rd.ft = i, fs.Field(i).Type()
		}
	}
	e, ok := s.constant("seclang/parser", "EOS")
	if rd.field < 0 || !ok {
		s.r.violate("anchor", "seclang/parser", "the field of Scanner for the character looked at was not found")
		return nil
	}
	rd.eos = mkInt(e)
	return rd
}

func (rd *scanning) cur(st *State, scan *Term) *Term {
	return st.norm(st.load(mkFieldAddr(scan, rd.field, types.NewPointer(rd.ft)), rd.ft))
}

func (rd *scanning) rest(st *State) *Term { return st.norm(st.load(rd.left, tInt)) }

// forward: from (l0, c0) to (l1, c1) input was taken, or its end was come to.
func (rd *scanning) forward(l0, c0, l1, c1 *Term) *Term {
	return mkOr([]*Term{less(l1, l0), mkAnd([]*Term{lessEq(l1, l0), mkNot(mkEq(c0, rd.eos)), mkEq(c1, rd.eos)})})
}

// moved: nothing happened, or input was taken, or its end was come to.
func (rd *scanning) moved(l0, c0, l1, c1 *Term) *Term {
	return mkOr([]*Term{less(l1, l0), mkEq(c1, c0), mkEq(c1, rd.eos)})
}

func less(a, b *Term) *Term { return lessEq(mkAdd(a, mkInt(1)), b) }

func (rd *scanning) fresh(st *State) *Term {
	n := mkSym(fmt.Sprintf("verif:left %d", st.bumpCount("verif:left")), tInt)
	st.assumeQuiet(mkLE(toLin(n).scale(-1)), true)
	return n
}

// after: the outcomes of a function of which only its kind is known.
func (rd *scanning) after(pre *State, k *readKind, scan *Term, post *State, rets []*Term) []Outcome {
	l0, c0 := rd.rest(pre), rd.cur(pre, scan)
	l1 := rd.fresh(post)
	post.store(rd.left, l1, tInt)
	post.store(rd.last, mkInt(0), tInt)
	if k.onward {
		post.assumeQuiet(lessEq(l1, l0), true)
	}
	c1 := rd.cur(post, scan)
	if k.errAt < 0 && !k.moves {
		return []Outcome{{st: post, rets: rets}}
	}
	var out []Outcome
	add := func(conds ...*Term) {
		q := post.clone()
		for _, c := range conds {
			if !q.assumeQuiet(c, true) {
				return
			}
		}
		out = append(out, Outcome{st: q, rets: rets})
	}
	if at := mkEq(c0, rd.eos); k.sticks {
		post.assumeQuiet(mkOr([]*Term{mkNot(at), mkEq(c1, rd.eos)}), true)
	}
	some, stays, end := less(l1, l0), mkEq(c1, c0), mkEq(c1, rd.eos)
	if k.errAt < 0 {
		add(some)
		add(mkNot(some), stays)
		add(mkNot(some), mkNot(stays), end)
		return out
	}
	none := mkEq(rets[k.errAt], mkNil(nil))
	add(mkNot(none))
	at := mkEq(c0, rd.eos)
	if !k.ends {
		add(none, at, some)
		add(none, at, mkNot(some))
	}
	add(none, mkNot(at), some)
	add(none, mkNot(at), mkNot(some), end)
	if !k.forward {
		add(none, mkNot(at), mkNot(some), stays)
	}
	if !k.forward && !k.moves {
		add(none, mkNot(at), mkNot(some), mkNot(stays), mkNot(end))
	}
	return out
}

func (rd *scanning) hook(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
	switch fullName(f) {
	case "(*bufio.Reader).ReadByte", "(*bufio.Reader).ReadRune":
		var out []Outcome
		left := rd.rest(st)
		ok := st.clone()
		if ok.assumeQuiet(less(mkInt(0), left), true) {
			ok.store(rd.left, mkSub(left, mkInt(1)), tInt)
			ok.store(rd.last, mkInt(1), tInt)
			c := mkSym(fmt.Sprintf("verif:char %d", ok.bumpCount("verif:char")), f.Signature.Results().At(0).Type())
			ok.assumeQuiet(mkLE(toLin(c).scale(-1)), true)
			rets := []*Term{c}
			if f.Name() == "ReadRune" {
				rets = append(rets, mkInt(1))
			}
			out = append(out, Outcome{st: ok, rets: append(rets, mkNil(nil))})
		}
		bad := st.clone()
		bad.store(rd.last, mkInt(0), tInt)
		err := mkSym(fmt.Sprintf("verif:read error %d", bad.bumpCount("verif:read error")), errorType)
		bad.assumeQuiet(nonnilCond(err), true)
		rets := []*Term{mkInt(0)}
		if f.Name() == "ReadRune" {
			rets = append(rets, mkInt(0))
		}
		out = append(out, Outcome{st: bad, rets: append(rets, err)})
		return out, true
	case "(*bufio.Reader).UnreadByte", "(*bufio.Reader).UnreadRune":
		q := st.clone()
		switch n, known := q.load(rd.last, tInt).intVal(); {
		case known && n == 1:
			q.store(rd.left, mkAdd(rd.rest(q), mkInt(1)), tInt)
			q.store(rd.last, mkInt(0), tInt)
			return []Outcome{{st: q, rets: []*Term{mkNil(nil)}}}, true
		case known:
			return []Outcome{{st: q, rets: []*Term{constErr("verif:unread")}}}, true
		}
		q.store(rd.left, rd.fresh(q), tInt)
		return []Outcome{{st: q, rets: []*Term{mkSym("verif:unread", errorType)}}}, true
	case "bufio.NewReader", "bufio.NewReaderSize", "(*bufio.Reader).Reset":
		st.store(rd.left, rd.fresh(st), tInt)
		return nil, false
	}
	k := rd.kinds[f]
	if k == nil || f == rd.root {
		return nil, false
	}
	q := st.clone()
	for _, a := range args {
		q.markEscaped(a)
	}
	q.havocClasses(q.ex.mod.classesOf([]*ssa.Function{f}))
	call := T.mk(Term{op: OpCall, aux: relName(f), args: args, n: int64(q.bumpCount("call:" + relName(f))), typ: resultType(f.Signature)})
	q.ex.cands[call] = []*ssa.Function{f}
	q.event(&Event{kind: EvCall, callee: relName(f), fn: f, args: args, instr: in, res: call})
	var rets []*Term
	switch r := f.Signature.Results(); r.Len() {
	case 0:
	case 1:
		rets = []*Term{call}
	default:
		for i := 0; i < r.Len(); i++ {
			rets = append(rets, T.mk(Term{op: OpExtract, args: []*Term{call}, n: int64(i), typ: r.At(i).Type()}))
		}
	}
	return rd.after(st, k, st.norm(args[k.param]), q, rets), true
}

// called: what is known after a call of a function value that scans.
func (rd *scanning) called(st *State, e *Event) func(*State) {
	ci, ok := e.instr.(ssa.CallInstruction)
	if e.kind != EvCall || e.fn != nil || e.method != nil || !ok {
		return nil
	}
	k := rd.kindOf(ci.Common().Signature())
	if k == nil {
		return nil
	}
	for _, f := range rd.s.c.p.taken[stripNames(ci.Common().Signature())] {
		g := rd.kinds[f]
		if g == nil {
			return nil
		}
		k.forward, k.ends, k.sticks = k.forward && g.forward, k.ends && g.ends, k.sticks && g.sticks
		k.onward, k.moves = k.onward && g.onward, k.moves && g.moves
	}
	pre := st.clone()
	scan := st.norm(e.args[k.param])
	return func(post *State) {
		l0, c0 := rd.rest(pre), rd.cur(pre, scan)
		l1 := rd.fresh(post)
		post.store(rd.left, l1, tInt)
		post.store(rd.last, mkInt(0), tInt)
		if k.onward {
			post.assumeQuiet(lessEq(l1, l0), true)
		}
		c1 := rd.cur(post, scan)
		at, conds := mkEq(c0, rd.eos), []*Term{}
		if k.sticks {
			conds = append(conds, mkOr([]*Term{mkNot(at), mkEq(c1, rd.eos)}))
		}
		if k.errAt < 0 {
			if k.moves {
				conds = append(conds, rd.moved(l0, c0, l1, c1))
			}
		} else {
			err := e.res
			if ci.Common().Signature().Results().Len() > 1 {
				err = T.mk(Term{op: OpExtract, args: []*Term{e.res}, n: int64(k.errAt), typ: errorType})
			}
			bad := mkNot(mkEq(err, mkNil(nil)))
			if k.ends {
				conds = append(conds, mkOr([]*Term{bad, mkNot(at)}))
			}
			if k.forward {
				conds = append(conds, mkOr([]*Term{bad, at, less(l1, l0), mkEq(c1, rd.eos)}))
			} else if k.moves {
				conds = append(conds, mkOr([]*Term{bad, at, less(l1, l0), mkEq(c1, rd.eos), mkEq(c1, c0)}))
			}
		}
		for _, c := range conds {
			post.assumeQuiet(c, true)
		}
	}
}

func (rd *scanning) kindOf(sig *types.Signature) *readKind {
	k := &readKind{param: -1, errAt: -1, forward: true, ends: true, sticks: true, onward: true, moves: true}
	n := 0
	if v := sig.Recv(); v != nil {
		if types.Identical(v.Type(), rd.st) {
			k.param = 0
		}
		n = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if k.param < 0 && types.Identical(sig.Params().At(i).Type(), rd.st) {
			k.param = n + i
		}
	}
	if m := sig.Results().Len(); m > 0 && types.Identical(sig.Results().At(m-1).Type(), errorType) {
		k.errAt = m - 1
	}
	if k.param < 0 {
		return nil
	}
	return k
}

// run executes f with the kinds known so far.
func (rd *scanning) run(f *ssa.Function) (*Spec, *State, *Term, []Outcome) {
	x := rd.s.sub()
	rd.x, rd.root = x, f
	st, args := rd.s.c.rootState(x.ex, f)
	st.store(rd.left, rd.fresh(st), tInt)
	st.store(rd.last, mkInt(0), tInt)
	x.ex.hook = rd.hook
	x.ex.rely = rd.called
	scan := mkSym("verif:scanner", rd.st)
	if k := rd.kindOf(f.Signature); k != nil {
		scan = args[k.param]
		l0, c0 := rd.rest(st), rd.cur(st, scan)
		x.ex.headPreds = []func(*State) *Term{
			func(q *State) *Term { return lessEq(rd.rest(q), l0) },
			func(q *State) *Term { return mkOr([]*Term{mkNot(mkEq(c0, rd.eos)), mkEq(rd.cur(q, scan), rd.eos)}) },
			func(q *State) *Term { return rd.moved(l0, c0, rd.rest(q), rd.cur(q, scan)) },
		}
	}
	return x, st, scan, x.call(st, f, args...)
}

// learn: the kinds of all functions that scan: those that have loops or call what has.
func (rd *scanning) learn() {
	s := rd.s
	loops := map[*ssa.Function]bool{}
	for _, f := range s.c.p.funcs {
		if inRepo(f) && len(findLoops(f).headers) > 0 {
			loops[f] = true
		}
	}
	for _, f := range s.c.p.funcs {
		if !inRepo(f) || len(f.Blocks) == 0 {
			continue
		}
		k := rd.kindOf(f.Signature)
		if k == nil {
			continue
		}
		looped := false
		for _, g := range s.c.p.taken[stripNames(f.Signature)] {
			looped = looped || g == f
		}
		for _, g := range s.ex.mod.reach(f) {
			looped = looped || loops[g]
		}
		if looped {
			k.fn = f
			rd.kinds[f] = k
		}
	}
	var fns []*ssa.Function
	for f := range rd.kinds {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return relName(fns[i]) < relName(fns[j]) })
	for again := true; again; {
		again = false
		for _, f := range fns {
			k := rd.kinds[f]
			x, st, scan, outs := rd.run(f)
			l0, c0 := rd.rest(st), rd.cur(st, scan)
			for _, o := range outs {
				if !o.st.saturate() {
					continue
				}
				l1, c1 := rd.rest(o.st), rd.cur(o.st, scan)
				if k.onward && !isTrue(o.st, lessEq(l1, l0)) {
					k.onward, again = false, true
				}
				for _, z := range split(o.st, mkEq(c0, rd.eos)) {
					if k.sticks && isTrue(z, mkEq(c0, rd.eos)) && !isTrue(z, mkEq(c1, rd.eos)) && z.saturate() {
						k.sticks, again = false, true
					}
				}
				if k.errAt < 0 {
					if k.moves && !isTrue(o.st, rd.moved(l0, c0, l1, c1)) {
						k.moves, again = false, true
					}
					continue
				}
				for _, q := range split(o.st, mkEq(o.rets[k.errAt], mkNil(nil))) {
					if !isTrue(q, mkEq(o.rets[k.errAt], mkNil(nil))) {
						continue
					}
					if k.moves && !isTrue(q, rd.moved(l0, c0, l1, c1)) {
						k.moves, again = false, true
					}
					for _, z := range split(q, mkEq(c0, rd.eos)) {
						if !z.saturate() {
							continue
						}
						if isTrue(z, mkEq(c0, rd.eos)) {
							if k.ends {
								k.ends, again = false, true
							}
						} else if k.forward && !isTrue(z, rd.forward(l0, c0, l1, c1)) {
							k.forward, again = false, true
						}
					}
				}
			}
			_ = x
		}
	}
}

// reads: every way back to the loop head has gone on in the input.
func (k *ranking) reads(rd *scanning, scan *Term) bool {
	for _, o := range k.rec.backs() {
		if !isTrue(o.st, rd.forward(rd.rest(k.rec.hst), rd.cur(k.rec.hst, scan), rd.rest(o.st), rd.cur(o.st, scan))) {
			return false
		}
	}
	k.why = append(k.why, "every iteration takes input")
	return true
}
