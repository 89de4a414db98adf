package main

// Path-partitioned abstract interpretation of SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Invs struct {
	nonnil map[string]bool
	lower  map[string]int64
	// elemBad: element types of slices that are made with nil elements
	elemBad map[string]bool
	// cond: reference fields that are non-nil whenever a flag of the object is set
	cond map[string][]condInv
}

type condInv struct {
	flag, ref  string
	fi, ri     int
	ftyp, rtyp types.Type
}

type Obl struct {
	fn    *ssa.Function
	instr ssa.Instruction
	kind  string
	ok    int
	fails []string
}

type Exec struct {
	p   *Prog
	inv *Invs
	mod *Mods
	// cut: calls of this function stay opaque (an event)
	cut func(*ssa.Function) bool
	// hook: replaces a call of a library function
	hook      func(fn *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool)
	pairEq    bool                    // candidate invariants: integer loop variables with constant difference
	headPreds []func(st *State) *Term // candidate loop invariants supplied by a check
	// pureFn: repo functions treated as pure functions of their arguments
	pureFn func(*ssa.Function) bool
	// pureInvoke: interface methods treated as pure
	pureInvoke func(*types.Func) bool
	// rely: what an opaque call preserves; called before it, the result after it
	rely func(st *State, e *Event) func(*State)
	// nomod: opaque call that is assumed to modify nothing known
	nomod func(e *Event) bool
	// snap: events for which a copy of the state is kept
	snap      func(e *Event) bool
	onStore   func(st *State, addr, val *Term, in ssa.Instruction)
	onEscape  func(st *State, root *Term)
	maxDepth  int
	base      *State
	problems  map[string]string
	obl       map[string]*Obl
	steps     int
	maxSteps  int
	dead      bool
	loops     map[*ssa.Function]*loopInfo
	cands     map[*Term][]*ssa.Function
	sums      *Sums
	fnsSeen   map[*ssa.Function]bool
	paths     int
	siteIDs   map[ssa.Instruction]string
	snaps     map[*Event]*State
	loopRecs  []*LoopRec
	noUnroll  bool
	noForms   bool
	splitMaps bool
	// unrollMaps: known tables are ranged over entry by entry (C23 rules out that the
	// order matters)
	unrollMaps bool
	// auto: functions with more outcomes than this are not entered (0: no limit)
	auto       int
	calledBack map[*ssa.Function]bool
	// functions that auto does not apply to
	enter func(*ssa.Function) bool
}

// mapsBackwards: known tables are ranged over from the last entry to the first.
var mapsBackwards bool

// bothOrders runs a check for both orders of ranging over known tables.
func bothOrders(f func()) {
	f()
	mapsBackwards = true
	f()
	mapsBackwards = false
}

func newExec(p *Prog, inv *Invs, mod *Mods) *Exec {
	ex := &Exec{p: p, inv: inv, mod: mod, maxDepth: 24, problems: map[string]string{}, maxSteps: 3000000, loops: map[*ssa.Function]*loopInfo{}, cands: map[*Term][]*ssa.Function{}, fnsSeen: map[*ssa.Function]bool{}, siteIDs: map[ssa.Instruction]string{}, snaps: map[*Event]*State{}}
	if ex.inv == nil {
		ex.inv = &Invs{nonnil: map[string]bool{}, lower: map[string]int64{}}
	}
	return ex
}

func (ex *Exec) problem(in ssa.Instruction, format string, a ...interface{}) {
	pos := "?"
	if in != nil {
		pos = ex.p.instrPos(in)
		if in.Parent() != nil {
			pos += " (" + relName(in.Parent()) + ")"
		}
	}
	m := fmt.Sprintf(format, a...)
	ex.problems[pos+": "+m] = m
}

type Outcome struct {
	st    *State
	rets  []*Term
	panic bool
	pos   string
}

func (o *Outcome) ret() *Term {
	if len(o.rets) == 0 {
		return nil
	}
	return o.rets[0]
}

type deferred struct {
	common *ssa.CallCommon
	fnv    *Term
	args   []*Term
	instr  ssa.Instruction
}

type frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]*Term
	bind   []*Term
	defers []deferred
	depth  int
	stack  []*ssa.Function
}

func (fr *frame) clone() *frame {
	n := &frame{fn: fr.fn, bind: fr.bind, depth: fr.depth, stack: fr.stack}
	n.vals = make(map[ssa.Value]*Term, len(fr.vals)+4)
	for k, v := range fr.vals {
		n.vals[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	return n
}

type contKind uint8

const (
	cReturn contKind = iota
	cPanic
	cExit
	cBack
)

type cont struct {
	kind      contKind
	blk, prev *ssa.BasicBlock
	fr        *frame
	st        *State
	rets      []*Term
	pos       string
}

func (ex *Exec) site(in ssa.Instruction) string {
	if s, ok := ex.siteIDs[in]; ok {
		return s
	}
	b := in.Block()
	idx := 0
	for i, x := range b.Instrs {
		if x == in {
			idx = i
		}
	}
	s := fmt.Sprintf("%s#%d.%d", relName(in.Parent()), b.Index, idx)
	ex.siteIDs[in] = s
	return s
}

// newRoot returns a fresh state based on the state after package initialisation.
func (ex *Exec) newRoot() *State {
	if ex.base != nil {
		st := ex.base.clone()
		st.ex = ex
		st.ev = nil
		st.forder = nil
		return st
	}
	return newState(ex)
}

// symArgs makes symbolic arguments for a function.
func (ex *Exec) symArgs(fn *ssa.Function, names ...string) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		out = append(out, mkSym(n, p.Type()))
	}
	return out
}

func (ex *Exec) run0(fn *ssa.Function, args []*Term, st *State) []Outcome {
	return ex.execFn(fn, args, nil, st, 0, nil, nil)
}

func (ex *Exec) execFn(fn *ssa.Function, args, bind []*Term, st *State, depth int, stack []*ssa.Function, at ssa.Instruction) []Outcome {
	ex.fnsSeen[fn] = true
	fr := &frame{fn: fn, vals: map[ssa.Value]*Term{}, bind: bind, depth: depth, stack: append(stack[:len(stack):len(stack)], fn)}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		} else {
			fr.vals[p] = mkSym(p.Name(), p.Type())
		}
	}
	cs := ex.runBlock(fr, fn.Blocks[0], nil, st, nil)
	var out []Outcome
	for _, c := range cs {
		switch c.kind {
		case cReturn:
			out = append(out, Outcome{st: c.st, rets: c.rets, pos: c.pos})
		case cPanic:
			out = append(out, Outcome{st: c.st, panic: true, pos: c.pos})
		default:
			ex.problem(at, "internal: block escape")
		}
	}
	return out
}

func (ex *Exec) tick(in ssa.Instruction) bool {
	ex.steps++
	if ex.steps > ex.maxSteps {
		if !ex.dead {
			ex.problem(in, "analysis budget exhausted")
		}
		ex.dead = true
	}
	return !ex.dead
}

// runBlock executes from the start of block b (entered from prev) until the function
// returns or the region is left.
func (ex *Exec) runBlock(fr *frame, b, prev *ssa.BasicBlock, st *State, reg *region) []cont {
	if ex.dead {
		return nil
	}
	if reg != nil {
		if b == reg.header {
			return []cont{{kind: cBack, blk: b, prev: prev, fr: fr, st: st}}
		}
		if !reg.blocks[b] {
			return []cont{{kind: cExit, blk: b, prev: prev, fr: fr, st: st}}
		}
	}
	if l := ex.loopsOf(fr.fn).headers[b]; l != nil {
		return ex.execLoop(fr, l, prev, st, reg)
	}
	if prev != nil {
		ex.enterPhis(fr, b, prev)
	}
	return ex.runInstrs(fr, b, 0, st, reg)
}

func (ex *Exec) enterPhis(fr *frame, b, prev *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, ex.val(fr, phi.Edges[pi]))
	}
	for i, p := range phis {
		fr.vals[p] = vals[i]
	}
}

func (ex *Exec) val(fr *frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroValue(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return T.mk(Term{op: OpFunc, fn: v, typ: v.Type()})
	case *ssa.Global:
		return T.mk(Term{op: OpGlobal, g: v, typ: v.Type()})
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				if i < len(fr.bind) {
					return fr.bind[i]
				}
				return mkSym("free:"+v.Name(), v.Type())
			}
		}
	case *ssa.Builtin:
		return mkSym("builtin:"+v.Name(), v.Type())
	}
	if t, ok := fr.vals[v]; ok {
		return t
	}
	ex.problem(nil, "internal: value %s of %s undefined", v.Name(), fr.fn)
	return mkSym("undef:"+v.Name(), v.Type())
}

// must records the obligation cond at instr and assumes it. false: execution certainly
// panics here.
func (ex *Exec) must(st *State, cond *Term, kind string, in ssa.Instruction) bool {
	v, known := st.eval(cond)
	ok := known && v
	if ex.obl != nil && in != nil {
		k := kind + "|" + ex.site(in)
		o := ex.obl[k]
		if o == nil {
			o = &Obl{fn: in.Parent(), instr: in, kind: kind}
			ex.obl[k] = o
		}
		if ok {
			o.ok++
		} else if len(o.fails) < 3 {
			o.fails = append(o.fails, cond.String()+" not established when "+st.factString())
		}
	}
	if ok {
		return true
	}
	if known && !v {
		return false
	}
	return st.assumeQuiet(cond, true)
}

func (ex *Exec) mustNonNil(st *State, t *Term, in ssa.Instruction) bool {
	if definitelyNonNil(t) {
		return true
	}
	if t.op == OpSym && strings.HasPrefix(t.aux, "free:") {
		return true
	}
	return ex.must(st, mkNot(mkEq(t, mkNil(nil))), "nil dereference", in)
}

// cutConds: resolve an If condition into literal cases.
func (ex *Exec) cases(st *State, c *Term) []condCase {
	if v, k := st.eval(c); k {
		return []condCase{{st, v}}
	}
	// boolean equality: decide one side first
	x := c
	neg := false
	if x.op == OpNot {
		x, neg = x.args[0], true
	}
	if x.op == OpEq && isBool2(x.args[0]) && isBool2(x.args[1]) {
		var out []condCase
		for _, b := range []bool{true, false} {
			s2 := st.clone()
			if !s2.assume(x.args[0], b) {
				continue
			}
			for _, b2 := range []bool{true, false} {
				s3 := s2.clone()
				if !s3.assume(x.args[1], b2) {
					continue
				}
				out = append(out, condCase{s3, (b == b2) != neg})
			}
		}
		return out
	}
	var out []condCase
	for _, b := range []bool{true, false} {
		s2 := st
		if b {
			s2 = st.clone()
		}
		if s2.assume(c, b) {
			out = append(out, condCase{s2, b})
		}
	}
	return out
}

type condCase struct {
	st *State
	v  bool
}

func isBool2(t *Term) bool { return t.typ != nil && isBoolType(t.typ) }

func (ex *Exec) runInstrs(fr *frame, b *ssa.BasicBlock, i int, st *State, reg *region) []cont {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if !ex.tick(in) {
			return nil
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := ex.val(fr, in.Cond)
			var out []cont
			cs := ex.cases(st, c)
			for k, cc := range cs {
				f2 := fr
				if k < len(cs)-1 {
					f2 = fr.clone()
				}
				succ := b.Succs[1]
				if cc.v {
					succ = b.Succs[0]
				}
				out = append(out, ex.runBlock(f2, succ, b, cc.st, reg)...)
			}
			return out
		case *ssa.Jump:
			return ex.runBlock(fr, b.Succs[0], b, st, reg)
		case *ssa.Return:
			var rets []*Term
			for _, r := range in.Results {
				rets = append(rets, ex.val(fr, r))
			}
			ex.paths++
			return []cont{{kind: cReturn, fr: fr, st: st, rets: rets, pos: ex.p.instrPos(in)}}
		case *ssa.Panic:
			v := ex.val(fr, in.X)
			_ = v
			ex.must(st, mkBool(false), "explicit panic", in)
			return []cont{{kind: cPanic, fr: fr, st: st, pos: ex.p.instrPos(in)}}
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			states := []*State{st}
			for k := len(ds) - 1; k >= 0; k-- {
				var next []*State
				for _, s := range states {
					for _, o := range ex.callTerm(fr, s, ds[k].common, ds[k].fnv, ds[k].args, ds[k].instr) {
						if !o.panic {
							next = append(next, o.st)
						}
					}
				}
				states = next
			}
			var out []cont
			for k, s := range states {
				f2 := fr
				if k < len(states)-1 {
					f2 = fr.clone()
				}
				out = append(out, ex.runInstrs(f2, b, i+1, s, reg)...)
			}
			return out
		case *ssa.Defer:
			fnv, args := ex.callOperands(fr, &in.Call)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{&in.Call, fnv, args, in})
			continue
		case *ssa.Call:
			fnv, args := ex.callOperands(fr, &in.Call)
			os := ex.callTerm(fr, st, &in.Call, fnv, args, in)
			var out []cont
			live := 0
			for _, o := range os {
				if !o.panic {
					live++
				}
			}
			for _, o := range os {
				if o.panic {
					out = append(out, cont{kind: cPanic, fr: fr, st: o.st, pos: o.pos})
					continue
				}
				live--
				f2 := fr
				if live > 0 {
					f2 = fr.clone()
				}
				f2.vals[in] = tuple(in.Type(), o.rets)
				if len(os) == 1 {
					st = o.st
					goto next
				}
				out = append(out, ex.runInstrs(f2, b, i+1, o.st, reg)...)
			}
			return out
		next:
			continue
		default:
			forks, ok := ex.simple(fr, st, in)
			if !ok {
				return []cont{{kind: cPanic, fr: fr, st: st, pos: ex.p.instrPos(in)}}
			}
			if forks == nil {
				continue
			}
			var out []cont
			for k, f := range forks {
				f2 := fr
				if k < len(forks)-1 {
					f2 = fr.clone()
				}
				f2.vals[in.(ssa.Value)] = f.v
				out = append(out, ex.runInstrs(f2, b, i+1, f.st, reg)...)
			}
			return out
		}
	}
	ex.problem(nil, "internal: block without terminator in %s", fr.fn)
	return nil
}

func tuple(t types.Type, rets []*Term) *Term {
	if len(rets) == 1 {
		if tp, ok := t.(*types.Tuple); !ok || tp.Len() == 1 {
			return rets[0]
		}
	}
	if len(rets) == 0 {
		return mkNil(t)
	}
	return T.mk(Term{op: OpStruct, args: rets, typ: t})
}

type fork struct {
	st *State
	v  *Term
}

// simple executes an instruction without control effect. It returns forks when the
// result depends on a case split; ok=false means the path certainly panics.
func (ex *Exec) simple(fr *frame, st *State, in ssa.Instruction) ([]fork, bool) {
	val := func(v ssa.Value) *Term { return ex.val(fr, v) }
	set := func(v *Term) { fr.vals[in.(ssa.Value)] = v }
	switch in := in.(type) {
	case *ssa.Alloc:
		id := ex.site(in)
		t := T.mk(Term{op: OpAlloc, aux: id, n: int64(st.bumpCount("new:" + id)), typ: in.Type()})
		set(t)
	case *ssa.UnOp:
		x := val(in.X)
		switch in.Op {
		case token.MUL:
			if x.op != OpFieldAddr && x.op != OpIndexAddr {
				if !ex.mustNonNil(st, x, in) {
					return nil, false
				}
			}
			set(st.load(x, in.Type()))
		case token.NOT:
			set(mkNot(x))
		case token.SUB:
			set(fromLin(toLin(x).scale(-1)))
		case token.XOR:
			set(T.mk(Term{op: OpBin, aux: "^", args: []*Term{mkInt(-1), x}, typ: in.Type()}))
		default:
			ex.problem(in, "unsupported operation %s", in.Op)
			set(ex.unk(st, in.Type()))
		}
	case *ssa.BinOp:
		r, ok := ex.binop(st, in, val(in.X), val(in.Y))
		if !ok {
			return nil, false
		}
		set(r)
	case *ssa.ChangeInterface:
		set(val(in.X))
	case *ssa.ChangeType:
		set(val(in.X))
	case *ssa.Convert:
		v := ex.convert(st, val(in.X), in.X.Type(), in.Type())
		if v.op == OpConv && isStringType(in.X.Type()) && isByteSlice(in.Type()) && onlyRead(in) {
			v = T.mk(Term{op: OpConv, aux: "read", args: v.args, typ: v.typ})
		}
		set(v)
	case *ssa.MakeInterface:
		if ex.obl != nil && ex.p.calledThrough(in) && !definitelyNonNil(val(in.X)) {
			ex.must(st.clone(), mkNot(mkEq(val(in.X), mkNil(nil))), "nil pointer in an interface", in)
		}
		set(T.mk(Term{op: OpIface, args: []*Term{val(in.X)}, typ: in.X.Type()}))
	case *ssa.MakeClosure:
		var b []*Term
		for _, x := range in.Bindings {
			b = append(b, val(x))
		}
		set(T.mk(Term{op: OpClosure, fn: in.Fn.(*ssa.Function), args: b, typ: in.Type()}))
	case *ssa.MakeMap:
		id := ex.site(in)
		t := T.mk(Term{op: OpAlloc, aux: id, n: int64(st.bumpCount("new:" + id)), typ: in.Type()})
		st.maps[t] = &MapC{exact: true}
		set(t)
	case *ssa.MakeSlice:
		id := ex.site(in)
		n := val(in.Len)
		if !ex.must(st, mkLE(toLin(n).scale(-1)), "make with negative size", in) {
			return nil, false
		}
		if v, ok := st.norm(n).intVal(); ok && v == 0 {
			set(T.mk(Term{op: OpSized, args: []*Term{mkInt(0)}, aux: id, n: int64(st.bumpCount("new:" + id)), typ: in.Type()}))
			break
		}
		set(T.mk(Term{op: OpSized, args: []*Term{n}, aux: id, n: int64(st.bumpCount("new:" + id)), typ: in.Type()}))
	case *ssa.FieldAddr:
		x := val(in.X)
		if x.op != OpFieldAddr && x.op != OpIndexAddr {
			if !ex.mustNonNil(st, x, in) {
				return nil, false
			}
		}
		set(mkFieldAddr(x, in.Field, in.Type()))
	case *ssa.Field:
		set(mkField(val(in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		x, i := val(in.X), val(in.Index)
		var n *Term
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if !ex.mustNonNil(st, x, in) {
				return nil, false
			}
			n = mkInt(p.Elem().Underlying().(*types.Array).Len())
		} else {
			n = mkLen(x)
		}
		if !ex.bounds(st, i, n, in) {
			return nil, false
		}
		set(mkIndexAddr(x, st.norm(i), in.Type()))
	case *ssa.Index:
		x, i := val(in.X), val(in.Index)
		var n *Term
		if a, ok := in.X.Type().Underlying().(*types.Array); ok {
			n = mkInt(a.Len())
		} else {
			n = mkLen(x)
		}
		if !ex.bounds(st, i, n, in) {
			return nil, false
		}
		set(mkIndex(x, st.norm(i), in.Type()))
	case *ssa.Lookup:
		return ex.lookup(fr, st, in, val(in.X), val(in.Index))
	case *ssa.Slice:
		return ex.slice(fr, st, in)
	case *ssa.Store:
		a, v := val(in.Addr), val(in.Val)
		if a.op != OpFieldAddr && a.op != OpIndexAddr {
			if !ex.mustNonNil(st, a, in) {
				return nil, false
			}
		}
		if ex.onStore != nil {
			ex.onStore(st, a, v, in)
		}
		if !st.privateAlloc(addrRoot(a)) {
			st.event(&Event{kind: EvStore, addr: a, val: v, instr: in})
		}
		ex.elemObl(st, a, v, in)
		st.store(a, v, in.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := val(in.Map), val(in.Key), val(in.Value)
		if !ex.must(st, mkNot(mkEq(m, mkNil(nil))), "assignment to nil map", in) {
			return nil, false
		}
		if mt, ok := in.Map.Type().Underlying().(*types.Map); ok && ex.elemNonNil(mt.Elem()) {
			ex.must(st, mkNot(mkEq(v, mkNil(nil))), "nil stored in a map", in)
		}
		if ex.onStore != nil {
			ex.onStore(st, m, v, in)
		}
		st.mapSet(m, st.norm(k), v, in)
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, st, in, val(in.X))
	case *ssa.Extract:
		x := val(in.Tuple)
		if x.op == OpStruct {
			set(x.args[in.Index])
		} else {
			set(T.mk(Term{op: OpExtract, args: []*Term{x}, n: int64(in.Index), typ: in.Type()}))
		}
	case *ssa.Range:
		x := val(in.X)
		id := ex.site(in)
		t := T.mk(Term{op: OpRange, args: []*Term{x}, aux: id, n: int64(st.bumpCount("new:" + id)), typ: in.X.Type()})
		st.heap[t] = mkInt(0)
		set(t)
	case *ssa.Next:
		return ex.next(fr, st, in, val(in.Iter))
	case *ssa.Go:
		st.event(&Event{kind: EvGo, instr: in})
		ex.problem(in, "goroutine started")
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		ex.problem(in, "channel operation")
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = ex.unk(st, v.Type())
		}
	default:
		ex.problem(in, "unsupported instruction %T", in)
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = ex.unk(st, v.Type())
		}
	}
	return nil, true
}

// elemObl: storing a nil element into a slice of library pointers or interfaces.
func (ex *Exec) elemObl(st *State, a, v *Term, in *ssa.Store) {
	if a.op == OpIndexAddr && ex.elemNonNil(in.Val.Type()) {
		ex.must(st, mkNot(mkEq(v, mkNil(nil))), "nil stored in a slice", in)
	}
}

func (ex *Exec) unk(st *State, t types.Type) *Term {
	return T.mk(Term{op: OpUnk, aux: "u", n: int64(st.bumpCount("unk")), typ: t})
}

func (ex *Exec) bounds(st *State, i, n *Term, in ssa.Instruction) bool {
	if !ex.must(st, mkLE(toLin(i).scale(-1)), "index may be negative", in) {
		return false
	}
	return ex.must(st, mkLE(toLin(i).add(toLin(n), -1).add(lin{k: 1}, 1)), "index may exceed the length", in)
}

func (ex *Exec) binop(st *State, in *ssa.BinOp, x, y *Term) (*Term, bool) {
	xt := in.X.Type()
	switch in.Op {
	case token.EQL:
		return ex.equal(st, x, y), true
	case token.NEQ:
		return mkNot(ex.equal(st, x, y)), true
	}
	if isIntType(xt) {
		x, y = st.norm(x), st.norm(y)
		switch in.Op {
		case token.ADD:
			return mkAdd(x, y), true
		case token.SUB:
			return mkSub(x, y), true
		case token.LSS:
			return mkLE(toLin(x).add(toLin(y), -1).add(lin{k: 1}, 1)), true
		case token.LEQ:
			return mkLE(toLin(x).add(toLin(y), -1)), true
		case token.GTR:
			return mkLE(toLin(y).add(toLin(x), -1).add(lin{k: 1}, 1)), true
		case token.GEQ:
			return mkLE(toLin(y).add(toLin(x), -1)), true
		case token.MUL:
			if v, ok := x.intVal(); ok {
				return fromLin(toLin(y).scale(v)), true
			}
			if v, ok := y.intVal(); ok {
				return fromLin(toLin(x).scale(v)), true
			}
		case token.QUO, token.REM:
			if !ex.must(st, mkNot(mkEq(y, mkInt(0))), "division by zero", in) {
				return nil, false
			}
		case token.SHL, token.SHR:
			if !isUnsigned(in.Y.Type()) {
				if !ex.must(st, mkLE(toLin(y).scale(-1)), "negative shift", in) {
					return nil, false
				}
			}
			if xv, ok := x.intVal(); ok {
				if yv, ok := y.intVal(); ok && yv >= 0 && yv < 62 {
					return mkConst(constant.Shift(constant.MakeInt64(xv), in.Op, uint(yv)), xt), true
				}
			}
			if yv, ok := y.intVal(); ok && in.Op == token.SHL && yv >= 0 && yv < 31 {
				if b, ok := xt.Underlying().(*types.Basic); ok && b.Kind() != types.Uint8 && b.Kind() != types.Int8 && b.Kind() != types.Uint16 && b.Kind() != types.Int16 {
					return fromLin(toLin(x).scale(1 << uint(yv))), true
				}
			}
		}
		if xv, ok := x.intVal(); ok {
			if yv, ok := y.intVal(); ok && yv != 0 {
				op := in.Op
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				if op != token.SHL && op != token.SHR {
					return mkConst(constant.BinaryOp(constant.MakeInt64(xv), op, constant.MakeInt64(yv)), xt), true
				}
			}
		}
		if (in.Op == token.OR || in.Op == token.AND || in.Op == token.XOR || in.Op == token.MUL) && x.id > y.id {
			x, y = y, x
		}
		return T.mk(Term{op: OpBin, aux: in.Op.String(), args: []*Term{x, y}, typ: in.Type()}), true
	}
	if isStringType(xt) {
		switch in.Op {
		case token.ADD:
			return mkConcat(x, y), true
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return mkStrCmp(in.Op, x, y), true
		}
	}
	return T.mk(Term{op: OpBin, aux: in.Op.String(), args: []*Term{x, y}, typ: in.Type()}), true
}

func mkStrCmp(op token.Token, x, y *Term) *Term {
	if xs, ok := x.strVal(); ok {
		if ys, ok := y.strVal(); ok {
			return mkBool(constant.Compare(constant.MakeString(xs), op, constant.MakeString(ys)))
		}
	}
	switch op {
	case token.GTR:
		return mkStrCmp(token.LSS, y, x)
	case token.LEQ:
		return mkNot(mkStrCmp(token.LSS, y, x))
	case token.GEQ:
		return mkNot(mkStrCmp(token.LSS, x, y))
	}
	return T.mk(Term{op: OpBin, aux: "s<", args: []*Term{x, y}, typ: tBool})
}

// mkConcat keeps a flat list of parts.
func mkConcat(x, y *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if s, ok := t.strVal(); ok {
			if s == "" {
				return
			}
			if len(parts) > 0 {
				if p, ok := parts[len(parts)-1].strVal(); ok {
					parts[len(parts)-1] = mkStr(p + s)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	for _, t := range []*Term{x, y} {
		if t.op == OpBin && t.aux == "concat" {
			for _, a := range t.args {
				add(a)
			}
		} else {
			add(t)
		}
	}
	switch len(parts) {
	case 0:
		return mkStr("")
	case 1:
		return parts[0]
	}
	return T.mk(Term{op: OpBin, aux: "concat", args: parts, typ: tString})
}

// equal compares two values of any comparable type.
func (ex *Exec) equal(st *State, x, y *Term) *Term {
	x, y = st.norm(x), st.norm(y)
	if x.op == OpIface && y.op == OpIface {
		if !types.Identical(x.typ, y.typ) {
			return mkBool(false)
		}
		return ex.equal(st, x.args[0], y.args[0])
	}
	if x.op == OpStruct && y.op == OpStruct && len(x.args) == len(y.args) {
		var cs []*Term
		for i := range x.args {
			cs = append(cs, ex.equal(st, x.args[i], y.args[i]))
		}
		return mkAnd(cs)
	}
	return mkEq(x, y)
}

func intBits(t types.Type) (bits int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed, true
	case types.Int16, types.Uint16:
		return 16, signed, true
	case types.Int32, types.Uint32:
		return 32, signed, true
	}
	return 64, signed, true
}

// onlyRead: the elements of the slice are only loaded.
func onlyRead(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, y := range *x.Referrers() {
				switch u := y.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if u.Op != token.MUL {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (ex *Exec) convert(st *State, x *Term, from, to types.Type) *Term {
	fb, fs, ok1 := intBits(from)
	tb, ts, ok2 := intBits(to)
	if ok1 && ok2 {
		if v, ok := x.intVal(); ok {
			if tb == 64 && ts || (v >= 0 && (tb == 64 || v < 1<<uint(tb-1))) || (v < 0 && ts && v >= -(1<<uint(tb-1))) || (!ts && v >= 0 && v < 1<<uint(tb)) {
				return x
			}
		}
		if fs == ts && tb >= fb || !fs && ts && tb > fb {
			return x
		}
		// value known to be in range
		if tb < 64 {
			lo, hi := int64(0), int64(1)<<uint(tb)-1
			if ts {
				lo, hi = -(int64(1) << uint(tb-1)), int64(1)<<uint(tb-1)-1
			}
			l := toLin(x)
			if st.entails(l.add(lin{k: hi}, -1)) && st.entails(l.scale(-1).add(lin{k: lo}, 1)) {
				return x
			}
		}
		return T.mk(Term{op: OpConv, args: []*Term{x}, typ: to})
	}
	if isStringType(from) && isStringType(to) {
		return x
	}
	if v, ok := x.intVal(); ok && isStringType(to) {
		return mkStr(string(rune(v)))
	}
	if s, ok := x.strVal(); ok && isByteSlice(to) && s == "" {
		return T.mk(Term{op: OpConv, args: []*Term{x}, typ: to})
	}
	// []byte(string(b)) and string([]byte(s)) are the same bytes
	if x.op == OpConv && isStringType(to) && isByteSlice(x.typ) && isStringType(x.args[0].typ) {
		return x.args[0]
	}
	return T.mk(Term{op: OpConv, args: []*Term{x}, typ: to})
}

// ---- maps ----

// mapView: what is known of m[k]: value (nil if unknown), presence.
func (st *State) mapView(m, k *Term) (v *Term, has, known bool) {
	if v, kn := st.eval(mkEq(m, mkNil(nil))); kn && v {
		return nil, false, true
	}
	c := st.maps[m]
	if c == nil {
		return nil, false, false
	}
	for i := len(c.entries) - 1; i >= 0; i-- {
		e := c.entries[i]
		if e.k == k {
			return e.v, true, true
		}
		eq, kn := st.eval(st.ex.equal(st, e.k, k))
		if !kn {
			return nil, false, false
		}
		if eq {
			return e.v, true, true
		}
	}
	if c.exact {
		return nil, false, true
	}
	return nil, false, false
}

func (st *State) mapGen(m *Term) int64 {
	g := int64(0)
	if c := st.maps[m]; c != nil {
		g = int64(c.gen)
	}
	if !(freshRoot(m) && !st.escaped[m]) {
		g = g*1000 + int64(st.gens[mapClass(m.typ)])
	}
	return g
}

func (st *State) mapSet(m, k, v *Term, in ssa.Instruction) {
	cls := mapClass(m.typ)
	priv := st.privateAlloc(m)
	if !priv {
		st.event(&Event{kind: EvMapSet, addr: m, key: k, val: v, instr: in})
		for o, c := range st.maps {
			if o != m && mapClass(o.typ) == cls && !st.privateAlloc(o) && !(freshRoot(o) && freshRoot(m)) {
				st.maps[o] = &MapC{gen: c.gen + 1}
			}
		}
		st.gens[cls]++
		st.markEscaped(v)
		st.markEscaped(k)
	}
	old := st.maps[m]
	nc := &MapC{}
	if old != nil {
		nc.exact = old.exact
		nc.gen = old.gen + 1
		nc.entries = append(nc.entries, old.entries...)
	}
	for i, e := range nc.entries {
		if eq, kn := st.eval(st.ex.equal(st, e.k, k)); e.k == k || kn && eq {
			nc.entries = append(nc.entries[:i:i], nc.entries[i+1:]...)
			break
		}
	}
	nc.entries = append(nc.entries, mapEntry{k, v})
	st.maps[m] = nc
	delete(st.comp, m)
}

func (ex *Exec) lookupTerm(st *State, m, k *Term, typ types.Type) *Term {
	return T.mk(Term{op: OpLookup, args: []*Term{m, k}, n: st.mapGen(m), typ: typ})
}
func (ex *Exec) hasTerm(st *State, m, k *Term) *Term {
	return T.mk(Term{op: OpHas, args: []*Term{m, k}, n: st.mapGen(m), typ: tBool})
}

func (ex *Exec) lookup(fr *frame, st *State, in *ssa.Lookup, m, k *Term) ([]fork, bool) {
	k = st.norm(k)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string
		if !ex.bounds(st, k, mkLen(m), in) {
			return nil, false
		}
		fr.vals[in] = mkIndex(m, k, in.Type())
		return nil, true
	}
	et := mt.Elem()
	v, has, known := st.mapView(m, k)
	mk := func(v *Term, has bool) *Term {
		if !in.CommaOk {
			return v
		}
		return T.mk(Term{op: OpStruct, args: []*Term{v, mkBool(has)}, typ: in.Type()})
	}
	if known {
		if has {
			fr.vals[in] = mk(v, true)
		} else {
			fr.vals[in] = mk(zeroValue(et), false)
		}
		return nil, true
	}
	if fs := ex.splitLookup(st, m, k, et, mk); fs != nil {
		return fs, true
	}
	lt := ex.lookupTerm(st, m, k, et)
	h := ex.hasTerm(st, m, k)
	if !in.CommaOk {
		if b, kn := st.eval(h); kn && !b {
			fr.vals[in] = zeroValue(et)
		} else {
			fr.vals[in] = lt
		}
		return nil, true
	}
	var out []fork
	for _, c := range ex.cases(st, h) {
		if c.v {
			out = append(out, fork{c.st, mk(lt, true)})
		} else {
			out = append(out, fork{c.st, mk(zeroValue(et), false)})
		}
	}
	return out, true
}

// splitLookup: one case per entry of a completely known table, and one for a missing key.
func (ex *Exec) splitLookup(st *State, m, k *Term, et types.Type, mk func(*Term, bool) *Term) []fork {
	c := st.maps[m]
	if !ex.splitMaps || c == nil || !c.exact || len(c.entries) > 64 {
		return nil
	}
	for _, e := range c.entries {
		if !e.k.isConst() {
			return nil
		}
	}
	var out []fork
	rest := st.clone()
	for _, e := range c.entries {
		s2 := rest.clone()
		if s2.assume(ex.equal(s2, k, e.k), true) {
			out = append(out, fork{s2, mk(e.v, true)})
		}
		if !rest.assume(ex.equal(rest, k, e.k), false) {
			return out
		}
	}
	return append(out, fork{rest, mk(zeroValue(et), false)})
}

func (ex *Exec) slice(fr *frame, st *State, in *ssa.Slice) ([]fork, bool) {
	x := ex.val(fr, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = st.norm(ex.val(fr, in.Low))
	} else {
		lo = mkInt(0)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n := p.Elem().Underlying().(*types.Array).Len()
		if !ex.mustNonNil(st, x, in) {
			return nil, false
		}
		hi = mkInt(n)
		if in.High != nil {
			hi = st.norm(ex.val(fr, in.High))
			if !ex.must(st, mkLE(toLin(hi).add(lin{k: n}, -1)), "slice bound exceeds the array", in) {
				return nil, false
			}
		}
		if !ex.must(st, mkLE(toLin(lo).scale(-1)), "slice bound may be negative", in) {
			return nil, false
		}
		if !ex.must(st, mkLE(toLin(lo).add(toLin(hi), -1)), "slice bounds may be inverted", in) {
			return nil, false
		}
		fr.vals[in] = T.mk(Term{op: OpSlice, args: []*Term{x, lo, hi}, typ: in.Type()})
		return nil, true
	}
	n := mkLen(x)
	hi = n
	if in.High != nil {
		hi = st.norm(ex.val(fr, in.High))
		if !ex.must(st, mkLE(toLin(hi).add(toLin(n), -1)), "slice bound may exceed the length", in) {
			return nil, false
		}
	}
	if !ex.must(st, mkLE(toLin(lo).scale(-1)), "slice bound may be negative", in) {
		return nil, false
	}
	if !ex.must(st, mkLE(toLin(lo).add(toLin(hi), -1)), "slice bounds may be inverted", in) {
		return nil, false
	}
	r := mkSlice(x, lo, hi, in.Type())
	fr.vals[in] = r
	ex.sliceFacts(st, x, lo, hi, n, r)
	return nil, true
}

func (ex *Exec) typeAssert(fr *frame, st *State, in *ssa.TypeAssert, x *Term) ([]fork, bool) {
	x = st.norm(x)
	it, toIface := in.AssertedType.Underlying().(*types.Interface)
	mk := func(v *Term, ok bool) *Term {
		if !in.CommaOk {
			return v
		}
		return T.mk(Term{op: OpStruct, args: []*Term{v, mkBool(ok)}, typ: in.Type()})
	}
	zero := zeroValue(in.AssertedType)
	if x.op == OpIface {
		ok := false
		v := x
		if toIface {
			ok = types.Implements(x.typ, it)
		} else {
			ok = types.Identical(x.typ, in.AssertedType)
			v = x.args[0]
		}
		if !ok {
			if !in.CommaOk {
				ex.must(st, mkBool(false), "type assertion", in)
				return nil, false
			}
			fr.vals[in] = mk(zero, false)
			return nil, true
		}
		fr.vals[in] = mk(v, true)
		return nil, true
	}
	is := T.mk(Term{op: OpIs, args: []*Term{x}, typ: in.AssertedType})
	if toIface {
		if xi, ok := in.X.Type().Underlying().(*types.Interface); ok && types.Implements(xi, it) {
			is = mkNot(mkEq(x, mkNil(nil)))
		}
	}
	av := x
	if !toIface {
		av = T.mk(Term{op: OpAssert, args: []*Term{x}, typ: in.AssertedType})
	}
	if !in.CommaOk {
		if !ex.must(st, is, "type assertion", in) {
			return nil, false
		}
		fr.vals[in] = av
		return nil, true
	}
	var out []fork
	for _, c := range ex.cases(st, is) {
		if c.v {
			if !c.st.assume(mkEq(x, mkNil(nil)), false) {
				continue
			}
			// an error does not hold a nil pointer
			if _, isPtr := in.AssertedType.Underlying().(*types.Pointer); isPtr && isErrorType(in.X.Type()) && !c.st.assume(mkEq(av, mkNil(nil)), false) {
				continue
			}
			out = append(out, fork{c.st, mk(av, true)})
		} else {
			out = append(out, fork{c.st, mk(zero, false)})
		}
	}
	return out, true
}

// next: one step of a range over a map or string.
func (ex *Exec) next(fr *frame, st *State, in *ssa.Next, it *Term) ([]fork, bool) {
	x := it
	if it.op == OpRange {
		x = st.norm(it.args[0])
	}
	tt := in.Type().(*types.Tuple)
	mk := func(ok bool, k, v *Term) *Term {
		return T.mk(Term{op: OpStruct, args: []*Term{mkBool(ok), k, v}, typ: tt})
	}
	zk, zv := ex.zeroOr(tt.At(1).Type()), ex.zeroOr(tt.At(2).Type())
	pos, conc := st.heap[it]
	if conc {
		if i, ok := pos.intVal(); ok && !ex.noUnroll {
			if s, ok := x.strVal(); ok {
				if int(i) >= len(s) {
					fr.vals[in] = mk(false, zk, zv)
					return nil, true
				}
				for j, r := range s[i:] {
					_ = j
					w := len(string(r))
					fr.vals[in] = mk(true, mkInt(i), mkInt(int64(r)))
					st.heap[it] = mkInt(i + int64(w))
					return nil, true
				}
			}
			if l, kn := st.eval(mkEq(mkLen(x), mkInt(0))); kn && l {
				fr.vals[in] = mk(false, zk, zv)
				return nil, true
			}
			if c := st.maps[x]; c != nil && c.exact && (len(c.entries) <= 1 || ex.unrollMaps && len(c.entries) <= 64) {
				if int(i) >= len(c.entries) {
					fr.vals[in] = mk(false, zk, zv)
					return nil, true
				}
				st.heap[it] = mkInt(i + 1)
				e := c.entries[i]
				if mapsBackwards {
					e = c.entries[len(c.entries)-1-int(i)]
				}
				fr.vals[in] = mk(true, e.k, e.v)
				return nil, true
			}
		}
	}
	if c := st.maps[x]; c != nil && c.exact && len(c.entries) == 0 {
		fr.vals[in] = mk(false, zk, zv)
		return nil, true
	}
	// symbolic iteration
	n := int64(st.bumpCount("next:" + fmt.Sprint(it.id)))
	hasNext := T.mk(Term{op: OpElem, aux: "more", args: []*Term{it}, n: n, typ: tBool})
	var kt, vt *Term
	if in.IsString {
		kt = T.mk(Term{op: OpElem, aux: "idx", args: []*Term{x, it}, n: n, typ: tInt})
		vt = T.mk(Term{op: OpElem, aux: "rune", args: []*Term{x, it}, n: n, typ: types.Typ[types.Rune]})
	} else {
		mt := x.typ.Underlying().(*types.Map)
		kt = T.mk(Term{op: OpElem, aux: "key", args: []*Term{x, it}, n: n, typ: mt.Key()})
		vt = T.mk(Term{op: OpElem, aux: "elem", args: []*Term{x, it}, n: n, typ: mt.Elem()})
	}
	st.heap[it] = T.mk(Term{op: OpUnk, aux: "iter", n: n, typ: tInt})
	var out []fork
	for _, c := range ex.cases(st, hasNext) {
		if c.v {
			if in.IsString {
				c.st.assume(mkLE(toLin(kt).add(toLin(mkLen(x)), -1).add(lin{k: 1}, 1)), true)
			}
			out = append(out, fork{c.st, mk(true, kt, vt)})
		} else {
			out = append(out, fork{c.st, mk(false, zk, zv)})
		}
	}
	return out, true
}

func (ex *Exec) zeroOr(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return mkInt(0)
	}
	return zeroValue(t)
}

// ---- calls ----

func (ex *Exec) callOperands(fr *frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	if c.IsInvoke() {
		return ex.val(fr, c.Value), args
	}
	return ex.val(fr, c.Value), args
}

func (ex *Exec) callTerm(fr *frame, st *State, c *ssa.CallCommon, fnv *Term, args []*Term, in ssa.Instruction) []Outcome {
	if !ex.tick(in) {
		return nil
	}
	if c.IsInvoke() {
		recv := st.norm(fnv)
		if !ex.must(st, mkNot(mkEq(recv, mkNil(nil))), "method call on nil interface", in) {
			return []Outcome{{st: st, panic: true, pos: ex.p.instrPos(in)}}
		}
		if recv.op == OpIface {
			if m := ex.p.method(recv.typ, c.Method.Name()); m != nil {
				return ex.callFn(fr, st, m, nil, append([]*Term{recv.args[0]}, args...), in)
			}
		}
		// the dynamic type is known by a fact
		for f, v := range st.facts {
			if v && f.op == OpIs && f.args[0] == recv {
				if _, isI := f.typ.Underlying().(*types.Interface); !isI {
					if m := ex.p.method(f.typ, c.Method.Name()); m != nil {
						av := T.mk(Term{op: OpAssert, args: []*Term{recv}, typ: f.typ})
						return ex.callFn(fr, st, m, nil, append([]*Term{av}, args...), in)
					}
				}
			}
		}
		return ex.opaque(st, in, invokeName(c.Method), nil, c.Method, recv, args, c.Signature())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, b.Name(), args, in, c)
	}
	fnv = st.norm(fnv)
	switch fnv.op {
	case OpFunc:
		return ex.callFn(fr, st, fnv.fn, nil, args, in)
	case OpClosure:
		return ex.callFn(fr, st, fnv.fn, fnv.args, args, in)
	}
	if !ex.must(st, mkNot(mkEq(fnv, mkNil(nil))), "call of nil function", in) {
		return []Outcome{{st: st, panic: true, pos: ex.p.instrPos(in)}}
	}
	return ex.opaque(st, in, "dynamic", nil, nil, fnv, args, c.Signature())
}

func invokeName(m *types.Func) string {
	s := "(" + typeStr(m.Type().(*types.Signature).Recv().Type()) + ")." + m.Name()
	return strings.ReplaceAll(s, repoMod+"/", "")
}

func (ex *Exec) callFn(fr *frame, st *State, fn *ssa.Function, bind, args []*Term, in ssa.Instruction) []Outcome {
	if ex.hook != nil {
		if outs, ok := ex.hook(fn, st, args, in); ok {
			return outs
		}
	}
	if len(fn.Blocks) == 0 {
		return ex.external(st, in, fn, args)
	}
	name := relName(fn)
	if ex.pureFn != nil && ex.pureFn(fn) {
		return []Outcome{{st: st, rets: ex.pureRets(name, args, fn.Signature, 0)}}
	}
	rec := false
	for _, f := range fr.stack {
		if f == fn {
			rec = true
		}
	}
	if rec || fr.depth >= ex.maxDepth || ex.cut != nil && ex.cut(fn) || ex.auto > 0 && ex.sums != nil && !(ex.enter != nil && ex.enter(fn)) && ex.sums.size(fn) > ex.auto {
		if fr.depth >= ex.maxDepth && !rec {
			ex.problem(in, "call depth limit at %s", name)
		}
		return ex.opaque(st, in, name, fn, nil, nil, args, fn.Signature)
	}
	return ex.execFn(fn, args, bind, st, fr.depth+1, fr.stack, in)
}

func (ex *Exec) pureRets(name string, args []*Term, sig *types.Signature, n int64) []*Term {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return []*Term{mkPure(name, args, r.At(0).Type(), n)}
	}
	call := T.mk(Term{op: OpPure, aux: name, args: args, typ: r, n: n})
	var out []*Term
	for i := 0; i < r.Len(); i++ {
		out = append(out, T.mk(Term{op: OpExtract, args: []*Term{call}, n: int64(i), typ: r.At(i).Type()}))
	}
	return out
}

// opaque performs a call whose callee is not entered.
func (ex *Exec) opaque(st *State, in ssa.Instruction, name string, fn *ssa.Function, m *types.Func, recv *Term, args []*Term, sig *types.Signature) []Outcome {
	for i, a := range args {
		args[i] = st.canon(a)
	}
	e := &Event{kind: EvCall, callee: name, fn: fn, method: m, recv: recv, args: args, instr: in}
	all := args
	if recv != nil {
		all = append([]*Term{recv}, args...)
	}
	if m != nil && ex.pureInvoke != nil && ex.pureInvoke(m) {
		return []Outcome{{st: st, rets: ex.pureRets(name, all, sig, 0)}}
	}
	var cands []*ssa.Function
	switch {
	case fn != nil:
		cands = []*ssa.Function{fn}
	case m != nil:
		cands = ex.mod.invokeTargets(m)
	default:
		cands = ex.p.taken[stripNames(sig)]
	}
	n := int64(st.bumpCount("call:" + name))
	call := T.mk(Term{op: OpCall, aux: name, args: all, n: n, typ: resultType(sig)})
	ex.cands[call] = cands
	e.res = call
	st.event(e)
	if ex.snap != nil && ex.snap(e) {
		ex.snaps[e] = st.clone()
	}
	for _, a := range all {
		st.markEscaped(a)
	}
	var after func(*State)
	if ex.rely != nil {
		after = ex.rely(st, e)
	}
	if ex.nomod == nil || !ex.nomod(e) {
		if fn == nil && m == nil && !strings.HasPrefix(typeStr(sig), "func") {
			ex.problem(in, "unresolved call")
		}
		st.havocClasses(ex.mod.classesOf(cands))
		ex.havocArgs(st, cands, all)
	}
	if after != nil {
		after(st)
		if st.dead {
			return nil
		}
	}
	var rets []*Term
	r := sig.Results()
	switch r.Len() {
	case 0:
	case 1:
		rets = []*Term{call}
	default:
		for i := 0; i < r.Len(); i++ {
			rets = append(rets, T.mk(Term{op: OpExtract, args: []*Term{call}, n: int64(i), typ: r.At(i).Type()}))
		}
	}
	return []Outcome{{st: st, rets: rets}}
}

// havocArgs: fresh objects handed to a repo function may be changed by it (their classes
// are in its effect set, and they have been marked escaped), nothing else to do.
func (ex *Exec) havocArgs(st *State, cands []*ssa.Function, args []*Term) {}

func (ex *Exec) builtin(fr *frame, st *State, name string, args []*Term, in ssa.Instruction, c *ssa.CallCommon) []Outcome {
	one := func(t *Term) []Outcome { return []Outcome{{st: st, rets: []*Term{t}}} }
	switch name {
	case "len":
		x := st.norm(args[0])
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			_ = mt
			if m := st.maps[x]; m != nil {
				if m.exact && len(m.entries) == 0 {
					return one(mkInt(0))
				}
				return one(T.mk(Term{op: OpPure, aux: "maplen", args: []*Term{x}, n: st.mapGen(x), typ: tInt}))
			}
			if g := st.mapGen(x); g != 0 {
				return one(T.mk(Term{op: OpPure, aux: "maplen", args: []*Term{x}, n: g, typ: tInt}))
			}
		}
		return one(mkLen(x))
	case "cap":
		return one(T.mk(Term{op: OpCap, args: []*Term{args[0]}, typ: tInt}))
	case "append":
		typ := c.Args[0].Type()
		items := append([]*Term{}, st.seqItems(st.norm(args[0]))...)
		if len(args) > 1 {
			more := st.seqItems(st.norm(args[1]))
			if sl, ok := typ.Underlying().(*types.Slice); ok && ex.elemNonNil(sl.Elem()) {
				for _, it := range more {
					if it.op == OpSingle {
						ex.must(st, mkNot(mkEq(it.args[0], mkNil(nil))), "nil appended", in)
					}
				}
			}
			items = append(items, more...)
		}
		return one(mkSeq(items, typ))
	case "copy":
		n := T.mk(Term{op: OpPure, aux: "copy", args: []*Term{args[0], args[1]}, n: int64(st.bumpCount("copy")), typ: tInt})
		root := args[0]
		for root.op == OpSlice {
			root = root.args[0]
		}
		if st.privateAlloc(root) {
			st.havocAlloc(root)
		} else if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			st.event(&Event{kind: EvStore, addr: args[0], val: args[1], instr: in})
			st.havocClass("[]" + typeStr(sl.Elem()))
		}
		return one(n)
	case "delete":
		m, k := args[0], st.norm(args[1])
		priv := st.privateAlloc(m)
		if !priv {
			st.event(&Event{kind: EvMapDel, addr: m, key: k, instr: in})
			st.havocClass(mapClass(m.typ))
		} else if mc := st.maps[m]; mc != nil {
			st.maps[m] = &MapC{gen: mc.gen + 1}
		}
		return []Outcome{{st: st}}
	case "print", "println":
		return []Outcome{{st: st}}
	case "min", "max":
		return one(T.mk(Term{op: OpPure, aux: name, args: args, typ: c.Args[0].Type()}))
	case "recover":
		ex.problem(in, "recover")
		return one(ex.unk(st, types.NewInterfaceType(nil, nil)))
	case "ssa:wrapnilchk":
		if !ex.mustNonNil(st, args[0], in) {
			return []Outcome{{st: st, panic: true, pos: ex.p.instrPos(in)}}
		}
		return one(args[0])
	}
	ex.problem(in, "unsupported builtin %s", name)
	var rets []*Term
	if v, ok := in.(ssa.Value); ok && v.Type() != nil {
		rets = []*Term{ex.unk(st, v.Type())}
	}
	return []Outcome{{st: st, rets: rets}}
}

// external: a call of a function outside the repository.
func (ex *Exec) external(st *State, in ssa.Instruction, fn *ssa.Function, args []*Term) []Outcome {
	name := fullName(fn)
	for i, a := range args {
		args[i] = st.canon(st.norm(a))
	}
	sig := fn.Signature
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "github.com/sirupsen/logrus.Fatal", "github.com/sirupsen/logrus.Fatalf", "log.Panic", "log.Panicf", "github.com/sirupsen/logrus.Panic", "github.com/sirupsen/logrus.Panicf":
		st.event(&Event{kind: EvCall, callee: name, fn: fn, args: args, instr: in})
		ex.must(st, mkBool(false), "process exit or panic", in)
		return []Outcome{{st: st, panic: true, pos: ex.p.instrPos(in)}}
	}
	// nil receivers of foreign pointer methods
	if sig.Recv() != nil && len(args) > 0 {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok && !nilSafe(name) {
			if !ex.mustNonNil(st, args[0], in) {
				return []Outcome{{st: st, panic: true, pos: ex.p.instrPos(in)}}
			}
		}
	}
	if ex.obl != nil && !ex.extNeeds(st, in, name, args) {
		return []Outcome{{st: st, panic: true, pos: ex.p.instrPos(in)}}
	}
	if rets, ok := foldText(name, args, sig); ok {
		return []Outcome{{st: st, rets: rets}}
	}
	switch name {
	case "strings.SplitN", "strings.Cut":
		if out := ex.splitTwo(st, name, args, sig); out != nil {
			return out
		}
	}
	if isPureExternal(fn) {
		ex.callbacks(st, in, args, true)
		pargs := make([]*Term, len(args))
		gen := int64(0)
		for i, a := range args {
			pargs[i], gen = ex.pureArg(st, a, gen)
		}
		return []Outcome{{st: st, rets: ex.pureRets(name, pargs, sig, gen)}}
	}
	return ex.opaqueExt(st, in, name, fn, args, sig)
}

// splitTwo: strings.SplitN(x, sep, 2) and strings.Cut(x, sep) in terms of strings.Index.
func (ex *Exec) splitTwo(st *State, name string, args []*Term, sig *types.Signature) []Outcome {
	x := args[0]
	sv, ok := args[1].strVal()
	if !ok || sv == "" {
		return nil
	}
	if name == "strings.SplitN" {
		if n, ok := args[2].intVal(); !ok || n != 2 {
			return nil
		}
	}
	ix := mkPure("strings.Index", []*Term{x, args[1]}, tInt, 0)
	found := mkLE(toLin(ix).scale(-1)) // ix >= 0
	var out []Outcome
	for _, b := range []bool{true, false} {
		s2 := st.clone()
		if !s2.assume(found, b) {
			continue
		}
		a, rest := x, mkStr("")
		if b {
			a = mkSlice(x, mkInt(0), ix, tString)
			rest = mkSlice(x, mkAdd(ix, mkInt(int64(len(sv)))), mkLen(x), tString)
			ex.sliceFacts(s2, x, mkAdd(ix, mkInt(int64(len(sv)))), mkLen(x), mkLen(x), rest)
		}
		if name == "strings.Cut" {
			out = append(out, Outcome{st: s2, rets: []*Term{a, rest, mkBool(b)}})
			continue
		}
		items := []*Term{mkSingle(a)}
		if b {
			items = append(items, mkSingle(rest))
		}
		out = append(out, Outcome{st: s2, rets: []*Term{mkSeq(items, sig.Results().At(0).Type())}})
	}
	return out
}

// pureArg makes the argument of a pure function reflect the memory it reads.
func (ex *Exec) pureArg(st *State, a *Term, gen int64) (*Term, int64) {
	if a.typ == nil {
		return a, gen
	}
	switch u := a.typ.Underlying().(type) {
	case *types.Map:
		return a, gen*31 + st.mapGen(a)
	case *types.Slice:
		if a.op == OpSeq || a.isNil() {
			return a, gen
		}
		root := a
		for root.op == OpSlice {
			root = root.args[0]
		}
		if st.privateAlloc(root) {
			return a, gen*31 + int64(st.allocG[root])
		}
		return a, gen*31 + int64(st.gens["[]"+typeStr(u.Elem())])
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && !opaqueStruct(u.Elem()) && strings.HasPrefix(typeStr(u.Elem()), "net/url.") {
			if freshRoot(addrRoot(a)) {
				v := st.load(a, u.Elem())
				// an unmodified copy is the original
				return v, gen
			}
			g := int64(0)
			for i := 0; i < s.NumFields(); i++ {
				g += int64(st.gens[structKey(u.Elem())+"."+s.Field(i).Name()])
			}
			if g > 0 {
				return a, gen*31 + g
			}
		}
	}
	return a, gen
}

func nilSafe(name string) bool {
	switch name {
	case "(*bytes.Buffer).String", "(*net/url.Userinfo).String", "(*os.File).Close", "(*os.File).Write", "(*os.File).Read", "(*os.File).Seek":
		return true
	}
	return false
}

// callbacks: what the callee may call, any number of times: methods of library objects and
// functions.
func (ex *Exec) callbacks(st *State, in ssa.Instruction, args []*Term, ro bool) {
	var cbs []*ssa.Function
	var literals []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpIface && isRepoType(t.typ) && !ro {
			cbs = append(cbs, ex.mod.methodsOf(t.typ)...)
		}
		if t.op == OpFunc || t.op == OpClosure {
			cbs = append(cbs, t.fn)
		}
		if t.op == OpClosure {
			literals = append(literals, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, a := range args {
		rec(a)
	}
	st.havocClasses(ex.mod.classesOf(cbs))
	if ex.obl != nil {
		for _, t := range literals {
			if ex.calledBack[t.fn] || len(t.fn.Blocks) == 0 {
				continue
			}
			if ex.calledBack == nil {
				ex.calledBack = map[*ssa.Function]bool{}
			}
			ex.calledBack[t.fn] = true
			st2 := st.clone()
			as := ex.symArgs(t.fn)
			for i, p := range t.fn.Params {
				if assumedNonNil(p.Type()) {
					st2.assumeQuiet(mkNot(mkEq(as[i], mkNil(nil))), true)
				}
			}
			ex.execFn(t.fn, as, t.args, st2, 1, nil, in)
			delete(ex.calledBack, t.fn)
		}
	}
}

func (ex *Exec) opaqueExt(st *State, in ssa.Instruction, name string, fn *ssa.Function, args []*Term, sig *types.Signature) []Outcome {
	e := &Event{kind: EvCall, callee: name, fn: fn, args: args, instr: in}
	n := int64(st.bumpCount("call:" + name))
	call := T.mk(Term{op: OpCall, aux: name, args: args, n: n, typ: resultType(sig)})
	e.res = call
	st.event(e)
	if ex.snap != nil && ex.snap(e) {
		ex.snaps[e] = st.clone()
	}
	ro := readOnlyArgs(name)
	for i, a := range args {
		if !ro {
			// arguments whose memory the callee may write
			root := a
			for root.op == OpSlice || root.op == OpIface {
				root = root.args[0]
			}
			if a.typ != nil {
				if sl, ok := a.typ.Underlying().(*types.Slice); ok && !(i == 0 && sig.Recv() != nil) {
					if st.privateAlloc(root) {
						st.havocAlloc(root)
					} else if writesSlices(name) {
						st.havocClass("[]" + typeStr(sl.Elem()))
					}
				}
				if _, ok := a.typ.Underlying().(*types.Pointer); ok && root.op == OpAlloc && !isForeignObj(a.typ) {
					st.havocAlloc(root)
				}
			}
			st.markEscaped(a)
		}
	}
	ex.callbacks(st, in, args, ro)
	var rets []*Term
	r := sig.Results()
	switch r.Len() {
	case 0:
	case 1:
		rets = []*Term{call}
	default:
		for i := 0; i < r.Len(); i++ {
			rets = append(rets, T.mk(Term{op: OpExtract, args: []*Term{call}, n: int64(i), typ: r.At(i).Type()}))
		}
	}
	if alwaysNilError[name] && len(rets) > 0 {
		rets[len(rets)-1] = mkNil(errorType)
	}
	ex.extFacts(st, name, args, rets)
	return []Outcome{{st: st, rets: rets}}
}

func isForeignObj(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && opaqueStruct(p.Elem())
}

// extFacts adds what is known of the results of an external call.
func (ex *Exec) extFacts(st *State, name string, args, rets []*Term) {
	switch name {
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		st.assume(mkEq(rets[0], mkLen(args[1])), true)
	case "unicode/utf8.EncodeRune":
		st.assume(mkLE(toLin(rets[0]).scale(-1).add(lin{k: 1}, 1)), true)
		st.assume(mkLE(toLin(rets[0]).add(lin{k: 4}, -1)), true)
	case "(*os.File).Write", "(*os.File).Read", "(*bytes.Reader).Read", "(*bufio.Reader).Read", "(*bytes.Buffer).Read":
		st.assume(mkLE(toLin(rets[0]).scale(-1)), true)
		st.assume(mkLE(toLin(rets[0]).add(toLin(mkLen(args[1])), -1)), true)
	case "(*bytes.Buffer).Len":
		st.assume(mkLE(toLin(rets[0]).scale(-1)), true)
	}
}

func writesSlices(name string) bool {
	for _, s := range []string{").Read", "io.ReadFull", "io.ReadAtLeast", "EncodeRune", "sort.", "rand.Read", "PutUint", "Decode"} {
		if strings.Contains(name, s) {
			return true
		}
	}
	return false
}

// mkPure builds the result of a pure function, folding what is cheap to fold.
func mkPure(name string, args []*Term, typ types.Type, n int64) *Term {
	cs := make([]string, len(args))
	all := true
	for i, a := range args {
		s, ok := a.strVal()
		if !ok {
			all = false
			break
		}
		cs[i] = s
	}
	if all && len(args) > 0 {
		switch name {
		case "strings.ToLower":
			return mkStr(strings.ToLower(cs[0]))
		case "strings.TrimSpace":
			return mkStr(strings.TrimSpace(cs[0]))
		case "strings.HasPrefix":
			return mkBool(strings.HasPrefix(cs[0], cs[1]))
		}
	}
	switch name {
	case "strings.IndexByte", "strings.IndexRune":
		if v, ok := args[1].intVal(); ok && v >= 0 && v < 128 {
			return mkPure("strings.Index", []*Term{args[0], mkStr(string(rune(v)))}, typ, n)
		}
	case "strings.IndexAny":
		if s, ok := args[1].strVal(); ok && len(s) == 1 {
			return mkPure("strings.Index", args, typ, n)
		}
	case "strings.Contains":
		// Index >= 0
		ix := mkPure("strings.Index", args, tInt, n)
		return mkLE(toLin(ix).scale(-1))
	case "strings.ToLower", "strings.TrimSpace":
		if args[0].op == OpPure && args[0].aux == name {
			return args[0]
		}
	case "strconv.FormatInt":
		if v, ok := args[1].intVal(); ok && v == 10 {
			return mkPure("strconv.Itoa", args[:1], typ, n)
		}
	}
	return T.mk(Term{op: OpPure, aux: name, args: args, typ: typ, n: n})
}

// sliceFacts adds measure facts after s[lo:hi] (see the loop measures).
func (ex *Exec) sliceFacts(st *State, x, lo, hi, n, r *Term) {
	if hi != n || r.op != OpSlice {
		return
	}
	// r = x[IndexAny(x,seps)+1:]: exactly one separator was removed
	l := toLin(lo)
	if len(l.c) != 1 || l.k != 1 {
		return
	}
	for ix, c := range l.c {
		if c != 1 || ix.op != OpPure || (ix.aux != "strings.IndexAny" && ix.aux != "strings.Index") || ix.args[0] != x {
			continue
		}
		seps, ok := ix.args[1].strVal()
		if !ok || len(seps) == 0 {
			continue
		}
		if ix.aux == "strings.Index" && len(seps) > 1 {
			continue
		}
		before := sepCount(x, seps)
		after := sepCount(r, seps)
		// after = before - 1
		e := toLin(after).add(toLin(before), -1).add(lin{k: 1}, 1)
		st.addLE(e)
		st.addLE(e.scale(-1))
	}
}

// sepCount: number of characters of x that are in seps (ASCII), as a sum of strings.Count.
func sepCount(x *Term, seps string) *Term {
	sum := mkInt(0)
	for _, r := range seps {
		sum = mkAdd(sum, mkPure("strings.Count", []*Term{x, mkStr(string(r))}, tInt, 0))
	}
	return sum
}

// fieldKey names the field of a field address ("" otherwise).
func (ex *Exec) fieldKey(a *Term) string {
	if a.op != OpFieldAddr {
		return ""
	}
	return structKey(a.args[0].typ) + "." + fieldName(a.args[0].typ, int(a.n))
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
