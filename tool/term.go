package main

// Terms: hash-consed value numbers. A term denotes a value that was computed at some
// point of an abstract execution; terms never change meaning, so facts about terms are
// never invalidated (only the mapping from memory locations to terms changes).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Op uint8

const (
	OpConst     Op = iota
	OpSym          // root parameter or otherwise arbitrary value
	OpFunc         // function value
	OpClosure      // closure: fn + bindings
	OpGlobal       // address of a global
	OpAlloc        // address of a fresh object (also make(map), make(slice), new)
	OpFieldAddr    // &args[0].field n
	OpIndexAddr    // &args[0][args[1]]
	OpLoad         // unknown content of address args[0] at generation n
	OpCall         // result of an opaque call (impure: n is unique per event)
	OpPure         // result of a pure function of its arguments
	OpExtract      // component n of tuple args[0]
	OpBin          // aux operator (non-linear arithmetic, string concat, bit ops)
	OpLin          // linear integer form: args are the terms, coef their coefficients, n the constant
	OpLE           // args[0] <= 0 (args[0] is linear or a term)
	OpEq           // args[0] == args[1]
	OpNot          // boolean negation
	OpLen          // len(args[0])
	OpCap
	OpSlice  // args[0][args[1]:args[2]], nil args encoded as missing consts
	OpIndex  // value indexing args[0][args[1]] (strings, arrays)
	OpLookup // args[0][args[1]] of map at generation n
	OpHas    // args[1] in args[0] at generation n
	OpConv
	OpIface   // interface holding args[0] (dynamic type args[0].typ)
	OpAssert  // args[0].(typ)
	OpIs      // dynamic type of args[0] is typ
	OpStruct  // struct value with field values
	OpField   // field n of struct value
	OpLoopVar // value of a location/phi at the start of an arbitrary iteration
	OpSeq     // list value: concatenation of items
	OpSingle  // item: one element
	OpSpread  // item: all elements of args[0]
	OpFor     // item: for each element of args[0]: alternatives (args[1:]) OpAlt
	OpAlt     // args[0] guard (OpAnd), args[1:] items
	OpAnd     // conjunction of literals, sorted
	OpOr
	OpExists // exists element of args[0] with args[1] (bound var level n)
	OpFold   // fold over args[0] from args[1] with args[2]
	OpBound  // bound variable: aux kind (elem,key,idx,acc), n level
	OpElem   // the current element of container args[0] in loop n (aux: elem|key|idx|rune)
	OpRange  // iterator over args[0]
	OpNext   // tuple of an iterator step
	OpRev    // marker
	OpSized  // make([]T, args[0])
	OpUnk    // unknown value, unique n
)

var opNames = map[Op]string{OpConst: "const", OpSym: "sym", OpFunc: "func", OpClosure: "closure", OpGlobal: "&", OpAlloc: "new", OpFieldAddr: "&fld", OpIndexAddr: "&idx", OpLoad: "load", OpCall: "call", OpPure: "pure", OpExtract: "ext", OpBin: "bin", OpLin: "lin", OpLE: "le", OpEq: "eq", OpNot: "not", OpLen: "len", OpCap: "cap", OpSlice: "slice", OpIndex: "index", OpLookup: "lookup", OpHas: "has", OpConv: "conv", OpIface: "iface", OpAssert: "assert", OpIs: "is", OpStruct: "struct", OpField: "field", OpLoopVar: "lv", OpSeq: "seq", OpSingle: "single", OpSpread: "spread", OpFor: "for", OpAlt: "alt", OpAnd: "and", OpOr: "or", OpExists: "exists", OpFold: "fold", OpBound: "bound", OpElem: "elem", OpRange: "range", OpNext: "next", OpSized: "sized", OpUnk: "unk"}

type Term struct {
	id   int
	op   Op
	args []*Term
	coef []int64
	aux  string
	n    int64
	typ  types.Type
	fn   *ssa.Function
	cv   constant.Value
	g    *ssa.Global
	// maximal bound level inside
	blevel int64
	cls    string // cached classOf
	root   *Term  // cached addrRoot
	neg    *Term  // cached negation
}

type Terms struct {
	tab   map[string]*Term
	th    typeutil.Hasher
	tids  typeutil.Map
	ntid  int
	fids  map[*ssa.Function]int
	count int
	buf   []byte
}

var T *Terms

func newTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, fids: map[*ssa.Function]int{}}
}

func (ts *Terms) tid(t types.Type) int {
	if t == nil {
		return 0
	}
	if v := ts.tids.At(t); v != nil {
		return v.(int)
	}
	ts.ntid++
	ts.tids.Set(t, ts.ntid)
	return ts.ntid
}

func (ts *Terms) mk(t Term) *Term {
	b := ts.buf[:0]
	b = strconv.AppendInt(b, int64(t.op), 10)
	b = append(b, '|')
	b = strconv.AppendInt(b, int64(ts.tid(t.typ)), 10)
	b = append(b, '|')
	b = append(b, t.aux...)
	b = append(b, '|')
	b = strconv.AppendInt(b, t.n, 10)
	b = append(b, '|')
	for i, a := range t.args {
		if a == nil {
			b = append(b, '_', ',')
			continue
		}
		b = strconv.AppendInt(b, int64(a.id), 10)
		if t.coef != nil {
			b = append(b, '*')
			b = strconv.AppendInt(b, t.coef[i], 10)
		}
		b = append(b, ',')
	}
	if t.fn != nil {
		id, ok := ts.fids[t.fn]
		if !ok {
			id = len(ts.fids) + 1
			ts.fids[t.fn] = id
		}
		b = append(b, '|', 'f')
		b = strconv.AppendInt(b, int64(id), 10)
	}
	if t.cv != nil {
		b = append(b, "|c"...)
		b = append(b, t.cv.ExactString()...)
	}
	if t.g != nil {
		b = append(b, "|g"...)
		b = append(b, t.g.String()...)
	}
	ts.buf = b
	if x, ok := ts.tab[string(b)]; ok {
		return x
	}
	k := string(b)
	ts.count++
	nt := t
	nt.id = ts.count
	nt.cls, nt.root, nt.neg = "", nil, nil
	for _, a := range nt.args {
		if a != nil && a.blevel > nt.blevel {
			nt.blevel = a.blevel
		}
	}
	if nt.op == OpBound && nt.n+1 > nt.blevel {
		nt.blevel = nt.n + 1
	}
	if (nt.op == OpFor || nt.op == OpExists || nt.op == OpFold) && nt.n+1 > nt.blevel {
		nt.blevel = nt.n + 1
	}
	ts.tab[k] = &nt
	return &nt
}

var typeStrs = map[types.Type]string{}

// typeStr: cached types.TypeString.
func typeStr(t types.Type) string {
	if s, ok := typeStrs[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeStrs[t] = s
	return s
}

// ---- constructors ----

var (
	tBool   = types.Typ[types.Bool]
	tInt    = types.Typ[types.Int]
	tString = types.Typ[types.String]
)

func mkConst(v constant.Value, t types.Type) *Term {
	if v != nil && isIntType(t) {
		// integer constants share one representation per value
		if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return mkInt(i)
		}
	}
	if v != nil && v.Kind() == constant.Bool {
		t = tBool
	}
	if v != nil && v.Kind() == constant.String {
		t = tString
	}
	return T.mk(Term{op: OpConst, cv: v, typ: t, aux: nilAux(v)})
}
func nilAux(v constant.Value) string {
	if v == nil {
		return "nil"
	}
	return ""
}
func mkInt(i int64) *Term {
	return T.mk(Term{op: OpConst, cv: constant.MakeInt64(i), typ: tInt})
}
func mkBool(b bool) *Term {
	return T.mk(Term{op: OpConst, cv: constant.MakeBool(b), typ: tBool})
}
func mkStr(s string) *Term {
	return T.mk(Term{op: OpConst, cv: constant.MakeString(s), typ: tString})
}
func mkNil(t types.Type) *Term { return T.mk(Term{op: OpConst, typ: t, aux: "nil"}) }

func mkSym(name string, t types.Type) *Term { return T.mk(Term{op: OpSym, aux: name, typ: t}) }

func (t *Term) isNil() bool { return t.op == OpConst && t.cv == nil }
func (t *Term) isConst() bool {
	return t.op == OpConst
}
func (t *Term) intVal() (int64, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) boolVal() (bool, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == OpConst && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- linear forms ----

type lin struct {
	c map[*Term]int64
	k int64
}

func toLin(t *Term) lin {
	if v, ok := t.intVal(); ok {
		return lin{k: v}
	}
	if t.op == OpLin {
		l := lin{c: map[*Term]int64{}, k: t.n}
		for i, a := range t.args {
			l.c[a] = t.coef[i]
		}
		return l
	}
	return lin{c: map[*Term]int64{t: 1}}
}
func (l lin) add(m lin, f int64) lin {
	r := lin{c: map[*Term]int64{}, k: l.k + f*m.k}
	for t, c := range l.c {
		r.c[t] = c
	}
	for t, c := range m.c {
		r.c[t] += f * c
		if r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}
func (l lin) scale(f int64) lin {
	r := lin{c: map[*Term]int64{}, k: l.k * f}
	if f == 0 {
		return r
	}
	for t, c := range l.c {
		r.c[t] = c * f
	}
	return r
}
func fromLin(l lin) *Term {
	if len(l.c) == 0 {
		return mkInt(l.k)
	}
	if len(l.c) == 1 && l.k == 0 {
		for t, c := range l.c {
			if c == 1 {
				return t
			}
		}
	}
	ts := make([]*Term, 0, len(l.c))
	for t := range l.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	cs := make([]int64, len(ts))
	for i, t := range ts {
		cs[i] = l.c[t]
	}
	return T.mk(Term{op: OpLin, args: ts, coef: cs, n: l.k, typ: tInt})
}

func mkAdd(a, b *Term) *Term { return fromLin(toLin(a).add(toLin(b), 1)) }
func mkSub(a, b *Term) *Term { return fromLin(toLin(a).add(toLin(b), -1)) }

// ---- booleans ----

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return mkBool(!b)
	}
	if t.op == OpNot {
		return t.args[0]
	}
	if t.neg != nil {
		return t.neg
	}
	n := mkNot0(t)
	t.neg = n
	return n
}

func mkNot0(t *Term) *Term {
	if t.op == OpLE { // not (l <= 0)  <=>  1-l <= 0
		return mkLE(toLin(t.args[0]).scale(-1).add(lin{k: 1}, 1))
	}
	return T.mk(Term{op: OpNot, args: []*Term{t}, typ: tBool})
}

// mkLE builds l <= 0.
func mkLE(l lin) *Term {
	if len(l.c) == 0 {
		return mkBool(l.k <= 0)
	}
	// divide by the gcd of the coefficients, rounding the constant
	var g int64
	for _, c := range l.c {
		g = gcd(g, abs64(c))
	}
	if g > 1 {
		r := lin{c: map[*Term]int64{}}
		for t, c := range l.c {
			r.c[t] = c / g
		}
		r.k = ceilDiv(l.k, g)
		l = r
	}
	return T.mk(Term{op: OpLE, args: []*Term{fromLinRaw(l)}, typ: tBool})
}
func fromLinRaw(l lin) *Term { return fromLin(l) }
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a > 0 {
		q++
	}
	return q
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.isConst() && b.isConst() {
		if a.isNil() || b.isNil() {
			return mkBool(a.isNil() && b.isNil())
		}
		return mkBool(constant.Compare(a.cv, token.EQL, b.cv))
	}
	if av, ok := a.boolVal(); ok {
		if av {
			return b
		}
		return mkNot(b)
	}
	if bv, ok := b.boolVal(); ok {
		if bv {
			return a
		}
		return mkNot(a)
	}
	if a.typ != nil && isIntType(a.typ) || b.typ != nil && isIntType(b.typ) {
		l := toLin(a).add(toLin(b), -1)
		if len(l.c) == 0 {
			return mkBool(l.k == 0)
		}
		// canonical: the term with the smallest id has a positive coefficient
		var first *Term
		for t := range l.c {
			if first == nil || t.id < first.id {
				first = t
			}
		}
		if l.c[first] < 0 {
			l = l.scale(-1)
		}
		if len(l.c) == 1 && l.c[first] == 1 {
			if charExcluded(first, -l.k) {
				return mkBool(false)
			}
			return T.mk(Term{op: OpEq, args: []*Term{first, mkInt(-l.k)}, typ: tBool})
		}
		return T.mk(Term{op: OpEq, args: []*Term{fromLin(l), mkInt(0)}, typ: tBool})
	}
	if a.typ != nil && isStringType(a.typ) {
		if v, ok := ropeEq(a, b); ok {
			return mkBool(v)
		}
	}
	if sv, ok := b.strVal(); ok && sv == "" {
		return mkEq(mkLen(a), mkInt(0))
	}
	if sv, ok := a.strVal(); ok && sv == "" {
		return mkEq(mkLen(b), mkInt(0))
	}
	// two calls that make an error make two errors
	if a.op == OpCall && b.op == OpCall && makesError[a.aux] && makesError[b.aux] {
		return mkBool(false)
	}
	// nil compared with something that has a known shape
	if b.isNil() {
		if definitelyNonNil(a) {
			return mkBool(false)
		}
		b = mkNil(nil)
	}
	if a.isNil() {
		if definitelyNonNil(b) {
			return mkBool(false)
		}
		a = mkNil(nil)
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	if a.op == OpNot && a.typ != nil { // bool == bool with negations
		return mkNot(mkEq(a.args[0], b))
	}
	if b.op == OpNot {
		return mkNot(mkEq(a, b.args[0]))
	}
	return T.mk(Term{op: OpEq, args: []*Term{a, b}, typ: tBool})
}

// makesError: every call returns a new error.
var makesError = map[string]bool{"errors.New": true, "fmt.Errorf": true}

func definitelyNonNil(t *Term) bool {
	switch t.op {
	case OpAlloc, OpFunc, OpClosure, OpGlobal, OpFieldAddr, OpIndexAddr, OpIface, OpSized:
		return true
	case OpSlice:
		return definitelyNonNil(t.args[0])
	case OpSeq:
		for _, it := range t.args {
			if it.op == OpSingle {
				return true
			}
		}
	}
	return false
}

func mkLen(x *Term) *Term {
	if a := atoms[x]; a != nil && a.one {
		return mkInt(1)
	}
	switch x.op {
	case OpConst:
		if s, ok := x.strVal(); ok {
			return mkInt(int64(len(s)))
		}
		if x.isNil() {
			return mkInt(0)
		}
	case OpSlice:
		if x.args[1] != nil && x.args[2] != nil {
			return mkSub(x.args[2], x.args[1])
		}
	case OpSized:
		return x.args[0]
	case OpBin:
		if x.aux == "concat" {
			sum := mkInt(0)
			for _, a := range x.args {
				sum = mkAdd(sum, mkLen(a))
			}
			return sum
		}
	case OpSeq:
		sum := mkInt(0)
		for _, it := range x.args {
			switch it.op {
			case OpSingle:
				sum = mkAdd(sum, mkInt(1))
			case OpSpread:
				sum = mkAdd(sum, mkLen(it.args[0]))
			default:
				return T.mk(Term{op: OpLen, args: []*Term{x}, typ: tInt})
			}
		}
		return sum
	case OpAlloc:
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(a.Len())
			}
		}
	case OpConv:
		if (isStringType(x.typ) || isByteSlice(x.typ)) && (isStringType(x.args[0].typ) || isByteSlice(x.args[0].typ)) {
			return mkLen(x.args[0])
		}
	}
	return T.mk(Term{op: OpLen, args: []*Term{x}, typ: tInt})
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// mkSlice builds x[lo:hi]; lo, hi are never nil for strings and slices.
func mkSlice(x, lo, hi *Term, typ types.Type) *Term {
	if lo == nil {
		lo = mkInt(0)
	}
	if hi == nil {
		hi = mkLen(x)
	}
	if x.op == OpSlice {
		base := x.args[0]
		lo2 := mkAdd(x.args[1], lo)
		hi2 := mkAdd(x.args[1], hi)
		x, lo, hi = base, lo2, hi2
	}
	if v, ok := lo.intVal(); ok && v == 0 && hi == mkLen(x) && x.op != OpAlloc {
		return x
	}
	if s, ok := x.strVal(); ok {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return mkStr(s[l:h])
		}
	}
	if r := ropeSlice(x, lo, hi); r != nil {
		return r
	}
	return T.mk(Term{op: OpSlice, args: []*Term{x, lo, hi}, typ: typ})
}

func mkIndex(x, i *Term, typ types.Type) *Term {
	if x.op == OpSlice {
		return mkIndex(x.args[0], mkAdd(x.args[1], i), typ)
	}
	if x.op == OpConv && isByteSlice(x.typ) != isByteSlice(x.args[0].typ) && (isStringType(x.args[0].typ) || isByteSlice(x.args[0].typ)) && len(x.args) == 1 && (isStringType(x.typ) || isByteSlice(x.typ)) {
		return mkIndex(x.args[0], i, typ)
	}
	if s, ok := x.strVal(); ok {
		if v, ok := i.intVal(); ok && v >= 0 && v < int64(len(s)) {
			return mkInt(int64(s[v]))
		}
	}
	if r := ropeIndex(x, i, typ); r != nil {
		return r
	}
	return T.mk(Term{op: OpIndex, args: []*Term{x, i}, typ: typ})
}

func mkFieldAddr(base *Term, i int, typ types.Type) *Term {
	return T.mk(Term{op: OpFieldAddr, args: []*Term{base}, n: int64(i), typ: typ})
}
func mkIndexAddr(base, i *Term, typ types.Type) *Term {
	if base.op == OpSlice {
		return mkIndexAddr(base.args[0], mkAdd(base.args[1], i), typ)
	}
	return T.mk(Term{op: OpIndexAddr, args: []*Term{base, i}, typ: typ})
}

func mkField(x *Term, i int, typ types.Type) *Term {
	if x.op == OpStruct {
		return x.args[i]
	}
	if x.op == OpConst && x.cv == nil {
		return zeroValue(typ)
	}
	return T.mk(Term{op: OpField, args: []*Term{x}, n: int64(i), typ: typ})
}

func zeroValue(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Kind() == types.UnsafePointer:
			return mkNil(t)
		default:
			return mkConst(constant.MakeFloat64(0), t)
		}
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroValue(u.Field(i).Type())
		}
		return T.mk(Term{op: OpStruct, args: args, typ: t})
	}
	return mkNil(t)
}

// ---- conjunctions and disjunctions of literals ----

func mkAnd(ts []*Term) *Term { return mkNary(OpAnd, ts, true) }
func mkOr(ts []*Term) *Term  { return mkNary(OpOr, ts, false) }

func mkNary(op Op, ts []*Term, unit bool) *Term {
	var flat []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		list := []*Term{t}
		if t.op == op {
			list = t.args
		}
		for _, x := range list {
			if b, ok := x.boolVal(); ok {
				if b == unit {
					continue
				}
				return mkBool(!unit)
			}
			if !seen[x] {
				seen[x] = true
				flat = append(flat, x)
			}
		}
	}
	for _, x := range flat {
		if seen[mkNot(x)] {
			return mkBool(!unit)
		}
	}
	if len(flat) == 0 {
		return mkBool(unit)
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return T.mk(Term{op: op, args: flat, typ: tBool})
}

// ---- sequences ----

func isSeq(t *Term) bool { return t.op == OpSeq }

func mkSeq(items []*Term, typ types.Type) *Term {
	var flat []*Term
	for _, it := range items {
		if it.op == OpSpread {
			x := it.args[0]
			if x.isNil() {
				continue
			}
			if x.op == OpSeq {
				flat = append(flat, x.args...)
				continue
			}
		}
		flat = append(flat, it)
	}
	if len(flat) == 0 {
		return mkNil(typ)
	}
	return T.mk(Term{op: OpSeq, args: flat, typ: typ})
}
func mkSingle(e *Term) *Term { return T.mk(Term{op: OpSingle, args: []*Term{e}}) }
func mkSpread(e *Term) *Term { return T.mk(Term{op: OpSpread, args: []*Term{e}}) }

// ---- substitution ----

// rewrite applies f bottom-up; f may return nil to keep the node.
func rewrite(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = rewrite(a, f, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OpLin:
		l := lin{c: map[*Term]int64{}, k: t.n}
		for i, a := range args {
			l = l.add(toLin(a), t.coef[i])
		}
		return fromLin(l)
	case OpLE:
		return mkLE(toLin(args[0]))
	case OpEq:
		return mkEq(args[0], args[1])
	case OpNot:
		return mkNot(args[0])
	case OpLen:
		return mkLen(args[0])
	case OpSlice:
		return mkSlice(args[0], args[1], args[2], t.typ)
	case OpIndex:
		return mkIndex(args[0], args[1], t.typ)
	case OpIndexAddr:
		return mkIndexAddr(args[0], args[1], t.typ)
	case OpField:
		return mkField(args[0], int(t.n), t.typ)
	case OpAnd:
		return mkAnd(args)
	case OpOr:
		return mkOr(args)
	case OpSeq:
		return mkSeq(args, t.typ)
	}
	n := *t
	n.args = args
	n.blevel = 0
	return T.mk(n)
}

func subst(t, from, to *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x == from {
			return to
		}
		return nil
	}, map[*Term]*Term{})
}

func contains(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- printing ----

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(base types.Type, i int) string {
	if base == nil {
		return fmt.Sprint(i)
	}
	if p, ok := base.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	if s, ok := base.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 14 {
		return "..."
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	list := func(xs []*Term) string {
		var s []string
		for _, x := range xs {
			s = append(s, x.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OpConst:
		if t.cv == nil {
			return "nil"
		}
		return t.cv.String()
	case OpSym:
		return t.aux
	case OpFunc:
		return t.fn.Name()
	case OpClosure:
		return t.fn.Name() + "{" + list(t.args) + "}"
	case OpGlobal:
		return "&" + t.g.Name()
	case OpAlloc:
		return fmt.Sprintf("new(%s#%s.%d)", typeName(t.typ), t.aux, t.n)
	case OpFieldAddr:
		return a(0) + "." + fieldName(t.args[0].typ, int(t.n))
	case OpIndexAddr:
		return a(0) + "[" + a(1) + "]"
	case OpLoad:
		s := "*(" + a(0) + ")"
		if t.args[0].op == OpFieldAddr || t.args[0].op == OpIndexAddr {
			s = a(0)
		}
		if t.args[0].op == OpGlobal {
			s = t.args[0].g.Name()
		}
		if t.n > 0 {
			s += fmt.Sprintf("'%d", t.n)
		}
		return s
	case OpCall:
		return fmt.Sprintf("%s#%d(%s)", t.aux, t.n, list(t.args))
	case OpPure:
		return fmt.Sprintf("%s(%s)", t.aux, list(t.args))
	case OpExtract:
		return fmt.Sprintf("%s.%d", a(0), t.n)
	case OpBin:
		return "(" + a(0) + " " + t.aux + " " + a(1) + ")"
	case OpLin:
		var s []string
		for i, x := range t.args {
			if t.coef[i] == 1 {
				s = append(s, x.str(d+1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", t.coef[i], x.str(d+1)))
			}
		}
		if t.n != 0 {
			s = append(s, fmt.Sprint(t.n))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OpLE:
		return a(0) + " <= 0"
	case OpEq:
		return a(0) + " == " + a(1)
	case OpNot:
		return "!(" + a(0) + ")"
	case OpLen:
		return "len(" + a(0) + ")"
	case OpSlice:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OpIndex:
		return a(0) + "[" + a(1) + "]"
	case OpLookup:
		return a(0) + "[" + a(1) + "]"
	case OpHas:
		return a(1) + " in " + a(0)
	case OpConv:
		return typeName(t.typ) + "(" + a(0) + ")"
	case OpIface:
		return "iface<" + typeName(t.typ) + ">(" + a(0) + ")"
	case OpAssert:
		return a(0) + ".(" + typeName(t.typ) + ")"
	case OpIs:
		return a(0) + " is " + typeName(t.typ)
	case OpField:
		return a(0) + "." + fieldName(t.args[0].typ, int(t.n))
	case OpLoopVar:
		return fmt.Sprintf("~%s.%d", t.aux, t.n)
	case OpBound:
		return fmt.Sprintf("$%s%d", t.aux, t.n)
	case OpElem:
		return fmt.Sprintf("%s@%d(%s)", t.aux, t.n, a(0))
	case OpUnk:
		return fmt.Sprintf("?%s%d", t.aux, t.n)
	}
	return fmt.Sprintf("%s%s(%s)", opNames[t.op], t.aux, list(t.args))
}
