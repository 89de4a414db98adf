package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event: an effect of an abstract path, in program order.
type EvKind uint8

const (
	EvCall EvKind = iota // opaque call (external, interface, or cut by the check)
	EvStore
	EvMapSet
	EvMapDel
	EvLoop
	EvGo
	EvDefer
)

type Event struct {
	kind   EvKind
	prev   *Event
	n      int
	callee string        // full name of the callee
	fn     *ssa.Function // static callee or nil
	method *types.Func   // interface method or nil
	recv   *Term         // receiver of an invoke
	args   []*Term       // arguments (including receiver for methods)
	res    *Term
	addr   *Term // store address / map
	key    *Term
	val    *Term
	loop   *LoopRec
	instr  ssa.Instruction
	pure   bool
}

func (e *Event) list() []*Event {
	var out []*Event
	for x := e; x != nil; x = x.prev {
		out = append(out, x)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Event) since(base *Event) []*Event {
	var out []*Event
	for x := e; x != nil && x != base; x = x.prev {
		out = append(out, x)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Event) String() string {
	switch e.kind {
	case EvCall:
		var s []string
		for _, a := range e.args {
			s = append(s, a.String())
		}
		r := ""
		if e.recv != nil {
			r = e.recv.String() + " "
		}
		return "call " + r + e.callee + "(" + strings.Join(s, ", ") + ")"
	case EvStore:
		return "store " + e.addr.String() + " = " + e.val.String()
	case EvMapSet:
		return "mapset " + e.addr.String() + "[" + e.key.String() + "] = " + e.val.String()
	case EvMapDel:
		return "mapdel " + e.addr.String() + "[" + e.key.String() + "]"
	case EvLoop:
		return "loop " + e.loop.String()
	}
	return fmt.Sprint("event ", e.kind)
}

type mapEntry struct{ k, v *Term }
type MapC struct {
	exact   bool // entries are the complete content (starting from an empty map)
	entries []mapEntry
	gen     int
}

type State struct {
	facts   map[*Term]bool
	forder  []*Term // assumed literals in order (as they were assumed)
	les     []lin
	leKeys  map[*Term]bool
	diseq   []*Term
	consts  map[*Term]*Term
	heap    map[*Term]*Term
	gens    map[string]int
	allocG  map[*Term]int
	escaped map[*Term]bool
	stale   map[staleKey]int
	comp    map[*Term]*Term
	count   map[string]int
	maps    map[*Term]*MapC
	logLoad loadLog
	ev      *Event
	ends    *loopEnd
	dead    bool // not reached, by what is relied on
	ex      *Exec
}

// loopEnd: how the loops on the path were left.
type loopEnd struct {
	prev *loopEnd
	rec  *LoopRec
	out  *iterOut
}

func newState(ex *Exec) *State {
	return &State{facts: map[*Term]bool{}, leKeys: map[*Term]bool{}, consts: map[*Term]*Term{}, heap: map[*Term]*Term{}, gens: map[string]int{}, allocG: map[*Term]int{}, escaped: map[*Term]bool{}, count: map[string]int{}, maps: map[*Term]*MapC{}, stale: map[staleKey]int{}, comp: map[*Term]*Term{}, ex: ex}
}

func (s *State) clone() *State {
	n := newState(s.ex)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.forder = s.forder[:len(s.forder):len(s.forder)]
	n.les = s.les[:len(s.les):len(s.les)]
	for k, v := range s.leKeys {
		n.leKeys[k] = v
	}
	n.diseq = s.diseq[:len(s.diseq):len(s.diseq)]
	for k, v := range s.consts {
		n.consts[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.gens {
		n.gens[k] = v
	}
	for k, v := range s.allocG {
		n.allocG[k] = v
	}
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	for k, v := range s.count {
		n.count[k] = v
	}
	for k, v := range s.maps {
		n.maps[k] = v
	}
	for k, v := range s.stale {
		n.stale[k] = v
	}
	for k, v := range s.comp {
		n.comp[k] = v
	}
	n.ev = s.ev
	n.ends = s.ends
	n.logLoad = s.logLoad
	return n
}

func (s *State) event(e *Event) {
	e.prev = s.ev
	if s.ev != nil {
		e.n = s.ev.n + 1
	}
	s.ev = e
}

// ---- facts ----

// assume adds literal t == b; false means that the state became infeasible.
func (s *State) assume(t *Term, b bool) bool {
	if v, ok := t.boolVal(); ok {
		return v == b
	}
	if t.op == OpNot {
		return s.assume(t.args[0], !b)
	}
	if v, known := s.eval(t); known {
		return v == b
	}
	s.forder = append(s.forder, lit(t, b))
	return s.assume1(t, b)
}

// assumeQuiet is assume for facts that are not branch decisions.
func (s *State) assumeQuiet(t *Term, b bool) bool {
	n := len(s.forder)
	r := s.assume(t, b)
	s.forder = s.forder[:n:n]
	return r
}

func lit(t *Term, b bool) *Term {
	if b {
		return t
	}
	return mkNot(t)
}

func (s *State) assume1(t *Term, b bool) bool {
	switch t.op {
	case OpNot:
		return s.assume1(t.args[0], !b)
	case OpAnd:
		if b {
			for _, a := range t.args {
				if !s.assume(a, true) {
					return false
				}
			}
			return true
		}
		s.facts[t] = b
		return true
	case OpOr:
		if !b {
			for _, a := range t.args {
				if !s.assume(a, false) {
					return false
				}
			}
			return true
		}
		s.facts[t] = b
		return true
	case OpLE:
		if !b {
			return s.assume1(mkNot(t), true)
		}
		l := toLin(t.args[0])
		if s.entails(l.scale(-1).add(lin{k: 1}, 1)) {
			return false
		}
		s.addLE(l)
		for ix, c := range l.c {
			// a separator was found: there is one
			if len(l.c) == 1 && c == -1 && l.k >= 0 && ix.op == OpPure && (ix.aux == "strings.IndexAny" || ix.aux == "strings.Index") {
				if seps, ok := ix.args[1].strVal(); ok && seps != "" && (ix.aux == "strings.IndexAny" || len(seps) == 1) {
					s.addLE(toLin(sepCount(ix.args[0], seps)).scale(-1).add(lin{k: 1}, 1))
				}
			}
		}
		return s.tighten()
	case OpEq:
		s.facts[t] = b
		x, y := t.args[0], t.args[1]
		if isIntType2(x) || isIntType2(y) {
			l := toLin(x).add(toLin(y), -1)
			if b {
				if s.entails(l.add(lin{k: 1}, 1)) || s.entails(l.scale(-1).add(lin{k: 1}, 1)) {
					return false
				}
				s.addLE(l)
				s.addLE(l.scale(-1))
				if y.isConst() && x.op != OpLin {
					s.consts[x] = y
				}
				return s.tighten()
			}
			s.diseq = append(s.diseq, t)
			return s.tighten()
		}
		if b {
			if y.isConst() {
				s.consts[x] = y
				if y.isNil() && x.typ != nil {
					switch x.typ.Underlying().(type) {
					case *types.Slice:
						return s.assume(mkEq(mkLen(x), mkInt(0)), true)
					case *types.Map:
						return s.assume(mkEq(mkLen(x), mkInt(0)), true) && s.congruence()
					}
				}
				if sv, ok := y.strVal(); ok {
					return s.assume(mkEq(mkLen(x), mkInt(int64(len(sv)))), true)
				}
				if y.isNil() {
					return s.nilImplies(x)
				}
			} else {
				if s.nonnil(y) && !s.assume(mkEq(x, mkNil(nil)), false) {
					return false
				}
				if s.nonnil(x) && !s.assume(mkEq(y, mkNil(nil)), false) {
					return false
				}
			}
		}
		return true
	}
	s.facts[t] = b
	if t.typ != nil && t.op != OpEq {
		s.consts[t] = mkBool(b)
	}
	if t.op == OpHas && !b && !s.congruence() {
		return false
	}
	if t.op == OpExists && b {
		// the container is not empty
		c := t.args[0]
		if !s.assume(mkLE(toLin(mkLen(c)).scale(-1).add(lin{k: 1}, 1)), true) {
			return false
		}
	}
	return true
}

func isIntType2(t *Term) bool { return t.typ != nil && isIntType(t.typ) }

// nilImplies adds consequences of x == nil for results of modelled calls.
func (s *State) nilImplies(x *Term) bool {
	return true
}

func (s *State) addLE(l lin) {
	k := mkLE(l)
	if s.leKeys[k] {
		return
	}
	s.leKeys[k] = true
	s.les = append(s.les, l)
}

// tighten uses disequalities to sharpen bounds; false on contradiction.
func (s *State) tighten() bool {
	for changed, n := true, 0; changed && n < 4; n++ {
		changed = false
		for _, d := range s.diseq {
			l := toLin(d.args[0]).add(toLin(d.args[1]), -1)
			le := s.entails(l)
			ge := s.entails(l.scale(-1))
			switch {
			case le && ge:
				return false
			case le:
				l2 := l.add(lin{k: 1}, 1)
				if !s.entails(l2) {
					s.addLE(l2)
					changed = true
				}
			case ge:
				l2 := l.scale(-1).add(lin{k: 1}, 1)
				if !s.entails(l2) {
					s.addLE(l2)
					changed = true
				}
			}
		}
	}
	return true
}

// entails reports whether l <= 0 follows from the linear facts.
func (s *State) entails(l lin) bool {
	if len(l.c) == 0 {
		return l.k <= 0
	}
	budget := 3000
	return s.ent(l, 5, &budget)
}

func (s *State) ent(l lin, depth int, budget *int) bool {
	if len(l.c) == 0 {
		return l.k <= 0
	}
	if depth == 0 || *budget <= 0 {
		return false
	}
	*budget--
	// pick the variable with the smallest id for determinism
	var vs []*Term
	for v := range l.c {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	v := vs[0]
	cl := l.c[v]
	try := func(f lin) bool {
		cf := f.c[v]
		if cf == 0 || (cf > 0) != (cl > 0) || cl%cf != 0 {
			return false
		}
		return s.ent(l.add(f, -(cl/cf)), depth-1, budget)
	}
	for _, f := range s.implicit(v) {
		if try(f) {
			return true
		}
	}
	for _, w := range vs[1:] {
		for _, f := range s.implicit(w) {
			if try(f) {
				return true
			}
		}
	}
	for _, f := range s.les {
		if try(f) {
			return true
		}
	}
	return false
}

func tl(t *Term) lin { return toLin(t) }

// implicit: facts that hold of a term by its meaning.
func (s *State) implicit(v *Term) []lin {
	ge := func(k int64) lin { return lin{c: map[*Term]int64{v: -1}, k: k} } // v >= k
	le := func(k int64) lin { return lin{c: map[*Term]int64{v: 1}, k: -k} } // v <= k
	leT := func(x *Term, k int64) lin {                                     // v <= x + k
		return lin{c: map[*Term]int64{v: 1}}.add(toLin(x), -1).add(lin{k: k}, -1)
	}
	switch v.op {
	case OpLen:
		out := []lin{ge(0)}
		x := v.args[0]
		if x.op == OpPure {
			switch x.aux {
			case "strings.Split":
				out = append(out, ge(1))
			case "strings.SplitN":
				if n, ok := x.args[2].intVal(); ok && n > 0 {
					out = append(out, ge(1), le(n))
				}
			case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimFunc":
				out = append(out, leT(mkLen(x.args[0]), 0))
			}
		}
		return out
	case OpIndex, OpConv:
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return []lin{ge(0), le(255)}
		}
	case OpLoad, OpSym, OpExtract, OpLoopVar, OpUnk, OpField, OpElem, OpCall, OpPure:
		var out []lin
		if b, ok := v.typ.Underlying().(*types.Basic); ok {
			if b.Kind() == types.Uint8 {
				out = append(out, ge(0), le(255))
			} else if b.Info()&types.IsUnsigned != 0 {
				out = append(out, ge(0))
			}
		}
		if v.op == OpPure {
			switch v.aux {
			case "strings.Index", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexAny", "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte", "strings.IndexFunc", "bytes.IndexByte":
				out = append(out, ge(-1))
				k := int64(-1)
				if v.aux == "strings.Index" || v.aux == "strings.LastIndex" {
					if sv, ok := v.args[1].strVal(); !ok || sv == "" {
						k = 0
					} else if len(sv) > 1 {
						k = -1
					}
				}
				out = append(out, leT(mkLen(v.args[0]), k))
				// found, and not at the beginning
				if sv, ok := v.args[1].strVal(); ok && len(sv) > 0 {
					if s.leKeys[mkLE(ge(0))] && (v.aux == "strings.Index" || len(sv) == 1) {
						c0 := mkIndex(v.args[0], mkInt(0), types.Typ[types.Uint8])
						cv, ok := s.norm(c0).intVal()
						if eq, ok2 := s.facts[mkEq(c0, mkInt(int64(sv[0])))]; ok && cv != int64(sv[0]) || ok2 && !eq {
							out = append(out, ge(1))
						}
					}
				}
			case "strings.Count":
				out = append(out, ge(0))
			}
		}
		if v.op == OpCall && out == nil && isIntType(v.typ) {
			if lo, hi, ok := s.ex.retRange(v); ok {
				out = append(out, ge(lo), le(hi))
			}
		}
		if v.op == OpElem && v.aux == "idx" {
			out = append(out, ge(0))
		}
		if v.op == OpLoad {
			if f := s.ex.fieldKey(v.args[0]); f != "" {
				if lo, ok := s.ex.inv.lower[f]; ok {
					out = append(out, ge(lo))
				}
			}
		}
		if v.op == OpExtract && v.args[0].op == OpPure && v.args[0].aux == "unicode/utf8.EncodeRune" {
			out = append(out, ge(1), le(4))
		}
		if v.op == OpPure && v.aux == "unicode/utf8.EncodeRune" || v.op == OpCall && v.aux == "unicode/utf8.EncodeRune" {
			out = append(out, ge(1), le(4))
		}
		return out
	}
	return nil
}

// eval decides a boolean term in the state if possible.
func (s *State) eval(t *Term) (val, known bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case OpNot:
		v, k := s.eval(t.args[0])
		return !v, k
	case OpLE:
		l := toLin(t.args[0])
		if s.entails(l) {
			return true, true
		}
		if s.entails(l.scale(-1).add(lin{k: 1}, 1)) {
			return false, true
		}
	case OpEq:
		x, y := t.args[0], t.args[1]
		if isIntType2(x) || isIntType2(y) {
			l := toLin(x).add(toLin(y), -1)
			if s.entails(l.add(lin{k: 1}, 1)) || s.entails(l.scale(-1).add(lin{k: 1}, 1)) {
				return false, true
			}
			if s.entails(l) && s.entails(l.scale(-1)) {
				return true, true
			}
			return false, false
		}
		cx, cy := s.norm(x), s.norm(y)
		if cx != x || cy != y {
			r := mkEq(cx, cy)
			if b, ok := r.boolVal(); ok {
				return b, true
			}
			if v, ok := s.facts[r]; ok {
				return v, true
			}
		}
		if y.isNil() && s.nonnil(x) {
			return false, true
		}
		if cy.isNil() && s.nonnil(x) || cx.isNil() && s.nonnil(y) {
			return false, true
		}
		if x.op == OpAlloc && y.op == OpAlloc {
			return false, true
		}
		if s.apart(x, y) || s.apart(y, x) {
			return false, true
		}
	case OpAnd:
		all := true
		for _, a := range t.args {
			v, k := s.eval(a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OpOr:
		all := true
		for _, a := range t.args {
			v, k := s.eval(a)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return false, true
		}
	case OpExists:
		if v, k := s.eval(mkEq(mkLen(t.args[0]), mkInt(0))); k && v {
			return false, true
		}
		if v, k := s.eval(mkEq(t.args[0], mkNil(nil))); k && v {
			return false, true
		}
	case OpHas:
		if v, k := s.eval(mkEq(t.args[0], mkNil(nil))); k && v {
			return false, true
		}
	case OpIs:
		x := t.args[0]
		if v, k := s.eval(mkEq(x, mkNil(nil))); k && v {
			return false, true
		}
		// another concrete type is known
		if _, iface := t.typ.Underlying().(*types.Interface); !iface {
			for f, v := range s.facts {
				if v && f.op == OpIs && f.args[0] == x && !types.Identical(f.typ, t.typ) {
					if _, i2 := f.typ.Underlying().(*types.Interface); !i2 {
						return false, true
					}
				}
			}
		}
	}
	if c, ok := s.consts[t]; ok {
		if b, ok := c.boolVal(); ok {
			return b, true
		}
	}
	return false, false
}

// apart: x is an object of this run that has been stored nowhere, y was read from the heap.
func (s *State) apart(x, y *Term) bool {
	return x.op == OpAlloc && !s.escaped[x] && y.op == OpLoad && !contains(y, func(t *Term) bool {
		return freshRoot(t) || t.op == OpLoopVar || t.op == OpElem || t.op == OpBound || t.op == OpRange || t.op == OpClosure
	})
}

// norm replaces a term by the constant it is known to equal.
func (s *State) norm(t *Term) *Term {
	if t == nil {
		return nil
	}
	if c, ok := s.consts[t]; ok {
		return c
	}
	if t.op == OpLin {
		l := lin{k: t.n}
		ch := false
		for i, a := range t.args {
			c := s.norm(a)
			if c != a {
				ch = true
			}
			l = l.add(toLin(c), t.coef[i])
		}
		if ch {
			return fromLin(l)
		}
	}
	return t
}

func (s *State) nonnil(t *Term) bool {
	if definitelyNonNil(t) {
		return true
	}
	if v, ok := s.facts[mkEq(t, mkNil(nil))]; ok && !v {
		return true
	}
	return s.ex.modelNonNil(s, t)
}

// ---- heap ----

func addrRoot(a *Term) *Term {
	if a.root == nil {
		a.root = addrRoot0(a)
	}
	return a.root
}

func addrRoot0(a *Term) *Term {
	for a.op == OpFieldAddr || a.op == OpIndexAddr {
		a = a.args[0]
		for a.op == OpSlice {
			a = a.args[0]
		}
	}
	return a
}

func structKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeStr(t)
}

// classOf names the set of locations that may alias a.
func classOf(a *Term) string {
	if a.cls == "" {
		a.cls = classOf0(a)
	}
	return a.cls
}

func classOf0(a *Term) string {
	switch a.op {
	case OpFieldAddr:
		return structKey(a.args[0].typ) + "." + fieldName(a.args[0].typ, int(a.n))
	case OpIndexAddr:
		if a.typ != nil {
			if p, ok := a.typ.Underlying().(*types.Pointer); ok {
				return "[]" + typeStr(p.Elem())
			}
		}
		return "[]?"
	case OpGlobal:
		return "G:" + a.g.String()
	}
	if a.typ != nil {
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			return "*" + typeStr(p.Elem())
		}
	}
	return "*?"
}

func elemTypeOfAddr(a *Term) types.Type {
	if a.typ == nil {
		return nil
	}
	if p, ok := a.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func freshRoot(t *Term) bool {
	switch t.op {
	case OpAlloc, OpSized:
		return true
	case OpPure:
		return freshResult[t.aux]
	}
	return false
}

func (s *State) privateAlloc(root *Term) bool {
	return freshRoot(root) && !s.escaped[root]
}

type staleKey struct {
	root *Term
	cls  string
}

func (s *State) load(a *Term, typ types.Type) *Term {
	if v, ok := s.heap[a]; ok {
		return v
	}
	if typ == nil {
		typ = elemTypeOfAddr(a)
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && !opaqueStruct(typ) {
		args := make([]*Term, st.NumFields())
		for i := range args {
			fa := mkFieldAddr(a, i, types.NewPointer(st.Field(i).Type()))
			args[i] = s.load(fa, st.Field(i).Type())
		}
		return T.mk(Term{op: OpStruct, args: args, typ: typ})
	}
	// inside a known struct/array value
	if a.op == OpFieldAddr {
		if v, ok := s.heap[a.args[0]]; ok {
			return mkField(v, int(a.n), typ)
		}
	}
	if a.op == OpIndexAddr {
		if b := a.args[0]; b.op == OpConv && b.aux == "read" {
			return mkIndex(b.args[0], a.args[1], typ)
		}
		base := a.args[0]
		for base.op == OpSlice {
			base = base.args[0]
		}
		if v, ok := s.heap[base]; ok && base.op == OpAlloc {
			return mkIndex(v, a.args[1], typ)
		}
		if b := a.args[0]; b.op == OpSeq && len(b.args) > 1 && b.args[0].op == OpSingle {
			// past the first elements
			i, k := a.args[1], 0
			for k < len(b.args)-1 && b.args[k].op == OpSingle {
				if v, ok := s.eval(mkLE(lin{k: int64(k + 1)}.add(toLin(i), -1))); !ok || !v {
					break
				}
				k++
			}
			if k > 0 {
				return s.load(mkIndexAddr(mkSeq(b.args[k:], b.typ), mkSub(i, mkInt(int64(k))), a.typ), typ)
			}
		}
		if base.op == OpSeq {
			if i, ok := a.args[1].intVal(); ok && i >= 0 {
				for k, it := range base.args {
					if it.op != OpSingle {
						break
					}
					if int64(k) == i {
						return it.args[0]
					}
				}
			}
		}
	}
	root := addrRoot(a)
	cls := classOf(a)
	if s.logLoad != nil {
		s.logLoad.add(cls, a)
	}
	if freshRoot(root) {
		g := int64(s.allocG[root])
		if st, ok := s.stale[staleKey{root, cls}]; ok {
			g += 500000 * int64(st+1)
		}
		if g == 0 && root.op != OpPure {
			return zeroValue(typ)
		}
		if g == 1 && root.op != OpPure && s.onlyElems(root, a) {
			return zeroValue(typ)
		}
		return T.mk(Term{op: OpLoad, args: []*Term{a}, n: g, typ: typ})
	}
	return T.mk(Term{op: OpLoad, args: []*Term{a}, n: int64(s.gens[cls]), typ: typ})
}

// onlyElems is a hook for refinements; element stores with symbolic index make the
// remaining elements uncertain, so there is nothing to refine.
func (s *State) onlyElems(root, a *Term) bool { return false }

// structs of other packages whose fields we never look into
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	p := n.Obj().Pkg().Path()
	if p == "net/url" {
		return false
	}
	return !strings.HasPrefix(p, repoMod)
}

func (s *State) store(a, v *Term, typ types.Type) {
	if typ == nil {
		typ = elemTypeOfAddr(a)
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && !opaqueStruct(typ) {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.store(mkFieldAddr(a, i, types.NewPointer(ft)), mkField(v, i, ft), ft)
		}
		return
	}
	root := addrRoot(a)
	priv := s.privateAlloc(root)
	fresh := freshRoot(root)
	// kill may-aliases
	cls := classOf(a)
	for h := range s.heap {
		if h == a || classOf(h) != cls {
			continue
		}
		r2 := addrRoot(h)
		if r2 != root && (priv || s.privateAlloc(r2) || (fresh && freshRoot(r2))) {
			continue
		}
		if r2 == root && fresh && a.op == OpFieldAddr && h.op == OpFieldAddr && a.args[0].op == OpFieldAddr && h.args[0].op == OpFieldAddr && a.args[0] != h.args[0] {
			continue // distinct embedded structs of one object
		}
		if a.op == OpIndexAddr && h.op == OpIndexAddr && a.args[0] == h.args[0] {
			if v, k := s.eval(mkEq(a.args[1], h.args[1])); k && !v {
				continue
			}
		}
		if freshRoot(r2) {
			s.heap[h] = T.mk(Term{op: OpUnk, aux: "alias", n: int64(s.bumpCount("unk")), typ: elemTypeOfAddr(h)})
		} else {
			delete(s.heap, h)
		}
	}
	if !fresh {
		s.gens[cls]++
		s.staleClass(cls)
	} else if symbolicIndex(a) {
		s.allocG[root]++
	}
	s.heap[a] = v
	if !priv {
		s.markEscaped(v)
	}
}

func symbolicIndex(a *Term) bool {
	for a.op == OpFieldAddr || a.op == OpIndexAddr {
		if a.op == OpIndexAddr {
			if _, ok := a.args[1].intVal(); !ok {
				return true
			}
		}
		a = a.args[0]
		for a.op == OpSlice {
			a = a.args[0]
		}
	}
	return false
}

func (s *State) bumpCount(k string) int {
	s.count[k]++
	return s.count[k]
}

// markEscaped: everything reachable from v may now be known to other code.
func (s *State) markEscaped(v *Term) {
	if v == nil {
		return
	}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if freshRoot(t) {
			if !s.escaped[t] {
				s.escaped[t] = true
				if s.ex.onEscape != nil {
					s.ex.onEscape(s, t)
				}
				for a, val := range s.heap {
					if addrRoot(a) == t {
						rec(val)
					}
				}
				if m := s.maps[t]; m != nil {
					for _, e := range m.entries {
						rec(e.v)
					}
				}
			}
			return
		}
		switch t.op {
		case OpCall, OpPure, OpLoad, OpExists, OpLE, OpEq, OpLookup:
			return
		}
		for _, x := range t.args {
			rec(x)
		}
	}
	rec(v)
}

// rootClasses: the classes of the locations inside an object.
func rootClasses(t types.Type) map[string]bool {
	if m, ok := rootCls[t]; ok {
		return m
	}
	m := map[string]bool{}
	if p, isp := t.Underlying().(*types.Pointer); isp {
		addStructClasses(m, p.Elem())
		m["*"+typeStr(p.Elem())] = true
	}
	if sl, isl := t.Underlying().(*types.Slice); isl {
		m["[]"+typeStr(sl.Elem())] = true
		addStructClasses(m, sl.Elem())
	}
	rootCls[t] = m
	return m
}

var rootCls = map[types.Type]map[string]bool{}

func addStructClasses(m map[string]bool, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		m["[]"+typeStr(u.Elem())] = true
		addStructClasses(m, u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			m[structKey(t)+"."+u.Field(i).Name()] = true
			addStructClasses(m, u.Field(i).Type())
		}
	}
}

// staleClass: the fields of this class of escaped fresh objects may have changed.
func (s *State) staleClass(cls string) {
	for r := range s.escaped {
		if r.typ != nil && rootClasses(r.typ)[cls] {
			s.stale[staleKey{r, cls}]++
		}
	}
}

// havocClass forgets everything known about a class of locations.
func (s *State) havocClass(cls string) { s.havocClasses([]string{cls}) }

func (s *State) havocClasses(cl []string) {
	if len(cl) == 0 {
		return
	}
	set := make(map[string]bool, len(cl))
	anyMap := false
	for _, c := range cl {
		set[c] = true
		s.gens[c]++
		anyMap = anyMap || strings.HasPrefix(c, "map:")
	}
	for h := range s.heap {
		if set[classOf(h)] && !s.privateAlloc(addrRoot(h)) {
			delete(s.heap, h)
		}
	}
	for r := range s.escaped {
		if r.typ == nil {
			continue
		}
		for c := range rootClasses(r.typ) {
			if set[c] {
				s.stale[staleKey{r, c}]++
			}
		}
	}
	if anyMap {
		for m, c := range s.maps {
			if set[mapClass(m.typ)] && (s.escaped[m] || !freshRoot(m)) {
				s.maps[m] = &MapC{gen: c.gen + 1}
			}
		}
	}
}

func mapClass(t types.Type) string {
	if t == nil {
		return "map:?"
	}
	return "map:" + typeStr(t.Underlying())
}

// havocAlloc forgets the contents of a fresh object.
func (s *State) havocAlloc(a *Term) {
	s.allocG[a]++
	for h := range s.heap {
		if addrRoot(h) == a {
			delete(s.heap, h)
		}
	}
	if m, ok := s.maps[a]; ok {
		s.maps[a] = &MapC{gen: m.gen + 1}
	}
}

// loadLog records which addresses of a class are read (used by the loop analysis).
type loadLog map[string]map[*Term]bool

func (l loadLog) add(cls string, a *Term) {
	if l[cls] == nil {
		l[cls] = map[*Term]bool{}
	}
	l[cls][a] = true
}

// listOf views a slice value as a known list of elements.
func (s *State) listOf(t *Term) ([]*Term, bool) {
	if t.isNil() {
		return nil, true
	}
	switch t.op {
	case OpSeq:
		var out []*Term
		for _, it := range t.args {
			switch it.op {
			case OpSingle:
				out = append(out, it.args[0])
			case OpSpread:
				l, ok := s.listOf(it.args[0])
				if !ok {
					return nil, false
				}
				out = append(out, l...)
			default:
				return nil, false
			}
		}
		return out, true
	case OpSlice:
		base := t.args[0]
		lo, ok1 := t.args[1].intVal()
		hi, ok2 := t.args[2].intVal()
		if base.op != OpAlloc || !ok1 || !ok2 || hi-lo > 256 {
			return nil, false
		}
		p, ok := base.typ.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		arr, ok := p.Elem().Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		var out []*Term
		for i := lo; i < hi; i++ {
			out = append(out, s.load(mkIndexAddr(base, mkInt(i), types.NewPointer(arr.Elem())), arr.Elem()))
		}
		return out, true
	case OpSized:
		if n, ok := t.args[0].intVal(); ok && n == 0 {
			return nil, true
		}
	}
	return nil, false
}

// seqItems turns a slice value into sequence items.
func (s *State) seqItems(t *Term) []*Term {
	if t.op == OpSeq {
		return t.args
	}
	if l, ok := s.listOf(t); ok {
		var out []*Term
		for _, e := range l {
			out = append(out, mkSingle(e))
		}
		return out
	}
	return []*Term{mkSpread(t)}
}

// canon replaces slices over private arrays by sequences, for comparison and reporting.
func (s *State) canon(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Slice); ok && t.op == OpSlice {
			if l, ok := s.listOf(t); ok {
				var out []*Term
				for _, e := range l {
					out = append(out, mkSingle(s.canon(e)))
				}
				return mkSeq(out, t.typ)
			}
		}
	}
	if t.op == OpSeq {
		var items []*Term
		for _, it := range t.args {
			switch it.op {
			case OpSingle:
				items = append(items, mkSingle(s.canon(it.args[0])))
			case OpSpread:
				items = append(items, mkSpread(s.canon(it.args[0])))
			default:
				items = append(items, it)
			}
		}
		return mkSeq(items, t.typ)
	}
	if t.op == OpIface {
		return T.mk(Term{op: OpIface, args: []*Term{s.canon(t.args[0])}, typ: t.typ})
	}
	return t
}

func (s *State) factString() string {
	var out []string
	for _, f := range s.forder {
		out = append(out, f.String())
	}
	return strings.Join(out, " && ")
}
