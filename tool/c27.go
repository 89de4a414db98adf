package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C27"] = checkTransforms }

// The transformations whose text README.md lists, as machines. A rune machine reads one
// character; a byte machine looks at a window and replaces its beginning.
type runeMachine func(q int, r rune) (out []rune, next int, free bool)
type byteMachine func(at func(k int) (int, bool)) (out []byte, adv int, free bool)

type transSpec struct {
	runes runeMachine
	bytes byteMachine // the same mapping on bytes, if there is one
	// for the texts without these characters the mapping is the identity
	special func(r rune) bool
	chars   []rune
	space   bool
}

func hexOf(b int) (int, bool) {
	switch {
	case b >= '0' && b <= '9':
		return b - '0', true
	case b >= 'a' && b <= 'f':
		return b - 'a' + 10, true
	case b >= 'A' && b <= 'F':
		return b - 'A' + 10, true
	}
	return 0, false
}

func urlMachine(uni bool) byteMachine {
	return func(at func(k int) (int, bool)) ([]byte, int, bool) {
		hex := func(k int) (int, bool) {
			b, ok := at(k)
			if !ok {
				return 0, false
			}
			return hexOf(b)
		}
		b, _ := at(0)
		switch b {
		case '+':
			return []byte{' '}, 1, false
		case '%':
		default:
			return []byte{byte(b)}, 1, false
		}
		if h, ok := hex(1); ok {
			if l, ok := hex(2); ok {
				return []byte{byte(h<<4 | l)}, 3, false
			}
			return []byte{'%'}, 1, false
		}
		if u, ok := at(1); uni && ok && (u == 'u' || u == 'U') {
			v := 0
			for k := 2; k < 6; k++ {
				h, ok := hex(k)
				if !ok {
					return []byte{'%'}, 1, false
				}
				v = v<<4 | h
			}
			switch {
			case v >= 0xff01 && v <= 0xff5e:
				return []byte{byte(v - 0xff00 + 0x20)}, 6, false
			case v >= 0xff00 || v >= 0xd800 && v < 0xe000:
				return nil, 6, true
			}
			return []byte(string(rune(v))), 6, false
		}
		return []byte{'%'}, 1, false
	}
}

func oneRune(f func(r rune) rune) runeMachine {
	return func(q int, r rune) ([]rune, int, bool) {
		if x := f(r); x >= 0 {
			return []rune{x}, q, false
		}
		return nil, q, false
	}
}

func oneByte(f func(b int) int) byteMachine {
	return func(at func(k int) (int, bool)) ([]byte, int, bool) {
		b, _ := at(0)
		if x := f(b); x >= 0 {
			return []byte{byte(x)}, 1, false
		}
		return nil, 1, false
	}
}

var transSpecs = map[string]*transSpec{
	"none":        {runes: oneRune(func(r rune) rune { return r }), bytes: oneByte(func(b int) int { return b }), special: func(r rune) bool { return false }},
	"lowercase":   {runes: oneRune(unicode.ToLower), special: func(r rune) bool { return unicode.ToLower(r) != r }},
	"removeNulls": nulls(-1), "replaceNulls": nulls(' '),
	"removeWhitespace": {runes: oneRune(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}), special: unicode.IsSpace, space: true},
	"compressWhitespace": {runes: func(q int, r rune) ([]rune, int, bool) {
		switch {
		case !unicode.IsSpace(r):
			return []rune{r}, 0, false
		case q == 1:
			return nil, 1, false
		}
		return []rune{' '}, 1, false
	}, special: unicode.IsSpace, space: true},
	"urlDecode":    {bytes: urlMachine(false), special: func(r rune) bool { return r == '%' || r == '+' }, chars: []rune{'%', '+'}},
	"urlDecodeUni": {bytes: urlMachine(true), special: func(r rune) bool { return r == '%' || r == '+' }, chars: []rune{'%', '+'}},
}

func nulls(to int) *transSpec {
	return &transSpec{
		runes: oneRune(func(r rune) rune {
			if r == 0 {
				return rune(to)
			}
			return r
		}),
		bytes: oneByte(func(b int) int {
			if b == 0 {
				return to
			}
			return b
		}),
		special: func(r rune) bool { return r == 0 }, chars: []rune{0},
	}
}

// checkTransforms: C27.
func checkTransforms(c *Ctx, r *Report) {
	r.method = methodAI + " The paths of the one loop over the text (of the function given to strings.Map) are compared with a machine that states the mapping, over all characters, or over all windows of bytes that the conditions of the path and the machine tell apart."
	r.rule = "for every transformation constructor and any text: what Trans returns is the text itself, a stated composition of library functions, or the output of one loop over the text that reads it from its beginning to its end; in each state of that loop and for each character (each window of bytes and length of the rest) every path whose condition holds writes what the documented mapping of the name writes for the characters the path consumes"
	s := c.spec(r)
	known := map[string]bool{}
	for _, f := range s.constructors("modsecurity/transforms", "Trans") {
		if f.Signature.Params().Len() != 0 {
			r.violate("anchor "+relName(f), c.pos(f), "a constructor of transformations with another signature: %s", f.Signature)
			continue
		}
		s.transform(f, known)
	}
	for n := range transSpecs {
		if !known[n] {
			r.violate("no transformation "+n, "modsecurity/transforms", "no constructor makes a transformation named %q", n)
		}
	}
	for _, n := range readmeTransforms {
		if transSpecs[n] == nil {
			r.violate("no statement "+n, "README.md", "there is no statement about the transformation %q", n)
		}
	}
	r.require("transformations made", 8)
	r.require("results judged", 8)
	r.require("windows and characters compared", 500000)
	r.assumption("strings.Map, ToLower, Fields, Join, Replace, ReplaceAll, NewReplacer, bytes.Buffer, strings.Builder and utf8.EncodeRune do what they document; a text is read as UTF-8 characters, invalid bytes as U+FFFD, where it is read by characters. The name in SecLang selects the constructor (C08); transformations are applied in order to each value (C12); none keeps state (C01). Unspecified: urlDecodeUni for %%uFF00, %%uFF5F to %%uFFFF and surrogates")
}

type transCheck struct {
	*Spec
	x     *Spec
	name  string
	key   string
	sp    *transSpec
	v     *Term
	pos   string
	maps  map[*Term]*mapCall // by symbol of the result
	nsyms int
}

type mapCall struct {
	f, x *Term
	st   *State
}

func (s *Spec) transform(f *ssa.Function, known map[string]bool) {
	r, c := s.r, s.c
	x := s.sub()
	tc := &transCheck{Spec: s, x: x, v: mkSym("text", tString), maps: map[*Term]*mapCall{}}
	x.ex.hook = func(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if fullName(f) != "strings.Map" {
			return nil, false
		}
		tc.nsyms++
		m := mkSym(fmt.Sprintf("mapped text %d", tc.nsyms), tString)
		q := st.clone()
		tc.maps[m] = &mapCall{st.norm(args[0]), st.norm(args[1]), q.clone()}
		return []Outcome{{st: q, rets: []*Term{m}}}, true
	}
	for _, o := range x.call(x.state(), f) {
		key := relName(f)
		tf := o.st.norm(o.ret())
		if !x.expect(tf.op == OpIface, o.st, key+" result", o.pos, "what %s returns is not known: %s", key, tf) {
			continue
		}
		name := ""
		for _, p := range x.invoke(o.st, tf, nil, "Name") {
			name, _ = p.st.norm(p.ret()).strVal()
		}
		m := c.p.method(tf.typ, "Trans")
		if !x.expect(name != "" && m != nil, o.st, key+" name", o.pos, "the name of the transformation made by %s is not known", key) {
			continue
		}
		if transSpecs[name] == nil {
			r.violate("unknown transformation "+name, o.pos, "there is no statement about the transformation %q", name)
			continue
		}
		known[name] = true
		r.count("transformations made", 1)
		tc.name, tc.sp, tc.key = name, transSpecs[name], name
		tr := mkSym("t", s.tt)
		q0 := o.st.clone()
		for _, p := range x.invoke(q0, tf, nil, "Trans", tr, tc.v) {
			tc.pos = p.pos
			r.count("results judged", 1)
			tc.result(p.st, p.ret())
		}
	}
	x.done()
}

func (tc *transCheck) bad(st *State, what, format string, a ...interface{}) {
	tc.x.expect(false, st, tc.name+" "+what, tc.pos, "the transformation %s: "+format, append([]interface{}{tc.name}, a...)...)
}

func (tc *transCheck) undecided(st *State, format string, a ...interface{}) {
	tc.bad(st, "undecided", "cannot decide "+format, a...)
}

func (tc *transCheck) result(st *State, ret *Term) {
	v := tc.v
	ret = st.norm(ret)
	if st.norm(v) == ret {
		tc.identity(st)
		return
	}
	if isTrue(st, mkEq(v, mkStr(""))) || isTrue(st, mkLE(toLin(mkLen(v)))) {
		if w, ok := ret.strVal(); !ok || w != "" {
			tc.bad(st, "empty", "the empty text becomes %s", ret)
		}
		return
	}
	if w, ok := st.norm(v).strVal(); ok {
		tc.undecided(st, "the special case of the text %q", w)
		return
	}
	if tc.library(st, ret) {
		return
	}
	if m := tc.maps[ret]; m != nil {
		if m.x != v {
			tc.undecided(st, "strings.Map of %s", m.x)
			return
		}
		tc.mapped(m)
		return
	}
	tc.looped(st, ret)
}

// identity: the text is returned as it is.
func (tc *transCheck) identity(st *State) {
	v := tc.v
	none := true
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if tc.sp.special(r) {
			none = false
			break
		}
	}
	if none || isTrue(st, mkLE(toLin(mkLen(v)))) || isTrue(st, mkEq(v, mkStr(""))) {
		return
	}
	if tc.sp.space && tc.noSpace(st) {
		return
	}
	if len(tc.sp.chars) > 0 {
		all := true
		for _, c := range tc.sp.chars {
			all = all && tc.absent(st, c)
		}
		if all {
			return
		}
	}
	tc.bad(st, "identity", "returns the text unchanged although it may contain characters to be mapped")
}

// absent: the text is known not to contain the character.
func (tc *transCheck) absent(st *State, c rune) bool {
	var facts []*Term
	facts = append(facts, st.forder...)
	for _, f := range facts {
		b := true
		if f.op == OpNot {
			f, b = f.args[0], false
		}
		var call *Term
		walkTerm(f, map[*Term]bool{}, func(t *Term) {
			if t.op == OpPure && len(t.args) == 2 && t.args[0] == tc.v {
				call = t
			}
		})
		if call == nil {
			continue
		}
		what := call.args[1]
		set := ""
		if w, ok := what.strVal(); ok {
			set = w
		} else if k, ok := what.intVal(); ok {
			set = string(rune(k))
		} else {
			continue
		}
		if !strings.ContainsRune(set, c) {
			continue
		}
		switch call.aux {
		case "strings.Contains", "strings.ContainsRune":
			if f == call && !b && set == string(c) {
				return true
			}
		case "strings.ContainsAny":
			if f == call && !b {
				return true
			}
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.Count":
			if call.aux != "strings.IndexAny" && set != string(c) {
				continue
			}
			top := int64(-1)
			if call.aux == "strings.Count" {
				top = 0
			}
			l := toLin(call)
			l.k -= top
			if isTrue(st, mkLE(l)) {
				return true
			}
		}
	}
	return false
}

func (tc *transCheck) noSpace(st *State) bool {
	for _, f := range st.forder {
		var call *Term
		walkTerm(f, map[*Term]bool{}, func(t *Term) {
			if (t.op == OpPure || t.op == OpCall) && len(t.args) == 2 && t.args[0] == tc.v && isSpaceFunc(t.args[1]) {
				call = t
			}
		})
		if call == nil {
			continue
		}
		switch call.aux {
		case "strings.ContainsFunc":
			if isTrue(st, mkNot(call)) {
				return true
			}
		case "strings.IndexFunc":
			l := toLin(call)
			l.k++
			if isTrue(st, mkLE(l)) {
				return true
			}
		}
	}
	return false
}

func isSpaceFunc(t *Term) bool {
	return t.op == OpFunc && t.fn != nil && fullName(t.fn) == "unicode.IsSpace"
}

// library: compositions of library functions with a documented result.
func (tc *transCheck) library(st *State, ret *Term) bool {
	pure := func(t *Term, name string) []*Term {
		if (t.op == OpPure || t.op == OpCall) && t.aux == name {
			return t.args
		}
		return nil
	}
	switch {
	case len(pure(ret, "strings.ToLower")) == 1 && pure(ret, "strings.ToLower")[0] == tc.v:
		if tc.name != "lowercase" {
			tc.bad(st, "lowercase", "returns the lower-case text")
		}
		return true
	case len(pure(ret, "strings.Replace")) > 0 || len(pure(ret, "strings.ReplaceAll")) > 0:
		a := append([]*Term{}, ret.args...)
		if len(a) == 4 {
			n, ok := a[3].intVal()
			if !ok {
				return false
			}
			if n >= 0 {
				tc.bad(st, "replace", "replaces at most %d occurrences", n)
				return true
			}
		}
		from, ok1 := a[1].strVal()
		to, ok2 := a[2].strVal()
		if a[0] != tc.v || !ok1 || !ok2 {
			return false
		}
		tc.replaced(st, from, to)
		return true
	case len(pure(ret, "strings.Join")) == 2:
		a := ret.args
		fields := pure(a[0], "strings.Fields")
		sep, ok := a[1].strVal()
		if len(fields) != 1 || fields[0] != tc.v || !ok {
			return false
		}
		if tc.name != "removeWhitespace" || sep != "" {
			tc.bad(st, "join", "joins the fields of the text with %q", sep)
		}
		return true
	}
	return false
}

func (tc *transCheck) replaced(st *State, from, to string) {
	want := ""
	if tc.name == "replaceNulls" {
		want = " "
	}
	if (tc.name == "replaceNulls" || tc.name == "removeNulls") && from == "\x00" && to == want {
		return
	}
	tc.bad(st, "replace", "replaces %q by %q", from, to)
}

// ---- evaluation of the conditions and outputs of a path

type transEnv struct {
	w   [16]int64
	n   int // bytes of the window that are known
	l   int64
	r   int64
	q   []int64
	out []byte
}

type node struct {
	f    func(e *transEnv) int64
	pos  uint32 // positions of the window
	r    bool   // reads the character
	q    uint32 // reads these state variables
	l    bool   // reads the length of the rest
	args []*node
	bool bool
}

type transEval struct {
	text *Term          // read by position (bytes)
	idx  *Term          // the current position, nil: 0
	off  int64          // the position is idx + off
	elem map[*Term]bool // the current character
	qs   []*Term
	memo map[*Term]*node
	maxL int64
}

func constNode(v int64) *node { return &node{f: func(*transEnv) int64 { return v }} }

func truncateTo(t types.Type, v int64) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(v))
	case types.Int8:
		return int64(int8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32, types.UntypedRune:
		return int64(int32(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func narrow(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Uint8, types.Int8, types.Uint16, types.Int16, types.Int32, types.Uint32, types.UntypedRune:
		return true
	}
	return false
}

var unicodePredicates = map[string]func(r rune) bool{
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsPunct": unicode.IsPunct, "unicode.IsNumber": unicode.IsNumber, "unicode.IsTitle": unicode.IsTitle, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsMark": unicode.IsMark,
}

var unicodeFuncs = map[string]func(r rune) rune{"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToTitle": unicode.ToTitle, "unicode.SimpleFold": unicode.SimpleFold}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (e *transEval) node(t *Term) *node {
	if n, ok := e.memo[t]; ok {
		return n
	}
	if e.memo == nil {
		e.memo = map[*Term]*node{}
	}
	n := e.make(t)
	e.memo[t] = n
	return n
}

func combine(f func(e *transEnv) int64, args ...*node) *node {
	n := &node{f: f, args: args}
	for _, a := range args {
		n.pos |= a.pos
		n.r = n.r || a.r
		n.q |= a.q
		n.l = n.l || a.l
	}
	return n
}

func (e *transEval) make(t *Term) *node {
	if v, ok := t.intVal(); ok {
		return constNode(v)
	}
	if v, ok := t.boolVal(); ok {
		return constNode(b2i(v))
	}
	if e.elem[t] {
		return &node{r: true, f: func(e *transEnv) int64 { return e.r }}
	}
	for i, q := range e.qs {
		if q == t {
			i := i
			return &node{q: 1 << uint(i), f: func(e *transEnv) int64 { return e.q[i] }}
		}
	}
	sub := func(i int) *node { return e.node(t.args[i]) }
	switch t.op {
	case OpIndex, OpLoad:
		base, at := indexed(t)
		if b := bytesOf(base); b != nil {
			base = b
		}
		if e.text == nil || base != e.text {
			return nil
		}
		l := toLin(at)
		k := l.k
		if e.idx != nil {
			l = l.add(toLin(e.idx), -1)
			k = l.k - e.off
		}
		if len(l.c) != 0 || k < 0 || k > 12 {
			return nil
		}
		return &node{pos: 1 << uint(k), f: func(e *transEnv) int64 { return e.w[k] }}
	case OpLen:
		base := t.args[0]
		if b := bytesOf(base); b != nil {
			base = b
		}
		if e.text != nil && base == e.text && e.idx == nil {
			return &node{l: true, f: func(e *transEnv) int64 { return e.l }}
		}
		return nil
	case OpLin:
		l := toLin(t)
		var ns []*node
		var co []int64
		var lenC, idxC int64
		for x, c := range l.c {
			switch {
			case e.idx != nil && x == e.idx:
				idxC = c
			case e.idx != nil && x.op == OpLen && (x.args[0] == e.text || bytesOf(x.args[0]) == e.text):
				lenC = c
			default:
				n := e.node(x)
				if n == nil {
					return nil
				}
				ns = append(ns, n)
				co = append(co, c)
			}
		}
		if lenC != -idxC {
			return nil
		}
		k := l.k
		k += lenC * e.off
		if lenC != 0 {
			if k > e.maxL {
				e.maxL = k
			}
			if -k > e.maxL {
				e.maxL = -k
			}
		}
		var n *node
		if narrow(t.typ) {
			typ := t.typ
			n = combine(func(e *transEnv) int64 {
				v := k + lenC*e.l
				for i, a := range ns {
					v += co[i] * a.f(e)
				}
				return truncateTo(typ, v)
			}, ns...)
		} else {
			n = combine(func(e *transEnv) int64 {
				v := k + lenC*e.l
				for i, a := range ns {
					v += co[i] * a.f(e)
				}
				return v
			}, ns...)
		}
		n.l = n.l || lenC != 0
		return n
	case OpLE:
		a := sub(0)
		if a == nil {
			return nil
		}
		n := combine(func(e *transEnv) int64 { return b2i(a.f(e) <= 0) }, a)
		n.bool = true
		return n
	case OpEq:
		a, b := sub(0), sub(1)
		if a == nil || b == nil {
			return nil
		}
		n := combine(func(e *transEnv) int64 { return b2i(a.f(e) == b.f(e)) }, a, b)
		n.bool = true
		return n
	case OpNot:
		a := sub(0)
		if a == nil {
			return nil
		}
		n := combine(func(e *transEnv) int64 { return 1 - a.f(e) }, a)
		n.bool = true
		return n
	case OpAnd, OpOr:
		var ns []*node
		for _, x := range t.args {
			a := e.node(x)
			if a == nil {
				return nil
			}
			ns = append(ns, a)
		}
		and := t.op == OpAnd
		n := combine(func(e *transEnv) int64 {
			for _, a := range ns {
				if (a.f(e) != 0) != and {
					return b2i(!and)
				}
			}
			return b2i(and)
		}, ns...)
		n.bool = true
		return n
	case OpConv:
		a := sub(0)
		if a == nil || t.typ == nil || !isIntType(t.typ) {
			return nil
		}
		typ := t.typ
		return combine(func(e *transEnv) int64 { return truncateTo(typ, a.f(e)) }, a)
	case OpBin:
		if len(t.args) != 2 || t.typ == nil || !isIntType(t.typ) {
			return nil
		}
		a, b := sub(0), sub(1)
		if a == nil || b == nil {
			return nil
		}
		var f func(x, y int64) int64
		switch t.aux {
		case "+":
			f = func(x, y int64) int64 { return x + y }
		case "-":
			f = func(x, y int64) int64 { return x - y }
		case "*":
			f = func(x, y int64) int64 { return x * y }
		case "|":
			f = func(x, y int64) int64 { return x | y }
		case "&":
			f = func(x, y int64) int64 { return x & y }
		case "^":
			f = func(x, y int64) int64 { return x ^ y }
		case "&^":
			f = func(x, y int64) int64 { return x &^ y }
		case "<<":
			f = func(x, y int64) int64 { return x << uint(y&63) }
		case ">>":
			f = func(x, y int64) int64 { return x >> uint(y&63) }
		default:
			return nil
		}
		typ := t.typ
		return combine(func(e *transEnv) int64 { return truncateTo(typ, f(a.f(e), b.f(e))) }, a, b)
	case OpPure:
		if len(t.args) != 1 {
			return nil
		}
		a := sub(0)
		if a == nil {
			return nil
		}
		if p := unicodePredicates[t.aux]; p != nil {
			n := combine(func(e *transEnv) int64 { return b2i(p(rune(a.f(e)))) }, a)
			n.bool = true
			return n
		}
		if p := unicodeFuncs[t.aux]; p != nil {
			return combine(func(e *transEnv) int64 { return int64(p(rune(a.f(e)))) }, a)
		}
	}
	return nil
}

// item is a piece of output: a byte, a character, a constant or a part of the window.
type item struct {
	kind   byte // 'b', 'r', 'c', 'w'
	n      *node
	s      string
	lo, hi int
}

func (e *transEval) byteItem(t *Term) (item, bool) {
	n := e.node(t)
	return item{kind: 'b', n: n}, n != nil
}

func (e *transEval) runeItem(t *Term) (item, bool) {
	n := e.node(t)
	return item{kind: 'r', n: n}, n != nil
}

// textItems: the pieces of a string or a list of bytes.
func (e *transEval) textItems(t *Term) ([]item, bool) {
	if w, ok := t.strVal(); ok {
		return []item{{kind: 'c', s: w}}, true
	}
	if t.isNil() {
		return nil, true
	}
	switch t.op {
	case OpConv:
		a := t.args[0]
		if a.typ != nil && isIntType(a.typ) {
			it, ok := e.runeItem(a)
			return []item{it}, ok
		}
		return e.textItems(a)
	case OpBin:
		if t.aux != "concat" {
			return nil, false
		}
		var out []item
		for _, a := range t.args {
			p, ok := e.textItems(a)
			if !ok {
				return nil, false
			}
			out = append(out, p...)
		}
		return out, true
	case OpSlice:
		base := t.args[0]
		if b := bytesOf(base); b != nil {
			base = b
		}
		if hi := t.args[2]; base.op == OpAlloc && hi != nil && (hi.op == OpPure || hi.op == OpCall) && hi.aux == "unicode/utf8.EncodeRune" && len(hi.args) == 2 {
			lo, ok := int64(0), true
			if t.args[1] != nil {
				lo, ok = t.args[1].intVal()
			}
			if !ok || lo != 0 || hi.args[0].op != OpSeq || len(hi.args[0].args) < utf8.UTFMax {
				return nil, false
			}
			it, ok := e.runeItem(hi.args[1])
			return []item{it}, ok
		}
		if e.text == nil || base != e.text {
			return nil, false
		}
		at := func(x *Term, def int64) (int, bool) {
			if x == nil {
				return int(def), def >= 0 && e.idx == nil
			}
			l := toLin(x)
			if e.idx != nil {
				l = l.add(toLin(e.idx), -1)
				l.k -= e.off
			}
			return int(l.k), len(l.c) == 0 && l.k >= 0 && l.k <= 12
		}
		lo, ok1 := at(t.args[1], 0)
		hi, ok2 := at(t.args[2], -1)
		if !ok1 || !ok2 || lo > hi {
			return nil, false
		}
		return []item{{kind: 'w', lo: lo, hi: hi}}, true
	case OpSeq:
		var out []item
		for _, x := range t.args {
			switch x.op {
			case OpSingle:
				a := x.args[0]
				it, ok := e.byteItem(a)
				if a.typ != nil && types.Identical(a.typ.Underlying(), types.Typ[types.Rune]) {
					it.kind = 'r'
				}
				if !ok {
					return nil, false
				}
				out = append(out, it)
			case OpSpread:
				p, ok := e.textItems(x.args[0])
				if !ok {
					return nil, false
				}
				out = append(out, p...)
			default:
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

// appended: the pieces that next adds to the output variable.
func (e *transEval) appended(lv, next *Term) ([]item, bool) {
	if next == lv {
		return nil, true
	}
	switch {
	case next.op == OpSeq && len(next.args) > 0 && next.args[0].op == OpSpread:
		head, ok := e.appended(lv, next.args[0].args[0])
		if !ok {
			return nil, false
		}
		runes := false
		if sl, ok := lv.typ.Underlying().(*types.Slice); ok {
			runes = types.Identical(sl.Elem().Underlying(), types.Typ[types.Rune])
		}
		for _, x := range next.args[1:] {
			if x.op == OpSingle {
				it, ok := e.byteItem(x.args[0])
				if !ok {
					return nil, false
				}
				if runes {
					it.kind = 'r'
				}
				head = append(head, it)
				continue
			}
			if x.op != OpSpread {
				return nil, false
			}
			p, ok := e.textItems(x.args[0])
			if !ok {
				return nil, false
			}
			head = append(head, p...)
		}
		return head, true
	case next.op == OpBin && next.aux == "concat" && len(next.args) > 0:
		head, ok := e.appended(lv, next.args[0])
		if !ok {
			return nil, false
		}
		for _, a := range next.args[1:] {
			p, ok := e.textItems(a)
			if !ok {
				return nil, false
			}
			head = append(head, p...)
		}
		return head, true
	case (next.op == OpPure || next.op == OpCall) && next.aux == "unicode/utf8.AppendRune" && len(next.args) == 2:
		head, ok := e.appended(lv, next.args[0])
		if !ok {
			return nil, false
		}
		it, ok := e.runeItem(next.args[1])
		return append(head, it), ok
	}
	return nil, false
}

func (it item) write(e *transEnv) {
	switch it.kind {
	case 'b':
		e.out = append(e.out, byte(it.n.f(e)))
	case 'r':
		e.out = append(e.out, string(rune(it.n.f(e)))...)
	case 'c':
		e.out = append(e.out, it.s...)
	case 'w':
		for k := it.lo; k < it.hi; k++ {
			e.out = append(e.out, byte(e.w[k]))
		}
	}
}

func (it item) positions() uint32 {
	if it.kind == 'w' {
		var m uint32
		for k := it.lo; k < it.hi; k++ {
			m |= 1 << uint(k)
		}
		return m
	}
	if it.n != nil {
		return it.n.pos
	}
	return 0
}

// ---- loops

// transPath is one way through an iteration.
type transPath struct {
	st    *State
	kind  string
	conds []*node
	items []item
	next  []*node // new values of the state variables
	adv   int
}

// looped: the text is the output of one loop.
func (tc *transCheck) looped(st *State, ret *Term) {
	var rec *LoopRec
	var others []*Event
	for _, e := range st.ev.list() {
		if e.kind == EvLoop {
			if rec != nil {
				tc.undecided(st, "the result of several loops")
				return
			}
			rec = e.loop
			continue
		}
		others = append(others, e)
	}
	if rec == nil {
		tc.undecided(st, "the result %s", clip(ret.String(), 200))
		return
	}
	for _, o := range rec.outs {
		for _, e := range o.events {
			if e.kind == EvLoop {
				tc.undecided(st, "loops inside the loop over the text")
				return
			}
		}
		if o.kind == "return" {
			tc.undecided(st, "a return from inside the loop over the text")
			return
		}
	}
	// where the output is collected
	var buf, lv, init *Term
	a := ret
	for a.op == OpConv && len(a.args) == 1 {
		a = a.args[0]
	}
	if (ret.op == OpCall || ret.op == OpPure) && (ret.aux == "(*bytes.Buffer).String" || ret.aux == "(*strings.Builder).String") {
		buf = ret.args[0]
	} else if (a.op == OpCall || a.op == OpPure) && a.aux == "(*bytes.Buffer).Bytes" {
		buf = a.args[0]
	} else {
		for _, v := range rec.vars {
			if v.lv == a {
				lv, init = v.lv, v.init
			}
		}
	}
	switch {
	case buf != nil:
		if !tc.freshBuffer(st, rec, buf, others) {
			return
		}
	case lv == nil:
		tc.undecided(st, "the result %s", clip(ret.String(), 200))
		return
	default:
		if l, ok := rec.pre.listOf(init); ok {
			if len(l) != 0 {
				tc.bad(st, "beginning", "the result begins with %s", init)
				return
			}
		} else if w, ok := init.strVal(); !ok || w != "" {
			tc.undecided(st, "the beginning %s of the result", init)
			return
		}
	}
	e := &transEval{}
	container := rec.container
	if container != nil {
		if b := bytesOf(container); b != nil {
			container = b
		}
	}
	runes := false
	switch {
	case rec.kind == "string" && container == tc.v:
		runes = true
		e.elem = map[*Term]bool{rec.elem: true}
	case rec.kind == "slice" && rec.container.op == OpConv && container == tc.v && types.Identical(rec.container.typ.Underlying(), types.NewSlice(types.Typ[types.Rune])):
		runes = true
		e.elem = map[*Term]bool{}
		for _, o := range rec.outs {
			for _, f := range append(append([]*Term{}, o.facts...), nextTerms(o)...) {
				walkTerm(f, map[*Term]bool{}, func(t *Term) {
					if b, at := indexed(t); b != nil && b == rec.container && (at == rec.idxVar || at == rec.idx) {
						e.elem[t] = true
					}
				})
			}
		}
		if rec.elem != nil {
			e.elem[rec.elem] = true
		}
	default:
		// bytes: the position is a loop variable, or the rest of the text is
		for _, v := range rec.vars {
			if v.init == tc.v && v.lv != nil {
				e.text = v.lv
			}
		}
		if e.text == nil {
			e.text = tc.v
			for _, v := range rec.vars {
				if tc.isPosition(rec, v) {
					if e.idx != nil {
						tc.undecided(st, "several positions in the text")
						return
					}
					e.idx = v.lv
				}
			}
			if e.idx == nil {
				tc.undecided(st, "how the loop reads the text")
				return
			}
			for _, v := range rec.vars {
				if v.lv != e.idx {
					continue
				}
				k, ok := v.init.intVal()
				if ok && k == -1 && rec.idx != nil && rec.idxVar == v.lv {
					d := toLin(rec.idx).add(toLin(v.lv), -1)
					e.off, ok = d.k, ok && len(d.c) == 0
				}
				if !ok || k+e.off != 0 {
					tc.bad(st, "start", "the loop begins at the position %s", v.init)
					return
				}
			}
		}
	}
	// state variables
	var inits []*Term
	for _, v := range rec.vars {
		if v.lv == lv || v.lv == e.idx || v.lv == e.text || v.lv == rec.idxVar {
			continue
		}
		e.qs = append(e.qs, v.lv)
		inits = append(inits, v.init)
	}
	var paths []*transPath
	for _, o := range rec.outs {
		p, ok := tc.path(e, rec, o, buf, lv, runes)
		if !ok {
			return
		}
		paths = append(paths, p)
	}
	if runes {
		tc.compareRunes(st, e, paths, inits, false)
	} else {
		tc.compareBytes(st, e, paths)
	}
}

func nextTerms(o *iterOut) []*Term {
	var out []*Term
	for _, t := range o.next {
		out = append(out, t)
	}
	for _, e := range o.events {
		out = append(out, e.args...)
	}
	return out
}

// indexed: base[at].
func indexed(t *Term) (base, at *Term) {
	switch {
	case t.op == OpIndex:
		return t.args[0], t.args[1]
	case t.op == OpLoad && len(t.args) > 0 && t.args[0].op == OpIndexAddr:
		return t.args[0].args[0], t.args[0].args[1]
	}
	return nil, nil
}

// isPosition: the text is read relative to the variable.
func (tc *transCheck) isPosition(rec *LoopRec, v *loopVar) bool {
	found := false
	for _, o := range rec.outs {
		for _, f := range append(append([]*Term{}, o.facts...), nextTerms(o)...) {
			walkTerm(f, map[*Term]bool{}, func(t *Term) {
				if b, at := indexed(t); b != nil && (b == tc.v || bytesOf(b) == tc.v) {
					if _, ok := toLin(at).c[v.lv]; ok {
						found = true
					}
				}
			})
		}
	}
	return found
}

// freshBuffer: the buffer is empty before the loop and only read after it.
func (tc *transCheck) freshBuffer(st *State, rec *LoopRec, buf *Term, others []*Event) bool {
	switch {
	case buf.op == OpAlloc:
	case (buf.op == OpCall || buf.op == OpPure) && (buf.aux == "bytes.NewBuffer" || buf.aux == "bytes.NewBufferString"):
		a := buf.args[0]
		l, ok := rec.pre.listOf(a)
		w, ok2 := a.strVal()
		if !(ok && len(l) == 0 || ok2 && w == "") {
			tc.undecided(st, "the beginning %s of the buffer", a)
			return false
		}
	default:
		tc.undecided(st, "the buffer %s", buf)
		return false
	}
	for _, e := range others {
		touches := false
		for _, a := range e.args {
			touches = touches || a == buf
		}
		m := e.callee[strings.LastIndex(e.callee, ".")+1:]
		if touches && m != "Grow" && m != "String" && m != "Bytes" && m != "Len" && m != "Cap" {
			tc.bad(st, "outside", "%s outside of the loop over the text", e)
			return false
		}
	}
	return true
}

func (tc *transCheck) path(e *transEval, rec *LoopRec, o *iterOut, buf, lv *Term, runes bool) (*transPath, bool) {
	p := &transPath{st: o.st, kind: o.kind}
	facts := o.facts
	if o.st != nil && rec.hforder <= len(o.st.forder) {
		facts = o.st.forder[rec.hforder:]
	}
	for _, f := range facts {
		if o.kind == "exit" && runes && rec.more != nil && f == mkNot(rec.more) {
			p.conds = append(p.conds, constNode(0)) // only at the end of the text
			continue
		}
		if o.kind == "exit" && rec.kind == "slice" && runes && rec.idx != nil {
			l := toLin(mkLen(rec.container)).add(toLin(rec.idx), -1)
			if f == mkLE(l) {
				p.conds = append(p.conds, constNode(0))
				continue
			}
		}
		if n := e.node(f); n != nil {
			p.conds = append(p.conds, n)
		}
	}
	if buf != nil {
		for _, ev := range o.events {
			touches := false
			for _, a := range ev.args {
				touches = touches || a == buf
			}
			if !touches {
				continue
			}
			m := ev.callee[strings.LastIndex(ev.callee, ".")+1:]
			var its []item
			ok := len(ev.args) == 2
			switch {
			case !ok:
			case m == "WriteByte":
				var it item
				it, ok = e.byteItem(ev.args[1])
				its = []item{it}
			case m == "WriteRune":
				var it item
				it, ok = e.runeItem(ev.args[1])
				its = []item{it}
			case m == "WriteString", m == "Write":
				its, ok = e.textItems(ev.args[1])
			default:
				ok = false
			}
			if !ok {
				tc.undecided(o.st, "the output of %s", ev)
				return nil, false
			}
			p.items = append(p.items, its...)
		}
	}
	if o.kind != "back" {
		return p, true
	}
	if lv != nil {
		its, ok := e.appended(lv, o.next[lv])
		if !ok {
			tc.undecided(o.st, "the output %s", o.next[lv])
			return nil, false
		}
		p.items = append(p.items, its...)
	}
	switch {
	case runes:
	case e.idx != nil:
		l := toLin(o.next[e.idx]).add(toLin(e.idx), -1)
		if len(l.c) != 0 || l.k < 0 || l.k > 12 {
			tc.undecided(o.st, "how far an iteration advances: %s", o.next[e.idx])
			return nil, false
		}
		p.adv = int(l.k)
	default:
		n := o.next[e.text]
		k, ok := int64(0), false
		if n == e.text {
			ok = true
		} else if n != nil && n.op == OpSlice && n.args[0] == e.text && n.args[1] != nil {
			k, ok = n.args[1].intVal()
			ok = ok && (n.args[2] == nil || n.args[2] == mkLen(e.text))
		}
		if !ok || k < 0 || k > 12 {
			tc.undecided(o.st, "how far an iteration advances: %s", n)
			return nil, false
		}
		p.adv = int(k)
	}
	for _, q := range e.qs {
		n := o.next[q]
		if n == nil {
			n = q
		}
		p.next = append(p.next, e.node(n))
	}
	return p, true
}

// relevant: the state variables that conditions or outputs depend on.
func relevant(paths []*transPath) uint32 {
	var m uint32
	for _, p := range paths {
		for _, n := range p.conds {
			m |= n.q
		}
		for _, it := range p.items {
			if it.n != nil {
				m |= it.n.q
			}
		}
	}
	for {
		old := m
		for _, p := range paths {
			for i, n := range p.next {
				if m&(1<<uint(i)) != 0 && n != nil {
					m |= n.q
				}
			}
		}
		if m == old {
			return m
		}
	}
}

// mapped: the text is what strings.Map makes of it.
func (tc *transCheck) mapped(m *mapCall) {
	e := &transEval{}
	r := mkSym("character", types.Typ[types.Rune])
	e.elem = map[*Term]bool{r: true}
	st := m.st.clone()
	var cells []*Term
	var inits []*Term
	if m.f.op == OpClosure {
		for i, b := range m.f.args {
			if b.op != OpAlloc || !written(m.f.fn, i) {
				continue
			}
			p, ok := b.typ.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			if _, ok := p.Elem().Underlying().(*types.Basic); !ok {
				continue
			}
			q := mkSym(fmt.Sprintf("state %d", len(cells)), p.Elem())
			inits = append(inits, st.norm(st.load(b, p.Elem())))
			st.store(b, q, p.Elem())
			cells = append(cells, b)
			e.qs = append(e.qs, q)
		}
	}
	st.assumeQuiet(mkLE(toLin(r).scale(-1)), true)
	n0 := len(st.forder)
	var paths []*transPath
	var outs []Outcome
	if m.f.op == OpFunc && unicodeFuncs[fullName(m.f.fn)] != nil {
		outs = []Outcome{{st: st, rets: []*Term{mkPure(fullName(m.f.fn), []*Term{r}, types.Typ[types.Rune], 0)}}}
	} else {
		var ok bool
		outs, ok = tc.x.callValue(st, m.f, r)
		if !ok {
			tc.undecided(st, "the function %s given to strings.Map", m.f)
			return
		}
	}
	for _, o := range outs {
		p := &transPath{st: o.st, kind: "back"}
		for _, f := range o.st.forder[n0:] {
			if n := e.node(f); n != nil {
				p.conds = append(p.conds, n)
			}
		}
		it, ok := e.runeItem(o.st.norm(o.ret()))
		if !ok {
			tc.undecided(o.st, "the character %s", o.ret())
			return
		}
		it.kind = 'm'
		p.items = []item{it}
		for i, c := range cells {
			p.next = append(p.next, e.node(o.st.norm(o.st.load(c, e.qs[i].typ))))
		}
		paths = append(paths, p)
	}
	tc.compareRunes(m.st, e, paths, inits, true)
}

// written: the closure (or a closure made by it) may change the variable it has captured.
func written(f *ssa.Function, i int) bool {
	refs := f.FreeVars[i].Referrers()
	if refs == nil {
		return true
	}
	for _, in := range *refs {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		return true
	}
	return false
}

// boolParts: the conditions on the character alone, and on state variables that hold characters.
func boolParts(n *node, out map[*node]bool) {
	if n == nil {
		return
	}
	if n.bool {
		out[n] = true
	}
	for _, a := range n.args {
		boolParts(a, out)
	}
}

func (tc *transCheck) compareRunes(st *State, e *transEval, paths []*transPath, inits []*Term, isMap bool) {
	if tc.sp.runes == nil {
		tc.undecided(st, "a mapping of bytes that is made by characters")
		return
	}
	rel := relevant(paths)
	var q0 []int64
	for i := range e.qs {
		if rel&(1<<uint(i)) == 0 {
			q0 = append(q0, 0)
			continue
		}
		v, ok := inits[i].intVal()
		if b, ok2 := inits[i].boolVal(); ok2 {
			v, ok = b2i(b), true
		}
		if !ok {
			tc.undecided(st, "the first value %s of the state of the loop", inits[i])
			return
		}
		q0 = append(q0, v)
	}
	// classes of characters that all conditions and the machine treat alike
	parts := map[*node]bool{}
	for _, p := range paths {
		for _, n := range p.conds {
			boolParts(n, parts)
		}
		for i, n := range p.next {
			if rel&(1<<uint(i)) != 0 {
				boolParts(n, parts)
			}
		}
		for _, it := range p.items {
			boolParts(it.n, parts)
		}
	}
	var tests []*node
	for n := range parts {
		// conditions on one unknown
		if n.r && n.q == 0 {
			tests = append(tests, n)
		} else if !n.r && bits.OnesCount32(n.q) == 1 {
			if q := e.qs[bits.TrailingZeros32(n.q)]; q.typ != nil && isIntType(q.typ) {
				tests = append(tests, n)
			}
		} else if n.q != 0 && n.r {
			mixed := false
			for _, a := range n.args {
				if !(a.bool || a.q == 0 || !a.r && a.q != 0) {
					mixed = true
				}
			}
			if mixed || len(n.args) == 1 && !n.args[0].bool {
				tc.undecided(st, "a condition on the character and the state of the loop together")
				return
			}
		}
	}
	sort.Slice(tests, func(i, j int) bool { return fmt.Sprintf("%p", tests[i]) < fmt.Sprintf("%p", tests[j]) })
	if len(tests) > 60 {
		tc.undecided(st, "a loop with %d conditions", len(tests))
		return
	}
	env := &transEnv{q: make([]int64, len(e.qs))}
	classOf := func(r int64) uint64 {
		env.r = r
		for i := range env.q {
			env.q[i] = r
		}
		var m uint64
		for i, n := range tests {
			m |= uint64(n.f(env)) << uint(i)
		}
		if tc.sp.special(rune(r)) {
			m |= 1 << 62
		}
		return m
	}
	type class struct {
		rep     int64
		members []int32
	}
	classes := map[uint64]*class{}
	var order []*class
	for r := int64(0); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		k := classOf(r)
		cl := classes[k]
		if cl == nil {
			cl = &class{rep: r}
			classes[k] = cl
			order = append(order, cl)
		}
		cl.members = append(cl.members, int32(r))
	}
	for i, q := range e.qs {
		if rel&(1<<uint(i)) != 0 && q.typ != nil && isIntType(q.typ) && q0[i] >= 0 {
			q0[i] = classes[classOf(q0[i])].rep
		}
	}
	type config struct {
		q  string
		sq int
	}
	enc := func(q []int64) string { return fmt.Sprint(q) }
	seen := map[config][]int64{}
	work := []config{{enc(q0), 0}}
	seen[work[0]] = q0
	n := 0
	for len(work) > 0 {
		cf := work[0]
		work = work[1:]
		qv := seen[cf]
		if len(seen) > 200 {
			tc.undecided(st, "a loop with more than 200 states")
			return
		}
		for _, cl := range order {
			covered := false
			for _, p := range paths {
				copy(env.q, qv)
				env.r = cl.rep
				ok := true
				for _, c := range p.conds {
					if c.f(env) == 0 {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				if p.kind != "back" {
					tc.bad(p.st, "ends early", "stops before the end of the text, at the character %q", rune(cl.rep))
					return
				}
				covered = true
				var want []rune
				var sq int
				members := cl.members
				for _, r := range members {
					n++
					env.r = int64(r)
					var free bool
					want, sq, free = tc.sp.runes(cf.sq, rune(r))
					if free {
						continue
					}
					env.out = env.out[:0]
					for _, it := range p.items {
						if it.kind == 'm' {
							if x := it.n.f(env); x >= 0 {
								env.out = append(env.out, string(rune(x))...)
							}
							continue
						}
						it.write(env)
					}
					if string(env.out) != string(want) {
						tc.bad(p.st, "character", "for the character %q (state %d of the mapping) it writes %q instead of %q", r, cf.sq, string(env.out), string(want))
						return
					}
				}
				env.r = cl.rep
				_, sq, _ = tc.sp.runes(cf.sq, rune(cl.rep))
				nq := make([]int64, len(qv))
				for i, x := range p.next {
					if rel&(1<<uint(i)) == 0 {
						continue
					}
					if x == nil {
						tc.undecided(p.st, "the next state of the loop")
						return
					}
					nq[i] = x.f(env)
					if e.qs[i].typ != nil && isIntType(e.qs[i].typ) && x.r && nq[i] >= 0 && nq[i] <= unicode.MaxRune {
						if k := classes[classOf(nq[i])]; k != nil {
							nq[i] = k.rep
						}
						copy(env.q, qv)
						env.r = cl.rep
					}
				}
				nc := config{enc(nq), sq}
				if _, ok := seen[nc]; !ok {
					seen[nc] = nq
					work = append(work, nc)
				}
			}
			if !covered {
				tc.bad(st, "no path", "no path handles the character %q", rune(cl.rep))
				return
			}
		}
	}
	tc.r.count("windows and characters compared", n)
	tc.r.count("states of loops", len(seen))
	tc.r.sample("%s: %d paths, %d states, %d classes of characters", tc.name, len(paths), len(seen), len(order))
}

func (tc *transCheck) compareBytes(st *State, e *transEval, paths []*transPath) {
	if tc.sp.bytes == nil {
		tc.bad(st, "bytes", "maps single bytes, which are no characters outside of ASCII")
		return
	}
	if relevant(paths) != 0 {
		tc.undecided(st, "a loop over bytes that keeps state")
		return
	}
	if len(e.qs) > 0 {
		e.memo = nil
	}
	maxL := e.maxL + 1
	if maxL < 8 {
		maxL = 8
	}
	if maxL > 14 {
		tc.undecided(st, "conditions on %d remaining bytes", e.maxL)
		return
	}
	n := 0
	for _, p := range paths {
		for l := int64(1); l <= maxL; l++ {
			w := &windows{tc: tc, p: p, env: &transEnv{l: l, q: make([]int64, len(e.qs))}}
			if !w.start() {
				return
			}
			n += w.count
		}
		if p.kind == "back" {
			continue
		}
		// at the end of the text nothing is written
		if len(p.items) > 0 {
			tc.bad(p.st, "end", "writes at the end of the text")
			return
		}
	}
	tc.r.count("windows and characters compared", n)
	tc.r.sample("%s: %d paths, rests of 1 to %d bytes, %d windows", tc.name, len(paths), maxL, n)
}

// windows enumerates the windows of bytes of one path.
type windows struct {
	tc    *transCheck
	p     *transPath
	env   *transEnv
	at    [16][]*node // conditions decided by the byte at this position
	whole [16]bool    // each value of the byte at this position counts
	need  int
	count int
	want  []byte
	ask   int
}

func (w *windows) start() bool {
	var all uint32
	for _, c := range w.p.conds {
		all |= c.pos
		if c.pos == 0 {
			if c.f(w.env) == 0 {
				return true
			}
			continue
		}
		w.at[bits.Len32(c.pos)-1] = append(w.at[bits.Len32(c.pos)-1], c)
		if bits.OnesCount32(c.pos) > 1 {
			w.mark(c.pos)
		}
	}
	for _, it := range w.p.items {
		all |= it.positions()
		w.mark(it.positions())
	}
	w.need = bits.Len32(all)
	if int64(w.need) > w.env.l {
		return true // reads beyond the end of the text: C04
	}
	return w.rec(0)
}

func (w *windows) mark(m uint32) {
	for k := range w.whole {
		if m&(1<<uint(k)) != 0 {
			w.whole[k] = true
		}
	}
}

var distinguished = []int64{'%', '+', 'u', 'U', ' ', 0, 'x', 'g', 'G', '/', ':', '@', '`', 0x80, 0xff}

func (w *windows) rec(k int) bool {
	if k >= w.need {
		w.ask = -1
		w.env.n = k
		if !w.judge() {
			return false
		}
		if w.ask < 0 {
			return true
		}
	}
	if k >= 14 {
		return true
	}
	seen := map[uint64]int{}
	for b := int64(0); b < 256; b++ {
		w.env.w[k] = b
		ok := true
		for _, c := range w.at[k] {
			if c.f(w.env) == 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if !w.whole[k] {
			// one plain byte, at most three hexadecimal digits of each kind and the special ones stand for all
			_, hex := hexOf(int(b))
			kind := uint64(0)
			switch {
			case hex && b <= '9':
				kind = 1
			case hex && b >= 'a':
				kind = 2
			case hex:
				kind = 3
			default:
				for i, d := range distinguished {
					if d == b {
						kind = uint64(10 + i)
					}
				}
			}
			max := 1
			if kind >= 1 && kind <= 3 {
				max = 2
			}
			if seen[kind] >= max {
				continue
			}
			seen[kind]++
		}
		if !w.rec(k + 1) {
			return false
		}
	}
	return true
}

// judge compares the output of the path with the machine; it asks for further bytes by w.ask.
func (w *windows) judge() bool {
	env, p, tc := w.env, w.p, w.tc
	if p.kind != "back" {
		tc.bad(p.st, "ends early", "stops before the end of the text, %d bytes before it, at %q", env.l, w.window())
		return false
	}
	if p.adv == 0 {
		tc.bad(p.st, "no progress", "an iteration may consume nothing, at %q with %d bytes left", w.window(), env.l)
		return false
	}
	if int64(p.adv) > env.l {
		tc.bad(p.st, "beyond", "an iteration consumes %d bytes although %d are left", p.adv, env.l)
		return false
	}
	w.want = w.want[:0]
	used := 0
	anything := false
	for used < p.adv {
		out, adv, free := tc.sp.bytes(func(k int) (int, bool) {
			k += used
			if int64(k) >= env.l {
				return 0, false
			}
			if k >= env.n {
				if w.ask < 0 {
					w.ask = k
				}
				return 0, true
			}
			return int(env.w[k]), true
		})
		if w.ask >= 0 {
			return true
		}
		used += adv
		w.want = append(w.want, out...)
		anything = anything || free
	}
	w.count++
	if used != p.adv {
		tc.bad(p.st, "consumed", "at %q with %d bytes left an iteration consumes %d bytes instead of %d", w.window(), env.l, p.adv, used)
		return false
	}
	if anything {
		return true
	}
	env.out = env.out[:0]
	for _, it := range p.items {
		it.write(env)
	}
	if string(env.out) != string(w.want) {
		tc.bad(p.st, "bytes", "at %q with %d bytes left it writes %q instead of %q", w.window(), env.l, string(env.out), string(w.want))
		return false
	}
	return true
}

func (w *windows) window() string {
	var b []byte
	for k := 0; k < w.env.n; k++ {
		b = append(b, byte(w.env.w[k]))
	}
	return string(b)
}
