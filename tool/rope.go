package main

import (
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// Texts: strings known as a sequence of constant pieces and atoms. An atom stands for
// any text of at least min bytes in which none of the (ASCII) characters of no occurs.

type atomInfo struct {
	no  string
	min int64
	one bool // exactly one byte
}

var atoms = map[*Term]*atomInfo{}

// mkAtom makes a text atom.
func mkAtom(name, no string, min int64) *Term {
	t := mkSym("text:"+name, tString)
	atoms[t] = &atomInfo{no: no, min: min}
	return t
}

// mkChar makes an atom of exactly one byte.
func mkChar(name, no string) *Term {
	t := mkSym("text:"+name, tString)
	atoms[t] = &atomInfo{no: no, min: 1, one: true}
	return t
}

// textState assumes the minimal lengths of all atoms.
func assumeAtoms(st *State, ts ...*Term) {
	for _, t := range ts {
		for _, p := range ropeOf(t) {
			if a := atoms[p]; a != nil {
				st.assumeQuiet(mkLE(toLin(mkLen(p)).scale(-1).add(lin{k: a.min}, 1)), true)
			}
		}
	}
}

// mkText concatenates constants and atoms.
func mkText(parts ...interface{}) *Term {
	t := mkStr("")
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			t = mkConcat(t, mkStr(x))
		case *Term:
			t = mkConcat(t, x)
		}
	}
	return t
}

// ropeOf: the pieces of a text, nil if it is not one.
func ropeOf(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if _, ok := t.strVal(); ok {
		return []*Term{t}
	}
	if atoms[t] != nil {
		return []*Term{t}
	}
	if t.op == OpBin && t.aux == "concat" {
		for _, a := range t.args {
			if _, ok := a.strVal(); !ok && atoms[a] == nil {
				return nil
			}
		}
		return t.args
	}
	return nil
}

func fromRope(parts []*Term) *Term {
	t := mkStr("")
	for _, p := range parts {
		t = mkConcat(t, p)
	}
	return t
}

// ropeCut splits pieces at a position.
func ropeCut(parts []*Term, pos *Term) (left, right []*Term, ok bool) {
	p := toLin(pos)
	start := lin{}
	for i, x := range parts {
		d := p.add(start, -1)
		if len(d.c) == 0 {
			if d.k == 0 {
				return parts[:i:i], parts[i:], true
			}
			if s, isC := x.strVal(); isC && d.k > 0 && d.k <= int64(len(s)) {
				l := append(append([]*Term{}, parts[:i]...), mkStr(s[:d.k]))
				r := append([]*Term{mkStr(s[d.k:])}, parts[i+1:]...)
				return l, r, true
			}
		}
		start = start.add(toLin(mkLen(x)), 1)
	}
	if d := p.add(start, -1); len(d.c) == 0 && d.k == 0 {
		return parts, nil, true
	}
	return nil, nil, false
}

// ropeSlice: x[lo:hi] of a text.
func ropeSlice(x, lo, hi *Term) *Term {
	parts := ropeOf(x)
	if len(parts) == 0 {
		return nil
	}
	if len(parts) == 1 && atoms[x] != nil {
		if v, ok := lo.intVal(); ok && v == 0 {
			if h, ok := hi.intVal(); ok && h == 0 {
				return mkStr("")
			}
			if hi == mkLen(x) {
				return x
			}
		}
		if lo == mkLen(x) && hi == lo {
			return mkStr("")
		}
		return nil
	}
	_, r, ok := ropeCut(parts, lo)
	if !ok {
		return nil
	}
	m, _, ok := ropeCut(r, mkSub(hi, lo))
	if !ok {
		return nil
	}
	return fromRope(m)
}

// ropeIndex: x[i] of a text.
func ropeIndex(x, i *Term, typ types.Type) *Term {
	parts := ropeOf(x)
	if len(parts) < 2 {
		return nil
	}
	start := lin{}
	p := toLin(i)
	for _, x := range parts {
		d := p.add(start, -1)
		s, isC := x.strVal()
		if len(d.c) == 0 {
			if isC && d.k >= 0 && d.k < int64(len(s)) {
				return mkInt(int64(s[d.k]))
			}
			if !isC && d.k >= 0 && d.k < atoms[x].min {
				return mkIndex(x, mkInt(d.k), typ)
			}
		}
		end := start.add(toLin(mkLen(x)), 1)
		if e := p.add(end, -1); !isC && len(e.c) == 0 && e.k < 0 && -e.k <= atoms[x].min {
			return mkIndex(x, fromLin(d), typ)
		}
		start = end
	}
	return nil
}

// charExcluded: t is a character of an atom that cannot be k.
func charExcluded(t *Term, k int64) bool {
	for t.op == OpConv && len(t.args) == 1 {
		t = t.args[0]
	}
	if t.op != OpIndex && !(t.op == OpElem && t.aux == "rune") {
		return false
	}
	a := atoms[t.args[0]]
	return a != nil && k >= 0 && k < 128 && strings.IndexByte(a.no, byte(k)) >= 0
}

// ropeEq: whether two texts are equal, as far as their pieces tell.
func ropeEq(a, b *Term) (val, known bool) {
	pa, pb := ropeOf(a), ropeOf(b)
	if len(pa) == 0 || len(pb) == 0 {
		return false, false
	}
	if len(pa) == 1 && len(pb) == 1 && a.isConst() && b.isConst() {
		return a == b, true
	}
	pa, pb = append([]*Term{}, pa...), append([]*Term{}, pb...)
	min := func(ps []*Term) (n int64, fixed bool, set bool) {
		fixed = true
		for _, p := range ps {
			if s, ok := p.strVal(); ok {
				n += int64(len(s))
			} else {
				n += atoms[p].min
				fixed = false
			}
		}
		return n, fixed, set
	}
	// strip what is common at both ends
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		xs, ok1 := x.strVal()
		ys, ok2 := y.strVal()
		if !ok1 || !ok2 {
			break
		}
		n := len(xs)
		if len(ys) < n {
			n = len(ys)
		}
		if n == 0 || xs[:n] != ys[:n] {
			if n > 0 {
				return false, true
			}
			break
		}
		cutFront := func(ps []*Term, s string) []*Term {
			if len(s) == n {
				return ps[1:]
			}
			return append([]*Term{mkStr(s[n:])}, ps[1:]...)
		}
		pa, pb = cutFront(pa, xs), cutFront(pb, ys)
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		xs, ok1 := x.strVal()
		ys, ok2 := y.strVal()
		if !ok1 || !ok2 {
			break
		}
		n := len(xs)
		if len(ys) < n {
			n = len(ys)
		}
		if n == 0 || xs[len(xs)-n:] != ys[len(ys)-n:] {
			if n > 0 {
				return false, true
			}
			break
		}
		cutBack := func(ps []*Term, s string) []*Term {
			if len(s) == n {
				return ps[:len(ps)-1]
			}
			return append(append([]*Term{}, ps[:len(ps)-1]...), mkStr(s[:len(s)-n]))
		}
		pa, pb = cutBack(pa, xs), cutBack(pb, ys)
	}
	na, fa, _ := min(pa)
	nb, fb, _ := min(pb)
	if na == 0 && fa && nb == 0 && fb {
		return true, true
	}
	if fa && nb > na || fb && na > nb {
		return false, true
	}
	// one side consists of atoms that exclude a character which the other contains
	only := func(ps, other []*Term) bool {
		if len(ps) == 0 {
			return false
		}
		for _, o := range other {
			s, ok := o.strVal()
			if !ok {
				continue
			}
			for _, ch := range []byte(s) {
				all := true
				for _, p := range ps {
					if q, ok := p.strVal(); ok && strings.IndexByte(q, ch) >= 0 {
						all = false
					}
					if a := atoms[p]; a != nil && (ch >= 128 || strings.IndexByte(a.no, ch) < 0) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
		return false
	}
	if only(pa, pb) || only(pb, pa) {
		return false, true
	}
	// the first characters differ
	first := func(x, y []*Term) bool {
		if len(x) == 0 || len(y) == 0 {
			return false
		}
		a := atoms[x[0]]
		s, ok := y[0].strVal()
		return a != nil && a.min > 0 && ok && s != "" && s[0] < 128 && strings.IndexByte(a.no, s[0]) >= 0
	}
	if first(pa, pb) || first(pb, pa) {
		return false, true
	}
	return false, false
}

// ropeFind: position of the first occurrence of sub (any = any character of sub).
func ropeFind(x *Term, sub string, any bool) (pos *Term, found, known bool) {
	parts := ropeOf(x)
	if len(parts) == 0 || sub == "" {
		return nil, false, false
	}
	for _, b := range []byte(sub) {
		if b >= 128 {
			return nil, false, false
		}
	}
	start := lin{}
	for i, p := range parts {
		if s, ok := p.strVal(); ok {
			k := -1
			if any {
				k = strings.IndexAny(s, sub)
			} else {
				k = strings.Index(s, sub)
			}
			if k >= 0 {
				return fromLin(start.add(lin{k: int64(k)}, 1)), true, true
			}
		} else {
			a := atoms[p]
			for _, b := range []byte(sub) {
				if strings.IndexByte(a.no, b) < 0 {
					return nil, false, false
				}
			}
			if !any && len(sub) > 1 && a.min == 0 && i > 0 && i < len(parts)-1 {
				return nil, false, false
			}
		}
		start = start.add(toLin(mkLen(p)), 1)
	}
	return mkInt(-1), false, true
}

// ropeFindLast: position of the last occurrence of a character of set.
func ropeFindLast(x *Term, set string) (pos *Term, found, known bool) {
	parts := ropeOf(x)
	if len(parts) == 0 || set == "" {
		return nil, false, false
	}
	for _, b := range []byte(set) {
		if b >= 128 {
			return nil, false, false
		}
	}
	for i := len(parts) - 1; i >= 0; i-- {
		if s, ok := parts[i].strVal(); ok {
			if k := strings.LastIndexAny(s, set); k >= 0 {
				start := lin{k: int64(k)}
				for _, p := range parts[:i] {
					start = start.add(toLin(mkLen(p)), 1)
				}
				return fromLin(start), true, true
			}
			continue
		}
		for _, b := range []byte(set) {
			if strings.IndexByte(atoms[parts[i]].no, b) < 0 {
				return nil, false, false
			}
		}
	}
	return mkInt(-1), false, true
}

// ropeTrim removes the characters that in selects from both ends.
func ropeTrim(x *Term, set string, left, right bool) *Term {
	parts := append([]*Term{}, ropeOf(x)...)
	if len(parts) == 0 {
		return nil
	}
	allowed := func(a *atomInfo) bool {
		for _, b := range []byte(set) {
			if strings.IndexByte(a.no, b) < 0 {
				return false
			}
		}
		return true
	}
	for left && len(parts) > 0 {
		p := parts[0]
		if s, ok := p.strVal(); ok {
			t := strings.TrimLeft(s, set)
			if t == "" {
				parts = parts[1:]
				continue
			}
			parts[0] = mkStr(t)
			break
		}
		if !allowed(atoms[p]) || atoms[p].min == 0 && len(parts) > 1 {
			return nil
		}
		break
	}
	for right && len(parts) > 0 {
		p := parts[len(parts)-1]
		if s, ok := p.strVal(); ok {
			t := strings.TrimRight(s, set)
			if t == "" {
				parts = parts[:len(parts)-1]
				continue
			}
			parts[len(parts)-1] = mkStr(t)
			break
		}
		if !allowed(atoms[p]) || atoms[p].min == 0 && len(parts) > 1 {
			return nil
		}
		break
	}
	return fromRope(parts)
}

const spaces = " \t\n\v\f\r"

// ropeSplit: strings.SplitN(x, sep, n).
func ropeSplit(x *Term, sep string, n int) []*Term {
	var out []*Term
	for n < 0 || len(out)+1 < n {
		pos, found, known := ropeFind(x, sep, false)
		if !known {
			return nil
		}
		if !found {
			break
		}
		head := ropeSlice(x, mkInt(0), pos)
		tail := ropeSlice(x, mkAdd(pos, mkInt(int64(len(sep)))), mkLen(x))
		if head == nil || tail == nil {
			return nil
		}
		out = append(out, head)
		x = tail
	}
	return append(out, x)
}

func constErr(what string) *Term {
	return T.mk(Term{op: OpPure, aux: "errors.New", args: []*Term{mkStr(what)}, typ: errorType})
}

// foldText evaluates functions of package strings, strconv and unicode on texts.
func foldText(name string, args []*Term, sig *types.Signature) ([]*Term, bool) {
	one := func(t *Term) ([]*Term, bool) {
		if t == nil {
			return nil, false
		}
		return []*Term{t}, true
	}
	cs := make([]string, len(args))
	is := make([]int64, len(args))
	isS, isI := make([]bool, len(args)), make([]bool, len(args))
	for i, a := range args {
		cs[i], isS[i] = a.strVal()
		is[i], isI[i] = a.intVal()
	}
	seq := func(items []*Term) ([]*Term, bool) {
		if items == nil {
			return nil, false
		}
		var out []*Term
		for _, it := range items {
			out = append(out, mkSingle(it))
		}
		return one(mkSeq(out, sig.Results().At(0).Type()))
	}
	strs := func(l []string) ([]*Term, bool) {
		out := []*Term{}
		for _, s := range l {
			out = append(out, mkStr(s))
		}
		return seq(out)
	}
	if strings.HasPrefix(name, "unicode.") && len(args) == 1 && isI[0] {
		r := rune(is[0])
		switch name {
		case "unicode.IsSpace":
			return one(mkBool(unicode.IsSpace(r)))
		case "unicode.ToLower":
			return one(mkInt(int64(unicode.ToLower(r))))
		case "unicode.ToUpper":
			return one(mkInt(int64(unicode.ToUpper(r))))
		case "unicode.IsLetter":
			return one(mkBool(unicode.IsLetter(r)))
		case "unicode.IsDigit":
			return one(mkBool(unicode.IsDigit(r)))
		case "unicode.IsUpper":
			return one(mkBool(unicode.IsUpper(r)))
		case "unicode.IsLower":
			return one(mkBool(unicode.IsLower(r)))
		}
		return nil, false
	}
	if len(args) == 0 {
		return nil, false
	}
	switch name {
	case "strconv.Itoa":
		if isI[0] {
			return one(mkStr(strconv.Itoa(int(is[0]))))
		}
		return nil, false
	case "strconv.FormatInt":
		if isI[0] && isI[1] {
			return one(mkStr(strconv.FormatInt(is[0], int(is[1]))))
		}
		return nil, false
	case "strconv.Atoi":
		if isS[0] {
			v, err := strconv.Atoi(cs[0])
			e := mkNil(nil)
			if err != nil {
				e = constErr("Atoi: " + err.Error())
			}
			return []*Term{mkInt(int64(v)), e}, true
		}
		return nil, false
	case "regexp.Compile":
		if isS[0] {
			if _, err := regexp.Compile(cs[0]); err != nil {
				return []*Term{mkNil(nil), constErr("regexp: " + err.Error())}, true
			}
		}
		return nil, false
	case "(*regexp.Regexp).MatchString":
		c := args[0]
		if c.op == OpExtract && c.n == 0 {
			c = c.args[0]
		}
		if c.op == OpPure && (c.aux == "regexp.MustCompile" || c.aux == "regexp.Compile") && len(args) == 2 && isS[1] {
			if e, ok := c.args[0].strVal(); ok {
				if re, err := regexp.Compile(e); err == nil {
					return one(mkBool(re.MatchString(cs[1])))
				}
			}
		}
		return nil, false
	case "strconv.ParseInt":
		if isS[0] && isI[1] && isI[2] {
			v, err := strconv.ParseInt(cs[0], int(is[1]), int(is[2]))
			e := mkNil(nil)
			if err != nil {
				e = constErr("ParseInt: " + err.Error())
			}
			return []*Term{mkInt(v), e}, true
		}
		return nil, false
	}
	if name == "fmt.Sprintf" && isS[0] && len(args) == 2 {
		return one(foldSprintf(cs[0], args[1]))
	}
	if name == "strings.Join" && isS[1] && args[0].op == OpSeq {
		out := mkStr("")
		for i, it := range args[0].args {
			if it.op != OpSingle || ropeOf(it.args[0]) == nil {
				return nil, false
			}
			if i > 0 {
				out = mkConcat(out, args[1])
			}
			out = mkConcat(out, it.args[0])
		}
		return one(out)
	}
	if !strings.HasPrefix(name, "strings.") || ropeOf(args[0]) == nil {
		return nil, false
	}
	x := args[0]
	find := func(sub string, any bool) ([]*Term, bool) {
		pos, _, known := ropeFind(x, sub, any)
		if !known {
			return nil, false
		}
		return one(pos)
	}
	has := func(sub string, any bool) ([]*Term, bool) {
		_, found, known := ropeFind(x, sub, any)
		if !known {
			return nil, false
		}
		return one(mkBool(found))
	}
	char := func(i int) string {
		if isI[i] && is[i] >= 0 && is[i] < 128 {
			return string(rune(is[i]))
		}
		return ""
	}
	// all arguments constant
	all := true
	for i := range args {
		all = all && (isS[i] || isI[i])
	}
	if all {
		switch name {
		case "strings.ToLower":
			return one(mkStr(strings.ToLower(cs[0])))
		case "strings.ToUpper":
			return one(mkStr(strings.ToUpper(cs[0])))
		case "strings.Title":
			return one(mkStr(strings.Title(cs[0])))
		case "strings.EqualFold":
			return one(mkBool(strings.EqualFold(cs[0], cs[1])))
		case "strings.Compare":
			return one(mkInt(int64(strings.Compare(cs[0], cs[1]))))
		case "strings.Replace":
			return one(mkStr(strings.Replace(cs[0], cs[1], cs[2], int(is[3]))))
		case "strings.ReplaceAll":
			return one(mkStr(strings.ReplaceAll(cs[0], cs[1], cs[2])))
		case "strings.LastIndex":
			return one(mkInt(int64(strings.LastIndex(cs[0], cs[1]))))
		case "strings.LastIndexAny":
			return one(mkInt(int64(strings.LastIndexAny(cs[0], cs[1]))))
		case "strings.LastIndexByte":
			return one(mkInt(int64(strings.LastIndexByte(cs[0], byte(is[1])))))
		case "strings.Repeat":
			if is[1] >= 0 && is[1] < 100 {
				return one(mkStr(strings.Repeat(cs[0], int(is[1]))))
			}
			return nil, false
		case "strings.Fields":
			return strs(strings.Fields(cs[0]))
		case "strings.SplitAfter":
			return strs(strings.SplitAfter(cs[0], cs[1]))
		case "strings.Count":
			return one(mkInt(int64(strings.Count(cs[0], cs[1]))))
		}
	}
	switch name {
	case "strings.Index":
		if isS[1] {
			return find(cs[1], false)
		}
	case "strings.IndexAny":
		if isS[1] {
			return find(cs[1], true)
		}
	case "strings.IndexByte", "strings.IndexRune":
		return find(char(1), false)
	case "strings.LastIndex", "strings.LastIndexAny", "strings.LastIndexByte":
		set := cs[1]
		if name == "strings.LastIndexByte" {
			set = char(1)
		} else if !isS[1] || name == "strings.LastIndex" && len(set) != 1 {
			return nil, false
		}
		if pos, _, ok := ropeFindLast(args[0], set); ok {
			return one(pos)
		}
	case "strings.Contains":
		if isS[1] {
			return has(cs[1], false)
		}
	case "strings.ContainsAny":
		if isS[1] {
			return has(cs[1], true)
		}
	case "strings.ContainsRune":
		return has(char(1), false)
	case "strings.Count":
		if isS[1] && len(cs[1]) == 1 {
			if l := ropeSplit(x, cs[1], -1); l != nil {
				return one(mkInt(int64(len(l) - 1)))
			}
		}
	case "strings.Replace", "strings.ReplaceAll":
		if isS[1] && isS[2] && len(cs[1]) == 1 && (len(args) == 3 || isI[3] && is[3] < 0) {
			l := ropeSplit(x, cs[1], -1)
			if l == nil {
				return nil, false
			}
			out := l[0]
			for _, p := range l[1:] {
				out = mkConcat(mkConcat(out, mkStr(cs[2])), p)
			}
			return one(out)
		}
	case "strings.Split":
		if isS[1] && cs[1] != "" {
			return seq(ropeSplit(x, cs[1], -1))
		}
	case "strings.SplitN":
		if isS[1] && cs[1] != "" && isI[2] && is[2] > 0 {
			return seq(ropeSplit(x, cs[1], int(is[2])))
		}
	case "strings.Cut":
		if isS[1] && cs[1] != "" {
			l := ropeSplit(x, cs[1], 2)
			if l == nil {
				return nil, false
			}
			if len(l) == 1 {
				return []*Term{x, mkStr(""), mkBool(false)}, true
			}
			return []*Term{l[0], l[1], mkBool(true)}, true
		}
	case "strings.HasPrefix", "strings.TrimPrefix", "strings.CutPrefix":
		if !isS[1] {
			return nil, false
		}
		v, known := false, false
		if l, r, ok := ropeCut(ropeOf(x), mkInt(int64(len(cs[1])))); ok {
			if s, isC := fromRope(l).strVal(); isC {
				v, known = s == cs[1], true
				if v {
					return prefixRets(name, fromRope(r), true)
				}
			}
		}
		if !known {
			// differs within the constant part
			if s, ok := ropeOf(x)[0].strVal(); ok && !strings.HasPrefix(cs[1], s) && !strings.HasPrefix(s, cs[1]) {
				known = true
			} else if a := atoms[ropeOf(x)[0]]; a != nil && cs[1] != "" && strings.IndexByte(a.no, cs[1][0]) >= 0 && (a.min > 0 || len(ropeOf(x)) == 1) {
				known = true
			}
		}
		if known {
			return prefixRets(name, x, false)
		}
	case "strings.HasSuffix", "strings.TrimSuffix", "strings.CutSuffix":
		if !isS[1] {
			return nil, false
		}
		if l, r, ok := ropeCut(ropeOf(x), mkSub(mkLen(x), mkInt(int64(len(cs[1]))))); ok {
			if s, isC := fromRope(r).strVal(); isC {
				if s == cs[1] {
					return prefixRets(name, fromRope(l), true)
				}
				return prefixRets(name, x, false)
			}
		}
		last := ropeOf(x)[len(ropeOf(x))-1]
		if s, ok := last.strVal(); ok && !strings.HasSuffix(cs[1], s) && !strings.HasSuffix(s, cs[1]) {
			return prefixRets(name, x, false)
		} else if a := atoms[last]; a != nil && cs[1] != "" && strings.IndexByte(a.no, cs[1][len(cs[1])-1]) >= 0 && (a.min > 0 || len(ropeOf(x)) == 1) {
			return prefixRets(name, x, false)
		}
	case "strings.TrimSpace":
		return one(ropeTrim(x, spaces, true, true))
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		if isS[1] {
			return one(ropeTrim(x, cs[1], name != "strings.TrimRight", name != "strings.TrimLeft"))
		}
	}
	return nil, false
}

func prefixRets(name string, rest *Term, found bool) ([]*Term, bool) {
	switch {
	case strings.HasPrefix(name, "strings.Has"):
		return []*Term{mkBool(found)}, true
	case strings.HasPrefix(name, "strings.Trim"):
		return []*Term{rest}, true
	}
	return []*Term{rest, mkBool(found)}, true
}

// foldSprintf: formats of texts and integers with plain verbs.
func foldSprintf(format string, list *Term) *Term {
	var vals []*Term
	if !list.isNil() {
		if list.op != OpSeq {
			return nil
		}
		for _, it := range list.args {
			if it.op != OpSingle || it.args[0].op != OpIface {
				return nil
			}
			vals = append(vals, it.args[0].args[0])
		}
	}
	out := mkStr("")
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = mkConcat(out, mkStr(format[i:i+1]))
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			out = mkConcat(out, mkStr("%"))
			continue
		}
		if len(vals) == 0 {
			return nil
		}
		v := vals[0]
		vals = vals[1:]
		n, isInt := v.intVal()
		isStr := v.typ != nil && types.Identical(v.typ, tString)
		switch {
		case (format[i] == 's' || format[i] == 'v') && isStr && ropeOf(v) != nil:
			out = mkConcat(out, v)
		case (format[i] == 'd' || format[i] == 'v') && isInt:
			out = mkConcat(out, mkStr(strconv.FormatInt(n, 10)))
		default:
			return nil
		}
	}
	if len(vals) > 0 {
		return nil
	}
	return out
}
