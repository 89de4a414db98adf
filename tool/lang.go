package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
)

// Languages of ASCII texts as deterministic automata, for deciding which texts satisfy
// the conditions of a path.

type dfa interface {
	start() string
	step(q string, b byte) string
	accept(q string) bool
}

// wordDfa accepts one word (optionally ignoring the case of ASCII letters).
type wordDfa struct {
	w    string
	fold bool
}

func (d wordDfa) start() string { return "0" }
func (d wordDfa) step(q string, b byte) string {
	if q == "x" {
		return q
	}
	var i int
	fmt.Sscan(q, &i)
	if i < len(d.w) && (d.w[i] == b || d.fold && lowerByte(d.w[i]) == lowerByte(b)) {
		return fmt.Sprint(i + 1)
	}
	return "x"
}
func (d wordDfa) accept(q string) bool { return q == fmt.Sprint(len(d.w)) }

func lowerByte(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

// mapDfa runs another automaton on the text with every byte mapped.
type mapDfa struct {
	d dfa
	f func(byte) byte
}

func (m mapDfa) start() string                { return m.d.start() }
func (m mapDfa) step(q string, b byte) string { return m.d.step(q, m.f(b)) }
func (m mapDfa) accept(q string) bool         { return m.d.accept(q) }

// reDfa: subset construction of a regular expression (an unanchored match).
type reDfa struct{ prog *syntax.Prog }

func newReDfa(expr string) (dfa, error) {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	for _, in := range p.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			return nil, fmt.Errorf("line or word assertions")
		}
	}
	return reDfa{p}, nil
}

// states are the sorted instruction numbers before following empty transitions, "M" once
// matched; "^" marks the start of the text.
func (d reDfa) start() string { return fmt.Sprintf("^%d", d.prog.Start) }

func (d reDfa) parse(q string) (begin bool, pcs []int) {
	begin = strings.HasPrefix(q, "^")
	for _, f := range strings.Split(strings.TrimPrefix(q, "^"), ",") {
		if f != "" {
			var i int
			fmt.Sscan(f, &i)
			pcs = append(pcs, i)
		}
	}
	return
}

func (d reDfa) closure(pcs []int, begin, end bool) (map[int]bool, bool) {
	seen := map[int]bool{}
	match := false
	var walk func(pc int)
	walk = func(pc int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := d.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(int(in.Out))
			walk(int(in.Arg))
		case syntax.InstCapture, syntax.InstNop:
			walk(int(in.Out))
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&syntax.EmptyBeginText != 0 && !begin || e&syntax.EmptyEndText != 0 && !end {
				return
			}
			walk(int(in.Out))
		case syntax.InstMatch:
			match = true
		}
	}
	for _, pc := range pcs {
		walk(pc)
	}
	return seen, match
}

func (d reDfa) step(q string, b byte) string {
	if q == "M" {
		return q
	}
	begin, pcs := d.parse(q)
	cl, match := d.closure(pcs, begin, false)
	if match {
		return "M"
	}
	next := map[int]bool{d.prog.Start: true}
	for pc := range cl {
		in := d.prog.Inst[pc]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if in.MatchRune(rune(b)) {
				next[int(in.Out)] = true
			}
		}
	}
	var l []int
	for pc := range next {
		l = append(l, pc)
	}
	sort.Ints(l)
	var s []string
	for _, pc := range l {
		s = append(s, fmt.Sprint(pc))
	}
	return strings.Join(s, ",")
}

func (d reDfa) accept(q string) bool {
	if q == "M" {
		return true
	}
	begin, pcs := d.parse(q)
	_, match := d.closure(pcs, begin, true)
	return match
}

// trimDfa runs another automaton on the text without surrounding white space.
func trimDfa(w string, fold bool) (dfa, error) {
	f := ""
	if fold {
		f = "(?i)"
	}
	return newReDfa(f + `\A[\t\n\v\f\r ]*(?:` + quoteMeta(w) + `)[\t\n\v\f\r ]*\z`)
}

func quoteMeta(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, `\x%02x`, s[i])
	}
	return b.String()
}

// predicate: the automaton of a condition on text x, if it is one.
func predicate(f, x *Term) (dfa, bool) {
	neg := false
	for f.op == OpNot {
		f, neg = f.args[0], !neg
	}
	d, ok := predicate1(f, x)
	if ok && neg {
		return notDfa{d}, true
	}
	return d, ok
}

type notDfa struct{ dfa }

func (n notDfa) accept(q string) bool { return !n.dfa.accept(q) }

func predicate1(f, x *Term) (dfa, bool) {
	switch f.op {
	case OpEq:
		for i := 0; i < 2; i++ {
			w, ok := f.args[1-i].strVal()
			if !ok {
				continue
			}
			a := f.args[i]
			trim := false
			var maps []func(byte) byte
			for a != x && a.op == OpPure && len(a.args) == 1 {
				switch a.aux {
				case "strings.ToLower":
					maps = append(maps, lowerByte)
				case "strings.ToUpper":
					maps = append(maps, func(b byte) byte {
						if 'a' <= b && b <= 'z' {
							return b - 32
						}
						return b
					})
				case "strings.TrimSpace":
					trim = true
				default:
					return nil, false
				}
				a = a.args[0]
			}
			if a != x {
				return nil, false
			}
			var d dfa = wordDfa{w: w}
			if trim {
				t, err := trimDfa(w, false)
				if err != nil {
					return nil, false
				}
				d = t
			}
			for _, m := range maps {
				d = mapDfa{d, m}
			}
			return d, true
		}
		// len(x) == n
		if f.args[0] == mkLen(x) {
			if n, ok := f.args[1].intVal(); ok {
				d, err := newReDfa(fmt.Sprintf(`(?s)\A.{%d}\z`, n))
				return d, err == nil
			}
		}
	case OpPure:
		switch f.aux {
		case "(*regexp.Regexp).MatchString":
			if f.args[1] != x {
				return nil, false
			}
			c := f.args[0]
			if c.op == OpExtract {
				c = c.args[0]
			}
			if c.op != OpPure || c.aux != "regexp.MustCompile" && c.aux != "regexp.Compile" {
				return nil, false
			}
			e, ok := c.args[0].strVal()
			if !ok {
				return nil, false
			}
			d, err := newReDfa(e)
			return d, err == nil
		case "strings.EqualFold":
			for i := 0; i < 2; i++ {
				if w, ok := f.args[1-i].strVal(); ok && f.args[i] == x {
					return wordDfa{w: w, fold: true}, true
				}
			}
		case "strings.HasPrefix":
			if w, ok := f.args[1].strVal(); ok && f.args[0] == x {
				d, err := newReDfa(`\A` + quoteMeta(w))
				return d, err == nil
			}
		}
	}
	return nil, false
}

// texts explores all ASCII texts up to indistinguishability by the automata: visit gets
// the truth of each and a shortest example.
func exploreTexts(ds []dfa, visit func(truth []bool, example string)) bool {
	type node struct {
		q  []string
		ex string
	}
	st := node{}
	for _, d := range ds {
		st.q = append(st.q, d.start())
	}
	seen := map[string]bool{strings.Join(st.q, "|"): true}
	queue := []node{st}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		tr := make([]bool, len(ds))
		for i, d := range ds {
			tr[i] = d.accept(n.q[i])
		}
		visit(tr, n.ex)
		for b := 0; b < 128; b++ {
			q := make([]string, len(ds))
			for i, d := range ds {
				q[i] = d.step(n.q[i], byte(b))
			}
			k := strings.Join(q, "|")
			if seen[k] {
				continue
			}
			if len(seen) > 20000 {
				return false
			}
			seen[k] = true
			queue = append(queue, node{q, n.ex + string(rune(b))})
		}
	}
	return true
}

// textFacts: the conditions of a state on text x as automata with the truth they have;
// bad: a condition on x that is no known predicate.
func textFacts(st *State, x *Term) (ds []dfa, want []bool, bad *Term) {
	var fs []*Term
	for f := range st.facts {
		if contains(f, func(t *Term) bool { return t == x }) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for _, f := range fs {
		if implied(st, f) {
			continue
		}
		d, ok := predicate(f, x)
		if !ok {
			return nil, nil, f
		}
		ds = append(ds, d)
		want = append(want, st.facts[f])
	}
	for f := range st.leKeys {
		if contains(f, func(t *Term) bool { return t == x }) {
			if implied(st, f) {
				continue
			}
			l := lengthDfa(f, x)
			if l == nil {
				return nil, nil, f
			}
			ds = append(ds, l)
			want = append(want, true)
		}
	}
	return ds, want, nil
}

// lengthDfa: a linear inequality on len(x).
func lengthDfa(f, x *Term) dfa {
	if f.op != OpLE {
		return nil
	}
	l := toLin(f.args[0])
	c, ok := l.c[mkLen(x)]
	if !ok || len(l.c) != 1 {
		return nil
	}
	// c*len + k <= 0
	var d dfa
	var err error
	switch {
	case c > 0:
		n := -l.k / c
		if l.k > 0 {
			return nil
		}
		d, err = newReDfa(fmt.Sprintf(`(?s)\A.{0,%d}\z`, n))
	default:
		n := (l.k + -c - 1) / -c
		if n < 0 {
			n = 0
		}
		if n > 200 {
			return nil
		}
		d, err = newReDfa(fmt.Sprintf(`(?s)\A.{%d,}\z`, n))
	}
	if err != nil {
		return nil
	}
	return d
}

// implied: a fact on the length of something whose value is known.
func implied(st *State, f *Term) bool {
	l := lin{}
	switch f.op {
	case OpLE:
		l = toLin(f.args[0])
	case OpEq:
		if !isIntType2(f.args[0]) {
			return false
		}
		l = toLin(f.args[0]).add(toLin(f.args[1]), -1)
	default:
		return false
	}
	for t := range l.c {
		if t.op != OpLen || st.consts[t.args[0]] == nil {
			return false
		}
	}
	return true
}
