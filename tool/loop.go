package main

// Loop summaries: havoc fixpoint with candidate invariants, recognised iteration
// schemes, closed forms for accumulators and searches.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]*natLoop
	irred   bool
}

type region struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var debugLoops = os.Getenv("DBGLOOPS") != ""

func (ex *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := ex.loops[fn]; ok {
		return li
	}
	li := findLoops(fn)
	if li.irred {
		ex.problem(fn.Blocks[0].Instrs[0], "irreducible control flow")
	}
	ex.loops[fn] = li
	return li
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{headers: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.headers[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = l
				}
				l.latches = append(l.latches, b)
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	// irreducible: a retreating edge that is not a back edge
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 && !s.Dominates(b) {
				li.irred = true
			}
			if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return li
}

type loopVar struct {
	lv    *Term
	init  *Term
	phi   *ssa.Phi // or
	addr  *Term
	next  []*Term // per back outcome
	fixed bool
}

type iterOut struct {
	kind   string // back, exit, return
	st     *State
	facts  []*Term
	events []*Event
	rets   []*Term
	normal bool
	blk    *ssa.BasicBlock
	next   map[*Term]*Term // loop variable -> value at the end (back only)
}

type LoopRec struct {
	fn        *ssa.Function
	header    *ssa.BasicBlock
	id        string
	pos       string
	vars      []*loopVar
	outs      []*iterOut
	container *Term
	kind      string // slice, map, string
	rev       bool
	idx       *Term // index term (slice)
	idxVar    *Term
	key, elem *Term // map, string
	more      *Term
	pure      bool
	hst       *State // state at the loop head
	pre       *State // state before the loop
	hforder   int
	havocs    []string
	varies    func(*Term) bool // the term may denote another value in another iteration
}

func (r *LoopRec) String() string {
	if r == nil {
		return "?"
	}
	s := r.pos
	if r.container != nil {
		s += " over " + r.container.String()
	}
	return s
}

func (r *LoopRec) backs() []*iterOut {
	var out []*iterOut
	for _, o := range r.outs {
		if o.kind == "back" {
			out = append(out, o)
		}
	}
	return out
}

func (ex *Exec) execLoop(fr *frame, l *natLoop, prev *ssa.BasicBlock, st *State, reg *region) []cont {
	var out []cont
	type work struct {
		fr   *frame
		prev *ssa.BasicBlock
		st   *State
		n    int
	}
	finish := func(cs []cont) {
		for _, c := range cs {
			if c.kind == cExit {
				out = append(out, ex.runBlock(c.fr, c.blk, c.prev, c.st, reg)...)
			} else {
				out = append(out, c)
			}
		}
	}
	ws := []work{{fr, prev, st, 0}}
	total := 0
	for len(ws) > 0 {
		w := ws[len(ws)-1]
		ws = ws[:len(ws)-1]
		if ex.dead {
			return nil
		}
		total++
		most := 400
		if ex.unrollMaps {
			most = 4000
		}
		if !ex.noUnroll && w.n < 64 && total < most && ex.decided(w.fr, l, w.prev, w.st) {
			f := w.fr.clone()
			ex.enterPhis(f, l.header, w.prev)
			cs := ex.runInstrs(f, l.header, 0, w.st, &region{l.header, l.blocks})
			var rest []cont
			for _, c := range cs {
				if c.kind == cBack {
					ws = append(ws, work{c.fr, c.prev, c.st, w.n + 1})
				} else {
					rest = append(rest, c)
				}
			}
			finish(rest)
			continue
		}
		// the loop is not entered, depending on a flag
		if cs, rest := ex.flagExits(w.fr, l, w.prev, w.st, nil); cs != nil {
			finish(cs)
			for _, c := range rest {
				ws = append(ws, work{c.fr, c.prev, c.st, w.n})
			}
			continue
		}
		finish(ex.summarise(w.fr, l, w.prev, w.st))
	}
	return out
}

// decided: the branch at the loop head has a constant condition in this state.
func (ex *Exec) decided(fr *frame, l *natLoop, prev *ssa.BasicBlock, st *State) bool {
	f := fr.clone()
	ex.enterPhis(f, l.header, prev)
	s := st.clone()
	old, oldO, oldS, oldE := ex.obl, ex.onStore, s.logLoad, ex.onEscape
	ex.obl, ex.onStore, s.logLoad, ex.onEscape = nil, nil, nil, nil
	defer func() { ex.obl, ex.onStore, s.logLoad, ex.onEscape = old, oldO, oldS, oldE }()
	for b := l.header; ; {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
			return false
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if y, ok := x.Call.Value.(*ssa.Builtin); ok && (y.Name() == "len" || y.Name() == "cap") {
					continue
				}
				return ex.unrollMaps && ex.headDecided(fr, l, prev, st)
			case *ssa.Defer, *ssa.Store, *ssa.MapUpdate:
				return ex.unrollMaps && ex.headDecided(fr, l, prev, st)
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.If:
				continue
			case *ssa.Call:
				_, args := ex.callOperands(f, &x.Call)
				os := ex.builtin(f, s, x.Call.Value.(*ssa.Builtin).Name(), args, x, &x.Call)
				f.vals[x] = os[0].rets[0]
			default:
				forks, ok := ex.simple(f, s, in)
				if !ok || forks != nil {
					return false
				}
			}
		}
		v, ok := s.norm(ex.val(f, ifi.Cond)).boolVal()
		if !ok || !isFlag(ifi.Cond) {
			return ok || ex.unrollMaps && ex.headDecided(fr, l, prev, st)
		}
		// a flag that keeps the loop going says nothing about the next iteration
		to := b.Succs[1]
		if v {
			to = b.Succs[0]
		}
		if !l.blocks[to] {
			return true
		}
		if len(to.Preds) != 1 || to == l.header {
			return false
		}
		b = to
	}
}

// headDecided: all paths through the loop head go on in the loop, or all leave it.
func (ex *Exec) headDecided(fr *frame, l *natLoop, prev *ssa.BasicBlock, st *State) bool {
	s := st.clone()
	old, oldO, oldE, oldP := ex.obl, ex.onStore, ex.onEscape, ex.problems
	ex.obl, ex.onStore, s.logLoad, ex.onEscape, ex.problems = nil, nil, nil, nil, map[string]string{}
	defer func() { ex.obl, ex.onStore, ex.onEscape, ex.problems = old, oldO, oldE, oldP }()
	f := fr.clone()
	ex.enterPhis(f, l.header, prev)
	cs := ex.runInstrs(f, l.header, 0, s, &region{l.header, map[*ssa.BasicBlock]bool{l.header: true}})
	in, out := false, false
	for _, c := range cs {
		switch {
		case c.kind == cExit && l.blocks[c.blk], c.kind == cBack:
			in = true
		case c.kind == cExit:
			out = true
		}
	}
	return in != out
}

// thread: iterations that set a flag because of which the loop is left at once are exits.
func (ex *Exec) thread(l *natLoop, conts []cont, inits map[*ssa.Phi]*Term) []cont {
	var out []cont
	for _, c := range conts {
		if c.kind == cBack {
			if cs, rest := ex.flagExits(c.fr, l, c.prev, c.st, inits); cs != nil {
				out = append(out, cs...)
				for _, r := range rest {
					out = append(out, r)
				}
				continue
			}
		}
		out = append(out, c)
	}
	return out
}

// flagExits: the loop head is reached from prev, with values of its flags that may lead
// straight out of the loop. cs: these paths; rest: the others. nil if there are none.
func (ex *Exec) flagExits(fr *frame, l *natLoop, prev *ssa.BasicBlock, st *State, inits map[*ssa.Phi]*Term) (cs, rest []cont) {
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !ok || ex.dead {
		return nil, nil
	}
	pi := -1
	for i, p := range l.header.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		isErr := isErrorType(p.Type())
		if !isBoolType(p.Type()) && !(isErr && nilTested(l, p)) {
			continue
		}
		edge := p.Edges[pi]
		v := st.norm(ex.val(fr, edge))
		if inits != nil && v == inits[p] || v.op == OpLoopVar {
			continue
		}
		if isErr {
			v = mkEq(v, mkNil(nil))
			if b, ok := st.eval(v); ok {
				v = mkBool(b)
			}
		}
		var vals []bool
		if b, ok := v.boolVal(); ok {
			if inits == nil {
				continue
			}
			vals = []bool{b}
		} else {
			vals = []bool{true, false}
		}
		found := false
		for _, b := range vals {
			s := st.clone()
			if len(vals) > 1 && !s.assume(v, b) {
				continue
			}
			f := fr.clone()
			if _, isConst := edge.(*ssa.Const); !isConst && !isErr {
				f.vals[edge] = mkBool(b)
			}
			back := cont{kind: cBack, blk: l.header, prev: prev, fr: f, st: s}
			if xs, ok := ex.leaves(f, l, prev, s); ok {
				cs = append(cs, xs...)
				found = true
			} else {
				rest = append(rest, back)
			}
		}
		if found {
			return cs, rest
		}
		cs, rest = nil, nil
	}
	return nil, nil
}

// nilTested: the loop compares p with nil.
func nilTested(l *natLoop, p *ssa.Phi) bool {
	for _, in := range *p.Referrers() {
		if b, ok := in.(*ssa.BinOp); ok && l.blocks[b.Block()] && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, x := range []ssa.Value{b.X, b.Y} {
				if k, ok := x.(*ssa.Const); ok && k.IsNil() {
					return true
				}
			}
		}
	}
	return false
}

// leaves: every path from the loop head leaves the loop without any effect.
func (ex *Exec) leaves(fr *frame, l *natLoop, prev *ssa.BasicBlock, st *State) ([]cont, bool) {
	oldO, oldS, oldE := ex.obl, ex.onStore, ex.onEscape
	ex.obl, ex.onStore, ex.onEscape = nil, nil, nil
	defer func() { ex.obl, ex.onStore, ex.onEscape = oldO, oldS, oldE }()
	f, s := fr.clone(), st.clone()
	ev := s.ev
	ex.enterPhis(f, l.header, prev)
	cs := ex.runInstrs(f, l.header, 0, s, &region{l.header, l.blocks})
	if len(cs) == 0 {
		return nil, false
	}
	for _, c := range cs {
		if c.kind != cExit && c.kind != cReturn || c.st.ev != ev {
			return nil, false
		}
	}
	return cs, true
}

func isFlag(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			return isBoolType(x.Type())
		case *ssa.UnOp:
			if x.Op != token.NOT {
				return false
			}
			v = x.X
		case *ssa.BinOp:
			// an error so far
			p, ok := x.X.(*ssa.Phi)
			return ok && (x.Op == token.EQL || x.Op == token.NEQ) && isErrorType(p.Type())
		default:
			return false
		}
	}
}

type havocSet struct {
	phis    map[*ssa.Phi]bool
	locs    map[*Term]bool
	classes map[string]bool
	allocs  map[*Term]bool
	maps    map[*Term]bool
	esc     map[*Term]bool
	ptwise  map[*Term]*Term // root -> element address written once per iteration
	nopt    map[*Term]bool
}

type cand struct {
	mk func(sub func(*Term) *Term) *Term // condition with loop variables substituted
	s  string
	ok bool
}

var debugPred = os.Getenv("DBGPRED") != ""

func (ex *Exec) summarise(fr *frame, l *natLoop, prev *ssa.BasicBlock, st *State) []cont {
	lid := relName(fr.fn) + "#" + fmt.Sprint(l.header.Index)
	inst := st.bumpCount("loop:" + lid)
	id := fmt.Sprintf("%s.%d", lid, inst)
	h := &havocSet{phis: map[*ssa.Phi]bool{}, locs: map[*Term]bool{}, classes: map[string]bool{}, allocs: map[*Term]bool{}, maps: map[*Term]bool{}, esc: map[*Term]bool{}, ptwise: map[*Term]*Term{}, nopt: map[*Term]bool{}}
	var phis []*ssa.Phi
	pi := -1
	for i, p := range l.header.Preds {
		if p == prev {
			pi = i
		}
	}
	inits := map[*ssa.Phi]*Term{}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		inits[p] = ex.val(fr, p.Edges[pi])
	}
	lvOf := func(p *ssa.Phi) *Term {
		for i, q := range phis {
			if q == p {
				return T.mk(Term{op: OpLoopVar, aux: id, n: int64(i), typ: p.Type()})
			}
		}
		return nil
	}
	locID := map[*Term]int64{}
	lvLoc := func(a *Term) *Term {
		if _, ok := locID[a]; !ok {
			locID[a] = int64(len(phis) + len(locID))
		}
		return T.mk(Term{op: OpLoopVar, aux: id, n: locID[a], typ: elemTypeOrInt(a)})
	}
	inLoopTerm := func(t *Term) bool {
		return contains(t, func(x *Term) bool {
			switch x.op {
			case OpLoopVar:
				return x.aux == id
			case OpAlloc, OpSized, OpRange:
				return int(x.n) > st.count["new:"+x.aux]
			case OpElem:
				if len(x.args) > 1 {
					return int(x.n) > st.count["next:"+fmt.Sprint(x.args[1].id)]
				}
				return int(x.n) > st.count["next:"+fmt.Sprint(x.args[0].id)]
			case OpCall:
				return int(x.n) > st.count["call:"+x.aux]
			case OpUnk:
				return x.aux == "u" && int(x.n) > st.count["unk"]
			}
			return false
		})
	}
	var cands []*cand
	candSeen := map[string]bool{}
	var rec *LoopRec
	oldObl, oldStore, oldEsc := ex.obl, ex.onStore, ex.onEscape
	ex.obl, ex.onStore, ex.onEscape = nil, nil, nil
	restore := func() { ex.obl, ex.onStore, ex.onEscape = oldObl, oldStore, oldEsc }

	predOK := make([]bool, len(ex.headPreds))
	for i, p := range ex.headPreds {
		t := p(st)
		predOK[i] = t != nil && isTrue(st, t)
		if debugPred && !predOK[i] {
			fmt.Println("ENTRY FAIL", i, t, "\n   ", st.factString())
		}
	}
	makeHead := func() (*frame, *State) {
		s := st.clone()
		for a := range h.esc {
			s.markEscaped(a)
		}
		var cl []string
		for c := range h.classes {
			cl = append(cl, c)
		}
		sort.Strings(cl)
		s.havocClasses(cl)
		for _, a := range sortedTerms(h.allocs) {
			s.havocAlloc(a)
		}
		for _, m := range sortedTerms(h.maps) {
			g := 0
			if c := s.maps[m]; c != nil {
				g = c.gen
			}
			s.maps[m] = &MapC{gen: g + 1}
			delete(s.comp, m)
		}
		for _, a := range sortedTerms(h.locs) {
			s.heap[a] = lvLoc(a)
		}
		f := fr.clone()
		for _, p := range phis {
			if h.phis[p] {
				f.vals[p] = lvOf(p)
			} else {
				f.vals[p] = inits[p]
			}
		}
		for _, c := range cands {
			if c.ok {
				s.assumeQuiet(c.mk(func(t *Term) *Term { return t }), true)
			}
		}
		for i, p := range ex.headPreds {
			if predOK[i] {
				if t := p(s); t != nil {
					if debugPred {
						fmt.Println("HEAD", i, t)
					}
					s.assumeQuiet(t, true)
				}
			}
		}
		return f, s
	}
	initOf := func(lv *Term) *Term {
		for _, p := range phis {
			if lvOf(p) == lv {
				return inits[p]
			}
		}
		for a, n := range locID {
			if lv.op == OpLoopVar && lv.aux == id && lv.n == n {
				return st.load(a, nil)
			}
		}
		return nil
	}
	addCand := func(s string, mk func(sub func(*Term) *Term) *Term) {
		if candSeen[s] {
			return
		}
		candSeen[s] = true
		c := &cand{mk: mk, s: s, ok: true}
		// must hold on entry
		t := c.mk(func(t *Term) *Term {
			if i := initOf(t); i != nil {
				return i
			}
			return t
		})
		if v, k := st.eval(t); !k || !v {
			if debugPred {
				fmt.Println("CAND entry", c.s, t)
			}
			c.ok = false
		}
		cands = append(cands, c)
	}

	var conts []cont
	var hst *State
	for round := 0; ; round++ {
		if ex.dead {
			restore()
			return nil
		}
		if round > 40 {
			restore()
			ex.problem(l.header.Instrs[0], "loop analysis does not converge")
			return nil
		}
		f, s := makeHead()
		rec = &LoopRec{fn: fr.fn, header: l.header, id: id, pos: ex.loopPos(l)}
		s.event(&Event{kind: EvLoop, loop: rec})
		hst = s.clone()
		rec.hforder = len(s.forder)
		log := loadLog{}
		oldLog := s.logLoad
		s.logLoad = log
		conts = ex.thread(l, ex.runInstrs(f, l.header, 0, s, &region{l.header, l.blocks}), inits)
		changed := false
		for _, c := range conts {
			c.st.logLoad = oldLog
			if c.kind != cBack {
				continue
			}
			bp := -1
			for i, p := range l.header.Preds {
				if p == c.prev {
					bp = i
				}
			}
			for _, p := range phis {
				v := ex.val(c.fr, p.Edges[bp])
				cur := inits[p]
				if h.phis[p] {
					cur = lvOf(p)
				}
				if v != cur && !h.phis[p] {
					h.phis[p] = true
					changed = true
				}
			}
			// heap
			for a, v := range c.st.heap {
				if hv, ok := hst.heap[a]; ok && hv == v {
					continue
				}
				root := addrRoot(a)
				if inLoopTerm(root) {
					continue // objects of this iteration
				}
				if h.locs[a] {
					continue
				}
				if root.op == OpLoad || root.op == OpLookup || root.op == OpAssert || root.op == OpExtract || root.op == OpCall || root.op == OpSym || root.op == OpElem || root.op == OpLoopVar || root.op == OpPure || root.op == OpGlobal || freshRoot(root) || root.op == OpRange || true {
					if inLoopTerm(a) {
						if freshRoot(root) && !st.escaped[root] {
							if !h.allocs[root] {
								if !h.nopt[root] && a.op == OpIndexAddr && a.args[0] == root {
									if old, ok := h.ptwise[root]; !ok {
										h.ptwise[root] = a
										changed = true
										continue
									} else if old == a {
										continue
									}
								}
								delete(h.ptwise, root)
								h.allocs[root] = true
								changed = true
							}
						} else if cls := classOf(a); !h.classes[cls] {
							h.classes[cls] = true
							changed = true
						}
						continue
					}
					if hv, ok := hst.heap[a]; !ok && !freshRoot(root) {
						// a first read caches nothing; only stores appear in the heap
						_ = hv
					}
					h.locs[a] = true
					lvLoc(a)
					changed = true
				}
			}
			for a := range hst.heap {
				if _, ok := c.st.heap[a]; !ok && !inLoopTerm(a) {
					cls := classOf(a)
					if freshRoot(addrRoot(a)) && !c.st.escaped[addrRoot(a)] {
						if !h.allocs[addrRoot(a)] {
							h.allocs[addrRoot(a)] = true
							changed = true
						}
					} else if !h.classes[cls] {
						h.classes[cls] = true
						changed = true
					}
				}
			}
			for cls, g := range c.st.gens {
				if g != hst.gens[cls] && !h.classes[cls] {
					// precise when every change is a known location
					if ex.onlyLocs(h, hst, c.st, cls, inLoopTerm) {
						continue
					}
					h.classes[cls] = true
					changed = true
				}
			}
			for a, g := range c.st.allocG {
				if g != hst.allocG[a] && !h.allocs[a] && !inLoopTerm(a) {
					if _, ok := h.ptwise[a]; ok {
						continue
					}
					h.allocs[a] = true
					changed = true
				}
			}
			for m, mc := range c.st.maps {
				if inLoopTerm(m) {
					continue
				}
				hm := hst.maps[m]
				if (hm == nil || hm.gen != mc.gen) && !h.maps[m] {
					h.maps[m] = true
					changed = true
				}
			}
			for a := range c.st.escaped {
				if !hst.escaped[a] && !inLoopTerm(a) && !h.esc[a] {
					h.esc[a] = true
					changed = true
				}
			}
		}
		// pointwise writes: nothing else of the object may be read or written
		for root, a := range h.ptwise {
			bad := false
			if a.args[0] != root {
				bad = true
			}
			l0 := toLin(a.args[1])
			var lv *Term
			for t, c := range l0.c {
				if c == 1 && t.op == OpLoopVar && t.aux == id {
					lv = t
				}
			}
			if lv == nil || len(l0.c) != 1 {
				bad = true
			}
			if !bad {
				for _, c := range conts {
					if c.kind != cBack {
						continue
					}
					if nx := ex.backVal(c, l, phis, lv, lvOf); nx == nil || nx != mkAdd(lv, mkInt(1)) {
						bad = true
					}
				}
				for _, as := range log {
					for x := range as {
						if addrRoot(x) == root && x != a {
							bad = true
						}
					}
				}
			}
			if bad {
				delete(h.ptwise, root)
				h.nopt[root] = true
				h.allocs[root] = true
				changed = true
			}
		}
		if changed {
			// new loop variables: add candidate invariants
			ex.candidates(fr, st, id, phis, h, lvOf, lvLoc, inits, addCand)
			continue
		}
		// measures that the body suggests
		n0 := len(cands)
		ex.measures(conts, st, id, phis, h, lvOf, inits, addCand, rec.hforder)
		if len(cands) > n0 {
			changed = true
		}
		// check candidates on the back edges
		for _, c := range cands[:n0] {
			if !c.ok {
				continue
			}
			for _, b := range conts {
				if b.kind != cBack {
					continue
				}
				t := c.mk(func(t *Term) *Term {
					if t.op == OpLoopVar && t.aux == id {
						if v := ex.backVal(b, l, phis, t, lvOf); v != nil {
							return v
						}
						for a, n := range locID {
							if t.n == n {
								return b.st.load(a, nil)
							}
						}
					}
					return t
				})
				if v, k := b.st.eval(t); !k || !v {
					if debugLoops {
						fmt.Println("DROP", id, t)
					}
					c.ok = false
					changed = true
					break
				}
			}
		}
		for i, p := range ex.headPreds {
			if !predOK[i] {
				continue
			}
			for _, b := range conts {
				if b.kind != cBack {
					continue
				}
				if t := p(b.st); t == nil || !isTrue(b.st, t) {
					if debugPred {
						fmt.Println("BACK FAIL", i, t, "\n   ", b.st.factString())
						for f, v := range b.st.facts {
							if f.op == OpOr || f.op == OpAnd {
								fmt.Println("   FACT", v, f)
							}
						}
					}
					predOK[i] = false
					changed = true
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	restore()
	if ex.obl != nil || ex.onStore != nil || ex.onEscape != nil {
		// final run with obligations recorded
		f, s := makeHead()
		s.event(&Event{kind: EvLoop, loop: rec})
		hst = s.clone()
		conts = ex.thread(l, ex.runInstrs(f, l.header, 0, s, &region{l.header, l.blocks}), inits)
	}
	rec.hst = hst
	rec.pre = st.clone()
	for c := range h.classes {
		rec.havocs = append(rec.havocs, c)
	}
	for _, p := range phis {
		if h.phis[p] {
			rec.vars = append(rec.vars, &loopVar{lv: lvOf(p), init: inits[p], phi: p})
		}
	}
	for _, a := range sortedTerms(h.locs) {
		rec.vars = append(rec.vars, &loopVar{lv: lvLoc(a), init: st.load(a, nil), addr: a})
	}
	maxCount := map[string]int{}
	for _, c := range conts {
		for k, n := range c.st.count {
			if n > maxCount[k] {
				maxCount[k] = n
			}
		}
	}
	hev := hst.ev
	var outs []*iterOut
	for _, c := range conts {
		o := &iterOut{st: c.st, rets: c.rets, events: c.st.ev.since(hev), blk: c.blk}
		o.facts = append(o.facts, c.st.forder[rec.hforder:]...)
		switch c.kind {
		case cBack:
			o.kind = "back"
			o.next = map[*Term]*Term{}
			for _, v := range rec.vars {
				var nx *Term
				if v.phi != nil {
					nx = ex.backVal(c, l, phis, v.lv, lvOf)
				} else {
					nx = c.st.load(v.addr, nil)
				}
				nx = c.st.norm(nx)
				v.next = append(v.next, nx)
				o.next[v.lv] = nx
			}
		case cExit:
			o.kind = "exit"
		case cReturn:
			o.kind = "return"
		case cPanic:
			o.kind = "panic"
		}
		outs = append(outs, o)
	}
	rec.outs = outs
	rec.varies = inLoopTerm
	ex.recognise(rec, st, inLoopTerm)
	ex.loopRecs = append(ex.loopRecs, rec)
	// results
	var res []cont
	for i, c := range conts {
		if c.kind == cBack {
			continue
		}
		for k, n := range maxCount {
			if c.st.count[k] < n {
				c.st.count[k] = n
			}
		}
		for root := range h.ptwise {
			if !outs[i].normal || !ex.fillForm(rec, root, h.ptwise[root], &c, st) {
				c.st.havocAlloc(root)
			}
		}
		c.st.ends = &loopEnd{c.st.ends, rec, outs[i]}
		res = append(res, c)
	}
	ex.close(rec, conts, outs, st, inLoopTerm)
	return res
}

func elemTypeOrInt(a *Term) types.Type {
	if a.op == OpRange {
		return tInt
	}
	return elemTypeOfAddr(a)
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (ex *Exec) loopPos(l *natLoop) string {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return ex.p.pos(in.Pos())
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return ex.p.pos(in.Pos())
			}
		}
	}
	return ex.p.pos(l.header.Parent().Pos())
}

// backVal: the value of loop variable lv at the end of an iteration.
func (ex *Exec) backVal(c cont, l *natLoop, phis []*ssa.Phi, lv *Term, lvOf func(*ssa.Phi) *Term) *Term {
	bp := -1
	for i, p := range l.header.Preds {
		if p == c.prev {
			bp = i
		}
	}
	for _, p := range phis {
		if lvOf(p) == lv {
			return ex.val(c.fr, p.Edges[bp])
		}
	}
	return nil
}

// onlyLocs: class cls was only changed through known loop-invariant locations.
func (ex *Exec) onlyLocs(h *havocSet, hst, bst *State, cls string, inLoop func(*Term) bool) bool {
	n := 0
	for a := range h.locs {
		if classOf(a) == cls {
			n++
		}
	}
	if n == 0 {
		return false
	}
	// stores since the loop head
	cnt := 0
	for _, e := range bst.ev.since(hst.ev) {
		switch e.kind {
		case EvStore:
			if classOf(e.addr) == cls {
				if !h.locs[e.addr] {
					return false
				}
				cnt++
			}
		case EvCall:
			// opaque calls havoc classes; be conservative when the class is in their effect
			if e.fn != nil || e.method != nil || e.callee == "dynamic" {
				for _, c := range ex.mod.classesOf(ex.eventCands(e)) {
					if c == cls {
						return false
					}
				}
			}
		case EvLoop:
			return false
		}
	}
	return cnt > 0 && bst.gens[cls]-hst.gens[cls] == cnt
}

func (ex *Exec) eventCands(e *Event) []*ssa.Function {
	if e.res != nil {
		if c, ok := ex.cands[e.res]; ok {
			return c
		}
	}
	if e.fn != nil {
		return []*ssa.Function{e.fn}
	}
	return nil
}

// candidates proposes invariants for the loop variables.
func (ex *Exec) candidates(fr *frame, st *State, id string, phis []*ssa.Phi, h *havocSet, lvOf func(*ssa.Phi) *Term, lvLoc func(*Term) *Term, inits map[*ssa.Phi]*Term, add func(string, func(func(*Term) *Term) *Term)) {
	type lvi struct{ lv, init *Term }
	var ints, seqs, refs []lvi
	class := func(lv, init *Term) {
		if lv.typ == nil || init == nil {
			return
		}
		switch lv.typ.Underlying().(type) {
		case *types.Basic:
			if isIntType(lv.typ) {
				ints = append(ints, lvi{lv, init})
			} else if isStringType(lv.typ) {
				seqs = append(seqs, lvi{lv, init})
			}
		case *types.Slice:
			seqs = append(seqs, lvi{lv, init})
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
			refs = append(refs, lvi{lv, init})
		}
	}
	for _, p := range phis {
		if h.phis[p] {
			class(lvOf(p), inits[p])
		}
	}
	for _, a := range sortedTerms(h.locs) {
		class(lvLoc(a), st.load(a, elemTypeOrInt(a)))
	}
	// lengths worth relating to
	lens := map[*Term]bool{}
	for _, v := range fr.vals {
		if v == nil || v.typ == nil || v.op == OpLoopVar && v.aux == id {
			continue
		}
		switch v.typ.Underlying().(type) {
		case *types.Slice:
			lens[v] = true
		case *types.Basic:
			if isStringType(v.typ) {
				if _, c := v.strVal(); !c {
					lens[v] = true
				}
			}
		}
	}
	ll := sortedTerms(lens)
	if len(ll) > 16 {
		ll = ll[len(ll)-16:]
	}
	for _, x := range ints {
		x := x
		add(fmt.Sprintf("%s>=init", x.lv), func(sub func(*Term) *Term) *Term {
			return mkLE(toLin(x.init).add(toLin(sub(x.lv)), -1))
		})
		add(fmt.Sprintf("%s<=init", x.lv), func(sub func(*Term) *Term) *Term {
			return mkLE(toLin(sub(x.lv)).add(toLin(x.init), -1))
		})
		for _, k := range []int64{-1, 0, 1} {
			k := k
			add(fmt.Sprintf("%s>=%d", x.lv, k), func(sub func(*Term) *Term) *Term {
				return mkLE(toLin(sub(x.lv)).scale(-1).add(lin{k: k}, 1))
			})
		}
		for _, s := range ll {
			for _, k := range []int64{-1, 0} {
				s, k := s, k
				add(fmt.Sprintf("%s<=len%d+%d", x.lv, s.id, k), func(sub func(*Term) *Term) *Term {
					return mkLE(toLin(sub(x.lv)).add(toLin(mkLen(s)), -1).add(lin{k: -k}, 1))
				})
			}
		}
		for _, s := range seqs {
			for _, k := range []int64{-1, 0} {
				s, k := s, k
				add(fmt.Sprintf("%s<=lenlv%d+%d", x.lv, s.lv.id, k), func(sub func(*Term) *Term) *Term {
					return mkLE(toLin(sub(x.lv)).add(toLin(mkLen(sub(s.lv))), -1).add(lin{k: -k}, 1))
				})
			}
		}
	}
	if ex.pairEq || len(ints) <= 3 {
		for i := range ints {
			for j := 0; j < i; j++ {
				x, y := ints[i], ints[j]
				d := fromLin(toLin(x.init).add(toLin(y.init), -1))
				if v, k := st.eval(mkEq(x.init, y.init)); k && v {
					d = mkInt(0)
				} else if !d.isConst() && ex.pairEq {
					continue
				}
				add(fmt.Sprintf("%s-%s const", x.lv, y.lv), func(sub func(*Term) *Term) *Term {
					return mkEq(sub(x.lv), mkAdd(sub(y.lv), d))
				})
			}
		}
	}
	for _, s := range seqs {
		s := s
		add(fmt.Sprintf("len %s<=init", s.lv), func(sub func(*Term) *Term) *Term {
			return mkLE(toLin(mkLen(sub(s.lv))).add(toLin(mkLen(s.init)), -1))
		})
		add(fmt.Sprintf("len %s>=init", s.lv), func(sub func(*Term) *Term) *Term {
			return mkLE(toLin(mkLen(s.init)).add(toLin(mkLen(sub(s.lv))), -1))
		})
		add(fmt.Sprintf("len %s>=1", s.lv), func(sub func(*Term) *Term) *Term {
			return mkLE(toLin(mkLen(sub(s.lv))).scale(-1).add(lin{k: 1}, 1))
		})
	}
	for _, r := range refs {
		r := r
		add(fmt.Sprintf("%s nonnil", r.lv), func(sub func(*Term) *Term) *Term {
			return mkNot(mkEq(sub(r.lv), mkNil(nil)))
		})
		if isErrorType(r.lv.typ) {
			add(fmt.Sprintf("%s nil", r.lv), func(sub func(*Term) *Term) *Term {
				return mkEq(sub(r.lv), mkNil(nil))
			})
		}
	}
}

// measures proposes i + count(s) == init for the separators the body searches.
func (ex *Exec) measures(conts []cont, st *State, id string, phis []*ssa.Phi, h *havocSet, lvOf func(*ssa.Phi) *Term, inits map[*ssa.Phi]*Term, add func(string, func(func(*Term) *Term) *Term), hf int) {
	type m struct {
		s    *ssa.Phi
		seps string
	}
	found := map[m]bool{}
	// v <= bound, where an iteration asks for v < bound
	bounds := map[*Term]bool{}
	for _, c := range conts {
		for _, f := range c.st.forder[hf:] {
			if f.op == OpLE {
				bounds[f] = true
			}
		}
	}
	for _, f := range sortedTerms(bounds) {
		f := f
		l := toLin(f.args[0])
		n, ok := 0, true
		for t := range l.c {
			if t.op == OpLoopVar && t.aux == id {
				n++
				ok = ok && (l.c[t] == 1 || l.c[t] == -1)
			} else if contains(t, func(x *Term) bool { return x.op == OpLoopVar && x.aux == id || x.op == OpElem }) {
				ok = false
			}
		}
		if n != 1 || !ok || len(l.c) < 2 {
			continue
		}
		add(fmt.Sprintf("bound %d", f.id), func(sub func(*Term) *Term) *Term {
			w := lin{k: l.k - 1}
			for t, c := range l.c {
				w = w.add(toLin(sub(t)), c)
			}
			return mkLE(w)
		})
	}
	for _, c := range conts {
		for _, f := range c.st.forder[hf:] {
			contains(f, func(t *Term) bool {
				if t.op == OpPure && (t.aux == "strings.IndexAny" || t.aux == "strings.Index") && t.args[0].op == OpLoopVar && t.args[0].aux == id {
					if seps, ok := t.args[1].strVal(); ok && seps != "" && (t.aux == "strings.IndexAny" || len(seps) == 1) {
						for _, p := range phis {
							if lvOf(p) == t.args[0] {
								found[m{p, seps}] = true
							}
						}
					}
				}
				return false
			})
		}
	}
	for mm := range found {
		for _, p := range phis {
			if !h.phis[p] || !isIntType(p.Type()) {
				continue
			}
			p, mm := p, mm
			i0, s0 := inits[p], inits[mm.s]
			add(fmt.Sprintf("measure %s %s %q", lvOf(p), lvOf(mm.s), mm.seps), func(sub func(*Term) *Term) *Term {
				return mkEq(mkAdd(sub(lvOf(p)), sepCount(sub(lvOf(mm.s)), mm.seps)), mkAdd(i0, sepCount(s0, mm.seps)))
			})
		}
	}
}

// recognise finds the container that a loop traverses completely.
func (ex *Exec) recognise(rec *LoopRec, st *State, inLoop func(*Term) bool) {
	var live []*iterOut
	for _, o := range rec.outs {
		if o.kind != "panic" {
			live = append(live, o)
		}
	}
	has := func(o *iterOut, l *Term) bool {
		for _, f := range o.facts {
			if f == l {
				return true
			}
		}
		return false
	}
	// purity: the iteration has no effect besides its own index
	rec.pure = true
	for _, o := range live {
		if len(o.events) > 0 {
			rec.pure = false
		}
	}
	try := func(stop *Term) bool { // stop: literal of the normal exit
		cont := mkNot(stop)
		n := 0
		for _, o := range live {
			if has(o, stop) {
				if o.kind == "back" || len(o.facts) != 1 {
					return false
				}
				n++
				continue
			}
			if !has(o, cont) {
				return false
			}
		}
		return n > 0
	}
	mark := func(stop *Term) {
		for _, o := range live {
			if has(o, stop) {
				o.normal = true
			}
		}
	}
	for _, o := range live {
		if len(o.facts) != 1 || o.kind == "back" {
			continue
		}
		stop := o.facts[0]
		// map or string
		if stop.op == OpNot && stop.args[0].op == OpElem && stop.args[0].aux == "more" {
			if !try(stop) {
				continue
			}
			more := stop.args[0]
			it := more.args[0]
			if it.op != OpRange || inLoop(it) {
				continue
			}
			// exactly one step per iteration, and the iterator was fresh at loop entry
			if p, ok := st.heap[it].intVal(); !ok || p != 0 {
				continue
			}
			mark(stop)
			rec.container = st.norm(it.args[0])
			rec.more = more
			n := more.n
			if isStringType(it.typ) {
				rec.kind = "string"
				rec.key = T.mk(Term{op: OpElem, aux: "idx", args: []*Term{rec.container, it}, n: n, typ: tInt})
				rec.elem = T.mk(Term{op: OpElem, aux: "rune", args: []*Term{rec.container, it}, n: n, typ: types.Typ[types.Rune]})
			} else {
				rec.kind = "map"
				mt := rec.container.typ.Underlying().(*types.Map)
				rec.key = T.mk(Term{op: OpElem, aux: "key", args: []*Term{rec.container, it}, n: n, typ: mt.Key()})
				rec.elem = T.mk(Term{op: OpElem, aux: "elem", args: []*Term{rec.container, it}, n: n, typ: mt.Elem()})
			}
			return
		}
		// index loop
		var l lin
		switch stop.op {
		case OpLE:
			l = toLin(stop.args[0])
		case OpEq: // idx == len
			l = toLin(stop.args[1]).add(toLin(stop.args[0]), -1)
			for t, c := range l.c {
				if t.op == OpLen && c < 0 {
					l = l.scale(-1)
					break
				}
			}
		default:
			continue
		}
		// forward: Len(x) - idx <= 0
		for _, v := range rec.vars {
			if v.phi == nil || !isIntType(v.lv.typ) {
				continue
			}
			step := int64(0)
			okStep := len(v.next) > 0
			for i, nx := range v.next {
				d := toLin(nx).add(toLin(v.lv), -1)
				if len(d.c) != 0 {
					okStep = false
					break
				}
				if i == 0 {
					step = d.k
				} else if step != d.k {
					okStep = false
				}
			}
			if !okStep || step != 1 && step != -1 {
				continue
			}
			cv := l.c[v.lv]
			if step == 1 && cv == -1 {
				// l = Len(x) - lv - c  (+ offsets when x is a slice expression)
				rest := l.add(lin{c: map[*Term]int64{v.lv: 1}}, 1) // Len(x) - c
				x, c := containerOfLen(rest)
				if y := rec.seqOfLen(rest, v, inLoop); y != nil {
					// idx = lv + c with Len(y) - lv - c = l
					x, c = y, toLin(mkLen(y)).add(rest, -1).k
				}
				if x == nil {
					continue
				}
				if inLoop(x) {
					continue
				}
				init := toLin(v.init).add(lin{k: c}, 1)
				if len(init.c) != 0 {
					continue
				}
				// the first elements have been dealt with before
				for init.k > 0 && x.op == OpSeq && len(x.args) > 1 && x.args[0].op == OpSingle {
					x = mkSeq(x.args[1:], x.typ)
					init.k--
					c--
				}
				if init.k != 0 {
					continue
				}
				if !try(stop) {
					continue
				}
				mark(stop)
				rec.container, rec.kind = x, "slice"
				rec.idxVar = v.lv
				rec.idx = mkAdd(v.lv, mkInt(c))
				return
			}
			if step == -1 && cv == 1 && stop.op == OpLE {
				// idx + 1 <= 0, idx = lv + c, init + c = Len(x) - 1
				rest := l.add(lin{c: map[*Term]int64{v.lv: 1}}, -1)
				if len(rest.c) != 0 {
					continue
				}
				c := rest.k - 1
				init := toLin(v.init).add(lin{k: c + 1}, 1)
				x, c2 := containerOfLen(init)
				if x == nil || c2 != 0 || inLoop(x) {
					continue
				}
				if !try(stop) {
					continue
				}
				mark(stop)
				rec.container, rec.kind, rec.rev = x, "slice", true
				rec.idxVar = v.lv
				rec.idx = mkAdd(v.lv, mkInt(c))
				return
			}
		}
	}
}

// containerOfLen: l = Len(x) - c; returns x, c. Also a constant length is accepted as nil.
// seqOfLen: a list of known parts that the loop indexes with v (plus a constant) and whose
// length differs from l by a constant.
func (r *LoopRec) seqOfLen(l lin, v *loopVar, inLoop func(*Term) bool) *Term {
	var found *Term
	look := func(t *Term) {
		if t == nil {
			return
		}
		contains(t, func(x *Term) bool {
			if x.op != OpIndexAddr && x.op != OpIndex || x.args[0].op != OpSeq || inLoop(x.args[0]) {
				return false
			}
			if d := toLin(x.args[1]).add(toLin(v.lv), -1); len(d.c) != 0 {
				return false
			}
			if d := toLin(mkLen(x.args[0])).add(l, -1); len(d.c) != 0 {
				return false
			}
			found = x.args[0]
			return true
		})
	}
	for _, o := range r.outs {
		for _, f := range o.facts {
			look(f)
		}
		for _, e := range o.events {
			look(e.recv)
			for _, a := range e.args {
				look(a)
			}
			look(e.addr)
			look(e.val)
			look(e.key)
		}
		for _, n := range o.next {
			look(n)
		}
	}
	return found
}

func containerOfLen(l lin) (*Term, int64) {
	if len(l.c) != 1 {
		return nil, 0
	}
	for t, c := range l.c {
		if c == 1 && t.op == OpLen {
			return t.args[0], -l.k
		}
	}
	return nil, 0
}

// ---- closed forms ----

func (r *LoopRec) elemType() types.Type {
	if r.container == nil || r.container.typ == nil {
		return nil
	}
	switch u := r.container.typ.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

// abstractTerm replaces the loop's index, key and element by bound variables of level lv.
// ok=false when other loop-carried values remain.
func (ex *Exec) abstractTerm(rec *LoopRec, st *State, t *Term, level int64, extra map[*Term]*Term) (*Term, bool) {
	bidx := T.mk(Term{op: OpBound, aux: "idx", n: level, typ: tInt})
	var c int64
	if rec.idxVar != nil {
		c = toLin(rec.idx).k
	}
	belem := func(tt types.Type) *Term { return T.mk(Term{op: OpBound, aux: "elem", n: level, typ: tt}) }
	bkey := func(tt types.Type) *Term { return T.mk(Term{op: OpBound, aux: "key", n: level, typ: tt}) }
	gen := int64(-1)
	if rec.kind == "slice" {
		et := rec.elemType()
		if et != nil && !isStringType(rec.container.typ) {
			gen = rec.elemGen(st)
		}
	}
	memo := map[*Term]*Term{}
	r := rewrite(t, func(x *Term) *Term {
		if e, ok := extra[x]; ok {
			return e
		}
		if rec.kind == "slice" {
			if x.op == OpLoad && x.args[0].op == OpIndexAddr && x.args[0].args[0] == rec.container && x.args[0].args[1] == rec.idx && x.n == gen {
				return belem(x.typ)
			}
			if x.op == OpIndex && x.args[0] == rec.container && x.args[1] == rec.idx {
				return belem(x.typ)
			}
			if x.op == OpIndex && rec.container.op == OpConv && x.args[0] == rec.container.args[0] && x.args[1] == rec.idx {
				return belem(x.typ)
			}
			if x == rec.idxVar {
				return mkSub(bidx, mkInt(c))
			}
		} else {
			if x == rec.key {
				return bkey(x.typ)
			}
			if x == rec.elem {
				return belem(x.typ)
			}
			if rec.kind == "map" && x.op == OpLookup && x.args[0] == rec.container && x.args[1] == rec.key {
				return belem(x.typ)
			}
		}
		return nil
	}, memo)
	bad := contains(r, func(x *Term) bool { return x.op == OpLoopVar && x.aux == rec.id })
	return r, !bad
}

// elemGen: the heap generation with which elements of the container are read unmodified.
func (r *LoopRec) elemGen(st *State) int64 {
	a := mkIndexAddr(r.container, r.idx, types.NewPointer(r.elemType()))
	pre := st.clone()
	pre.logLoad = nil
	v := pre.load(a, r.elemType())
	if v.op == OpLoad {
		return v.n
	}
	return -1
}

func (r *LoopRec) guard(o *iterOut) []*Term {
	var out []*Term
	for _, f := range o.facts {
		if r.isContinue(f) {
			continue
		}
		out = append(out, f)
	}
	return out
}

func (r *LoopRec) isContinue(f *Term) bool {
	if r.more != nil && f == r.more {
		return true
	}
	for _, o := range r.outs {
		if o.normal && len(o.facts) == 1 && f == mkNot(o.facts[0]) {
			return true
		}
	}
	return false
}

// forTerm builds For(container, alternatives) for the items that each iteration appends
// to accumulator lv.
func (ex *Exec) forTerm(rec *LoopRec, st *State, pick func(o *iterOut) ([]*Term, bool)) (*Term, bool) {
	type alt struct {
		g     []*Term
		items []*Term
	}
	var alts []alt
	level := int64(0)
	upd := func(t *Term) {
		if t.blevel > level {
			level = t.blevel
		}
	}
	for _, o := range rec.backs() {
		items, ok := pick(o)
		if !ok {
			return nil, false
		}
		g := rec.guard(o)
		for _, t := range g {
			upd(t)
		}
		for _, t := range items {
			upd(t)
		}
		alts = append(alts, alt{g, items})
	}
	var terms []*Term
	for _, a := range alts {
		var gs []*Term
		for _, t := range a.g {
			r, ok := ex.abstractTerm(rec, st, t, level, nil)
			if !ok {
				return nil, false
			}
			gs = append(gs, r)
		}
		if len(a.items) == 0 {
			continue
		}
		args := []*Term{mkAnd(gs)}
		for _, t := range a.items {
			r, ok := ex.abstractTerm(rec, st, t, level, nil)
			if !ok {
				return nil, false
			}
			args = append(args, r)
		}
		terms = append(terms, T.mk(Term{op: OpAlt, args: args}))
	}
	return ex.mkFor(st, rec.container, rec.kind, rec.rev, level, terms), true
}

func (ex *Exec) mkFor(st *State, c *Term, kind string, rev bool, level int64, alts []*Term) *Term {
	aux := kind
	if rev {
		aux += "-rev"
	}
	alts = mergeAlts(alts)
	return T.mk(Term{op: OpFor, aux: aux, n: level, args: append([]*Term{c}, alts...)})
}

// mergeAlts joins alternatives with the same items (their guards are disjoint paths).
func mergeAlts(alts []*Term) []*Term {
	var keys []string
	by := map[string][]*Term{}
	for _, a := range alts {
		k := ""
		for _, x := range a.args[1:] {
			k += fmt.Sprint(x.id) + ","
		}
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], a)
	}
	var out []*Term
	for _, k := range keys {
		as := by[k]
		if len(as) == 1 {
			out = append(out, as[0])
			continue
		}
		var gs [][]*Term
		for _, a := range as {
			if a.args[0].op == OpAnd {
				gs = append(gs, a.args[0].args)
			} else {
				gs = append(gs, []*Term{a.args[0]})
			}
		}
		g := simplifyDNF(gs)
		out = append(out, T.mk(Term{op: OpAlt, args: append([]*Term{g}, as[0].args[1:]...)}))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// simplifyDNF minimises a disjunction of conjunctions of literals (merging complementary
// literals and absorbing) and returns it as a term.
func simplifyDNF(cs [][]*Term) *Term {
	type conj struct {
		m map[*Term]bool
		l []*Term // sorted; entries not in m are gone
	}
	var set []*conj
	for _, c := range cs {
		m := &conj{m: map[*Term]bool{}}
		for _, l := range c {
			if b, ok := l.boolVal(); ok && b {
				continue
			}
			if !m.m[l] {
				m.m[l] = true
				m.l = append(m.l, l)
			}
		}
		sort.Slice(m.l, func(i, j int) bool { return m.l[i].id < m.l[j].id })
		set = append(set, m)
	}
	sub := func(a, b *conj) bool { // b subset of a
		if len(b.m) > len(a.m) {
			return false
		}
		for _, l := range b.l {
			if b.m[l] && !a.m[l] {
				return false
			}
		}
		return true
	}
	absorb := func() bool {
		ch := false
		for i := 0; i < len(set); i++ {
			for j := 0; j < len(set); j++ {
				if i != j && sub(set[i], set[j]) {
					set = append(set[:i:i], set[i+1:]...)
					ch = true
					i--
					break
				}
			}
		}
		return ch
	}
	absorb()
	for changed := true; changed; {
		changed = false
		// resolution: x∧R ∨ ¬x∧R' with R ⊆ R' : drop ¬x from the second
		for i := range set {
			for j := range set {
				if i == j || len(set[i].m) > len(set[j].m) {
					continue
				}
				// exactly one literal of set[i] is missing in set[j], and it is negated there
				var miss *Term
				n := 0
				for _, x := range set[i].l {
					if set[i].m[x] && !set[j].m[x] {
						miss = x
						if n++; n > 1 {
							break
						}
					}
				}
				if n != 1 {
					continue
				}
				if nl := mkNot(miss); set[j].m[nl] {
					delete(set[j].m, nl)
					changed = true
				}
			}
		}
		if absorb() {
			changed = true
		}
	}
	var ors []*Term
	for _, c := range set {
		var ls []*Term
		for _, l := range c.l {
			if c.m[l] {
				ls = append(ls, l)
			}
		}
		ors = append(ors, mkAnd(ls))
	}
	return mkOr(ors)
}

func mkExists(c *Term, kind string, level int64, p *Term) *Term {
	if p.op == OpOr {
		var out []*Term
		for _, x := range p.args {
			out = append(out, mkExists(c, kind, level, x))
		}
		return mkOr(out)
	}
	if b, ok := p.boolVal(); ok && !b {
		return p
	}
	if b, ok := p.boolVal(); ok && b {
		return mkNot(mkEq(mkLen(c), mkInt(0)))
	}
	if c.isNil() {
		return mkBool(false)
	}
	return T.mk(Term{op: OpExists, aux: kind, n: level, args: []*Term{c, p}, typ: tBool})
}

// close computes closed forms on the exits of the loop.
func (ex *Exec) close(rec *LoopRec, conts []cont, outs []*iterOut, st *State, inLoop func(*Term) bool) {
	if rec.container == nil || ex.noForms {
		return
	}
	// loop-carried variables other than the index and the iterator
	var carried []*loopVar
	for _, v := range rec.vars {
		if v.lv == rec.idxVar || v.addr != nil && v.addr.op == OpRange {
			continue
		}
		carried = append(carried, v)
	}
	forms := map[*Term]*Term{}
	for _, v := range carried {
		if f := ex.accForm(rec, st, v); f != nil {
			forms[v.lv] = f
		}
	}
	mapForms := map[*Term]*Term{}
	for m, mc := range rec.hst.maps {
		pre := st.maps[m]
		if pre == nil || mc == pre || !pre.exact || len(pre.entries) > 0 || !st.privateAlloc(m) {
			continue
		}
		if f := ex.mapForm(rec, st, m); f != nil {
			mapForms[m] = f
		}
	}
	// searches
	search := rec.pure && len(carried) == 0 && len(rec.havocs) == 0
	type ee struct {
		i int
		p *Term
	}
	var early []ee
	var stay []*Term
	okStay := true
	level := int64(0)
	if search {
		for _, o := range outs {
			if o.kind == "panic" {
				continue
			}
			for _, f := range rec.guard(o) {
				if f.blevel > level {
					level = f.blevel
				}
			}
		}
		for i, o := range outs {
			if o.normal || o.kind == "panic" {
				continue
			}
			var gs []*Term
			ok := true
			for _, f := range rec.guard(o) {
				r, k := ex.abstractTerm(rec, st, f, level, nil)
				if !k {
					ok = false
				}
				gs = append(gs, r)
			}
			if !ok {
				search = false
				break
			}
			if o.kind == "back" {
				stay = append(stay, mkAnd(gs))
			} else {
				early = append(early, ee{i, mkAnd(gs)})
			}
		}
	}
	_ = okStay
	var none []*Term // predicates no element satisfies, on normal exit
	if search {
		if len(stay) == 1 {
			lits := []*Term{stay[0]}
			if stay[0].op == OpAnd {
				lits = stay[0].args
			}
			for _, l := range lits {
				none = append(none, mkNot(l))
			}
		} else {
			for _, e := range early {
				none = append(none, e.p)
			}
		}
		for _, e := range early {
			c := &conts[e.i]
			if c.kind == cBack {
				continue
			}
			x := mkExists(rec.container, rec.kind, level, e.p)
			c.st.forder = append(c.st.forder[:rec.hforder:rec.hforder], x)
			c.st.assume1(x, true)
		}
	}
	for i := range conts {
		if !outs[i].normal {
			continue
		}
		c := &conts[i]
		if search {
			c.st.forder = c.st.forder[:rec.hforder:rec.hforder]
			for _, p := range none {
				x := mkExists(rec.container, rec.kind, level, p)
				if x.op == OpNot {
					c.st.assume(x.args[0], true)
				} else {
					c.st.assume(x, false)
				}
			}
		} else {
			c.st.forder = c.st.forder[:rec.hforder:rec.hforder]
		}
		if len(forms) > 0 {
			sub := func(t *Term) *Term {
				return rewrite(t, func(x *Term) *Term { return forms[x] }, map[*Term]*Term{})
			}
			for k, v := range c.fr.vals {
				if v != nil && v.op != OpSym {
					c.fr.vals[k] = sub(v)
				}
			}
			for k, v := range c.st.heap {
				c.st.heap[k] = sub(v)
			}
			for k, v := range c.rets {
				c.rets[k] = sub(v)
			}
		}
		for m, f := range mapForms {
			c.st.comp[m] = f
		}
	}
}

// accForm: closed form of a loop-carried variable after complete traversal.
func (ex *Exec) accForm(rec *LoopRec, st *State, v *loopVar) *Term {
	backs := rec.backs()
	if v.lv.typ == nil || len(backs) == 0 {
		return nil
	}
	switch u := v.lv.typ.Underlying().(type) {
	case *types.Slice:
		_ = u
		f, ok := ex.forTerm(rec, st, func(o *iterOut) ([]*Term, bool) {
			nx := o.next[v.lv]
			if nx == v.lv {
				return nil, true
			}
			if nx.op != OpSeq || len(nx.args) < 2 || nx.args[0].op != OpSpread || nx.args[0].args[0] != v.lv {
				return nil, false
			}
			return nx.args[1:], true
		})
		if !ok {
			return nil
		}
		items := append([]*Term{}, st.seqItems(v.init)...)
		items = append(items, f)
		return mkSeq(items, v.lv.typ)
	case *types.Basic:
		if isBoolType(v.lv.typ) {
			b0, ok := v.init.boolVal()
			if !ok {
				break
			}
			var ps [][]*Term
			level := int64(0)
			for _, o := range backs {
				for _, f := range rec.guard(o) {
					if f.blevel > level {
						level = f.blevel
					}
				}
			}
			good := true
			for _, o := range backs {
				nx := o.next[v.lv]
				if nx == v.lv {
					continue
				}
				if b, ok := nx.boolVal(); ok {
					if b == b0 {
						// resets or "still unchanged" under the assumption on lv
						if contains2(rec.guard(o), lit(v.lv, b0)) {
							continue
						}
						good = false
						break
					}
					var gs []*Term
					for _, f := range rec.guard(o) {
						if f == lit(v.lv, b0) || f == lit(v.lv, !b0) {
							continue
						}
						r, k := ex.abstractTerm(rec, st, f, level, nil)
						if !k {
							good = false
						}
						gs = append(gs, r)
					}
					if contains2(rec.guard(o), lit(v.lv, !b0)) {
						continue // already set
					}
					ps = append(ps, gs)
					continue
				}
				good = false
			}
			if !good || len(rec.outs) != len(backs)+countNormal(rec) {
				break
			}
			e := mkExists(rec.container, rec.kind, level, simplifyDNF(ps))
			if b0 {
				return mkNot(e)
			}
			return e
		}
	}
	// general fold with a single unconditional step
	if len(backs) == 1 && len(rec.guard(backs[0])) == 0 {
		nx := backs[0].next[v.lv]
		level := nx.blevel
		acc := T.mk(Term{op: OpBound, aux: "acc", n: level, typ: v.lv.typ})
		r, ok := ex.abstractTerm(rec, st, nx, level, map[*Term]*Term{v.lv: acc})
		if !ok {
			return nil
		}
		if isIntType(v.lv.typ) {
			d := toLin(r).add(toLin(acc), -1)
			if len(d.c) == 0 {
				return fromLin(toLin(v.init).add(toLin(mkLen(rec.container)).scale(d.k), 1))
			}
		}
		aux := rec.kind
		if rec.rev {
			aux += "-rev"
		}
		return T.mk(Term{op: OpFold, aux: aux, n: level, args: []*Term{rec.container, v.init, r}, typ: v.lv.typ})
	}
	return nil
}

func countNormal(rec *LoopRec) int {
	n := 0
	for _, o := range rec.outs {
		if o.normal || o.kind == "panic" {
			n++
		}
	}
	return n
}

func contains2(ts []*Term, x *Term) bool {
	for _, t := range ts {
		if t == x {
			return true
		}
	}
	return false
}

// mapForm: a fresh map filled by the loop, as a comprehension of key/value pairs. Values
// appended to the entry of their key are grouped (aux "group").
func (ex *Exec) mapForm(rec *LoopRec, st *State, m *Term) *Term {
	grouped := false
	f, ok := ex.forTerm(rec, st, func(o *iterOut) ([]*Term, bool) {
		mc := o.st.maps[m]
		h := rec.hst.maps[m]
		if mc == nil || h == nil {
			return nil, false
		}
		if mc.gen == h.gen {
			return nil, true
		}
		if mc.gen != h.gen+1 || len(mc.entries) != 1 {
			return nil, false
		}
		k, v := mc.entries[0].k, mc.entries[0].v
		if v.op == OpSeq && len(v.args) >= 1 && v.args[0].op == OpSpread && v.args[0].args[0].op == OpLookup && v.args[0].args[0].args[0] == m && v.args[0].args[0].args[1] == k {
			if rec.kind == "map" && k == rec.key {
				// the key is new in every iteration
				v = mkSeq(v.args[1:], v.typ)
				if len(v.args) == 1 && v.args[0].op == OpSpread {
					v = v.args[0].args[0]
				}
			} else {
				grouped = true
				v = mkSeq(v.args[1:], v.typ)
			}
		} else if !(rec.kind == "map" && k == rec.key) {
			return nil, false // overwriting: the last value wins
		}
		if contains(v, func(x *Term) bool { return x == m }) {
			return nil, false
		}
		return []*Term{T.mk(Term{op: OpSingle, aux: "pair", args: []*Term{k, v}})}, true
	})
	if !ok {
		return nil
	}
	if grouped {
		f = T.mk(Term{op: f.op, aux: "group:" + f.aux, args: f.args, n: f.n})
	}
	return f
}

// fillForm: x[i] = v for every index of the container, into a fresh slice of that length.
func (ex *Exec) fillForm(rec *LoopRec, root, addr *Term, c *cont, st *State) bool {
	if rec.container == nil || rec.rev || root.op != OpSized || addr.args[1] != rec.idx {
		return false
	}
	if v, k := st.eval(mkEq(root.args[0], mkLen(rec.container))); !k || !v {
		return false
	}
	f, ok := ex.forTerm(rec, st, func(o *iterOut) ([]*Term, bool) {
		v, ok := o.st.heap[addr]
		if !ok {
			return nil, false
		}
		return []*Term{mkSingle(v)}, true
	})
	if !ok {
		return false
	}
	seq := mkSeq([]*Term{f}, root.typ)
	for k, v := range c.fr.vals {
		if v != nil && v.op != OpSym {
			c.fr.vals[k] = subst(v, root, seq)
		}
	}
	for k, v := range c.st.heap {
		c.st.heap[k] = subst(v, root, seq)
	}
	return true
}

func trimRepo(s string) string { return strings.ReplaceAll(s, repoMod+"/", "") }
