package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Mods: which classes of locations a function may write, transitively, over a
// class-hierarchy call graph.
type Mods struct {
	p       *Prog
	direct  map[*ssa.Function]map[string]bool
	callees map[*ssa.Function][]*ssa.Function
	memo    map[*ssa.Function]map[string]bool
	inv     map[*types.Func][]*ssa.Function
	ext     map[*ssa.Function][]*ssa.CallCommon
}

func newMods(p *Prog) *Mods {
	m := &Mods{p: p, direct: map[*ssa.Function]map[string]bool{}, callees: map[*ssa.Function][]*ssa.Function{}, memo: map[*ssa.Function]map[string]bool{}, inv: map[*types.Func][]*ssa.Function{}, ext: map[*ssa.Function][]*ssa.CallCommon{}}
	return m
}

func ssaRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (m *Mods) scan(fn *ssa.Function) {
	if _, ok := m.direct[fn]; ok {
		return
	}
	d := map[string]bool{}
	m.direct[fn] = d
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	addCallee := func(fs ...*ssa.Function) {
		for _, f := range fs {
			if f != nil && !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := ssaRoot(x.Addr).(*ssa.Alloc); ok {
					continue
				}
				for _, c := range addrClasses(x.Addr, x.Val.Type()) {
					d[c] = true
				}
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.MakeMap); ok {
					continue
				}
				d[mapClass(x.Map.Type())] = true
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() {
					addCallee(m.targetsAt(c)...)
					continue
				}
				switch f := c.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "copy":
						if _, ok := ssaRoot(c.Args[0]).(*ssa.Alloc); ok {
							continue
						}
						if _, ok := ssaRoot(c.Args[0]).(*ssa.MakeSlice); ok {
							continue
						}
						if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
							d["[]"+typeStr(sl.Elem())] = true
						}
					case "delete", "clear":
						d[mapClass(c.Args[0].Type())] = true
					case "append":
						// may write into the spare capacity of its argument: not a location that
						// the analysis tracks (elements beyond the length are never read back)
					}
				case *ssa.Function:
					if len(f.Blocks) > 0 {
						addCallee(f)
					} else {
						addCallee(m.extEffects(d, f, c.Args)...)
					}
				case *ssa.MakeClosure:
					addCallee(f.Fn.(*ssa.Function))
				default:
					addCallee(m.p.dynTargets(c)...)
				}
			}
		}
	}
	m.callees[fn] = out
}

// extEffects: an external call may run methods of library objects it is given, and write
// through slices.
func (m *Mods) extEffects(d map[string]bool, f *ssa.Function, args []ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	name := fullName(f)
	for _, a := range args {
		switch x := a.(type) {
		case *ssa.MakeInterface:
			if isRepoType(x.X.Type()) {
				out = append(out, m.methodsOf(x.X.Type())...)
			}
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, x)
		}
		if sl, ok := a.Type().Underlying().(*types.Slice); ok && writesSlices(name) {
			r := ssaRoot(a)
			_, al := r.(*ssa.Alloc)
			_, ms := r.(*ssa.MakeSlice)
			if !al && !ms {
				d["[]"+typeStr(sl.Elem())] = true
			}
		}
	}
	return out
}

func addrClasses(a ssa.Value, vt types.Type) []string {
	if st, ok := vt.Underlying().(*types.Struct); ok && !opaqueStruct(vt) {
		var out []string
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if s2, ok := ft.Underlying().(*types.Struct); ok && !opaqueStruct(ft) {
				_ = s2
				out = append(out, structFieldClasses(ft)...)
				continue
			}
			out = append(out, structKey(vt)+"."+st.Field(i).Name())
		}
		return out
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return []string{structKey(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)}
	case *ssa.IndexAddr:
		return []string{"[]" + typeStr(vt)}
	case *ssa.Global:
		return []string{"G:" + x.String()}
	}
	return []string{"*" + typeStr(vt)}
}

func structFieldClasses(t types.Type) []string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Struct); ok && !opaqueStruct(ft) {
			out = append(out, structFieldClasses(ft)...)
			continue
		}
		out = append(out, structKey(t)+"."+st.Field(i).Name())
	}
	return out
}

// invokeTargets: the library's implementations of an interface method.
func (m *Mods) invokeTargets(f *types.Func) []*ssa.Function {
	if r, ok := m.inv[f]; ok {
		return r
	}
	var out []*ssa.Function
	sig := f.Type().(*types.Signature)
	it, _ := sig.Recv().Type().Underlying().(*types.Interface)
	if it != nil {
		for _, t := range m.p.implementers(it) {
			if fn := m.p.method(t, f.Name()); fn != nil {
				out = append(out, fn)
			}
		}
	}
	m.inv[f] = out
	return out
}

// targetsAt: the library's methods that an invoke may reach, by the dynamic types of its receiver
// where these are apparent.
func (m *Mods) targetsAt(c *ssa.CallCommon) []*ssa.Function {
	all := m.invokeTargets(c.Method)
	if len(all) == 0 {
		return all
	}
	ts := map[string]types.Type{}
	if !m.dynTypes(c.Value, ts, map[ssa.Value]bool{}) {
		return all
	}
	var out []*ssa.Function
	for _, t := range ts {
		if fn := m.p.method(t, c.Method.Name()); fn != nil && (inRepo(fn) || fn.Synthetic != "") {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return relName(out[i]) < relName(out[j]) })
	return out
}

// dynTypes: the types of the values put into an interface, false if they are not apparent.
func (m *Mods) dynTypes(v ssa.Value, out map[string]types.Type, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	result := func(c *ssa.Call, n int) bool {
		g := c.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return false
		}
		for _, b := range g.Blocks {
			if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
				if n >= len(ret.Results) || !m.dynTypes(ret.Results[n], out, seen) {
					return false
				}
			}
		}
		return g.Recover == nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		out[typeStr(x.X.Type())] = x.X.Type()
		return true
	case *ssa.ChangeInterface:
		return m.dynTypes(x.X, out, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !m.dynTypes(e, out, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return result(x, 0)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return result(c, x.Index)
		}
	}
	return false
}

func (m *Mods) methodsOf(t types.Type) []*ssa.Function {
	ms := m.p.ssa.MethodSets.MethodSet(t)
	var out []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if fn := m.p.ssa.MethodValue(ms.At(i)); fn != nil {
			out = append(out, fn)
		}
	}
	return out
}

func (m *Mods) classSet(fn *ssa.Function) map[string]bool {
	if r, ok := m.memo[fn]; ok {
		return r
	}
	r := map[string]bool{}
	for _, g := range m.reach(fn) {
		for c := range m.direct[g] {
			r[c] = true
		}
	}
	m.memo[fn] = r
	return r
}

// reach: functions reachable from fn (including fn).
func (m *Mods) reach(fns ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	q := append([]*ssa.Function{}, fns...)
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		out = append(out, f)
		m.scan(f)
		q = append(q, m.callees[f]...)
	}
	return out
}

func (m *Mods) classesOf(fns []*ssa.Function) []string {
	set := map[string]bool{}
	for _, f := range fns {
		for c := range m.classSet(f) {
			set[c] = true
		}
	}
	out := make([]string, 0, len(set))
	for c := range set {
		out = append(out, c)
	}
	sort.Strings(out)
	return out
}

// Sums: lazily computed facts about results of functions.
type Sums struct {
	mk     func() *Exec
	memo   map[sumKey]bool
	outs   map[*ssa.Function][]Outcome
	busy   map[*ssa.Function]bool
	failed map[*ssa.Function]bool
	steps  map[*ssa.Function]int
	ranges map[*ssa.Function]*intRange
}

type sumKey struct {
	fn      *ssa.Function
	i       int
	coupled bool
}

func newSums(mk func() *Exec) *Sums {
	return &Sums{mk: mk, memo: map[sumKey]bool{}, outs: map[*ssa.Function][]Outcome{}, busy: map[*ssa.Function]bool{}, failed: map[*ssa.Function]bool{}, steps: map[*ssa.Function]int{}, ranges: map[*ssa.Function]*intRange{}}
}

// run: the outcomes of a function in an arbitrary context.
func (s *Sums) run(fn *ssa.Function) ([]Outcome, bool) {
	if o, ok := s.outs[fn]; ok {
		return o, !s.failed[fn]
	}
	s.busy[fn] = true
	ex := s.mk()
	ex.sums = s
	ex.maxSteps = 300000
	ex.auto = 24
	st := ex.newRoot()
	args := ex.symArgs(fn)
	for i, p := range fn.Params {
		if assumedNonNil(p.Type()) {
			st.assumeQuiet(mkNot(mkEq(args[i], mkNil(nil))), true)
		}
	}
	outs := ex.run0(fn, args, st)
	delete(s.busy, fn)
	s.outs[fn] = outs
	s.steps[fn] = ex.steps
	if ex.dead {
		s.failed[fn] = true
		s.outs[fn] = nil
	}
	return s.outs[fn], !ex.dead
}

// size: the number of outcomes of a function.
func (s *Sums) size(fn *ssa.Function) int {
	if s.busy[fn] {
		return 0 // recursion is detected by the caller's stack
	}
	o, ok := s.run(fn)
	if !ok {
		return 1 << 30
	}
	if s.steps[fn] > 1500 && len(o) > 2 {
		return 1 << 20
	}
	return len(o)
}

// retRange: constant bounds of the (single, integer) result of a call.
func (ex *Exec) retRange(call *Term) (lo, hi int64, ok bool) {
	if ex.sums == nil {
		return
	}
	fns, k := ex.cands[call]
	if !k || len(fns) == 0 {
		return
	}
	first := true
	for _, f := range fns {
		if f.Signature.Results().Len() != 1 || ex.sums.busy[f] {
			return 0, 0, false
		}
		r, done := ex.sums.ranges[f]
		if !done {
			outs, good := ex.sums.run(f)
			r = &intRange{ok: good && len(outs) > 0}
			for i, o := range outs {
				if o.panic {
					continue
				}
				v, c := o.st.norm(o.rets[0]).intVal()
				if !c {
					r.ok = false
					break
				}
				if i == 0 || v < r.lo {
					r.lo = v
				}
				if i == 0 || v > r.hi {
					r.hi = v
				}
			}
			ex.sums.ranges[f] = r
		}
		if !r.ok {
			return 0, 0, false
		}
		if first || r.lo < lo {
			lo = r.lo
		}
		if first || r.hi > hi {
			hi = r.hi
		}
		first = false
	}
	return lo, hi, true
}

type intRange struct {
	lo, hi int64
	ok     bool
}

func (s *Sums) holds(fn *ssa.Function, i int, coupled bool) bool {
	k := sumKey{fn, i, coupled}
	if v, ok := s.memo[k]; ok {
		return v
	}
	if s.busy[fn] {
		return true // induction on the depth of the recursion
	}
	outs, ok := s.run(fn)
	if !ok {
		s.memo[k] = false
		return false
	}
	res := fn.Signature.Results()
	s.memo[k] = true // induction on the depth of the recursion
	good := true
	for _, o := range outs {
		if o.panic || i >= len(o.rets) {
			continue
		}
		if coupled {
			last := o.rets[res.Len()-1]
			if v, k := o.st.eval(mkEq(last, mkNil(nil))); k && !v {
				continue
			}
			// a path on which the error may be nil: refine
			st := o.st.clone()
			if !st.assume(mkEq(last, mkNil(nil)), true) {
				continue
			}
			if !st.nonnil(o.rets[i]) {
				good = false
			}
			continue
		}
		if !o.st.nonnil(o.rets[i]) {
			good = false
		}
	}
	s.memo[k] = good
	return good
}

func (ex *Exec) retNonNil(t *Term, i int) bool {
	if ex.sums == nil || t.typ == nil {
		return false
	}
	fns, ok := ex.cands[t]
	if !ok || len(fns) == 0 {
		return false
	}
	for _, f := range fns {
		if i >= f.Signature.Results().Len() || len(f.Blocks) == 0 {
			return false
		}
		switch f.Signature.Results().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		default:
			return false
		}
		if !ex.sums.holds(f, i, false) {
			return false
		}
	}
	return true
}

// coupled: result i of the call is non-nil whenever its error result is nil.
func (ex *Exec) coupled(call *Term, i int) bool {
	fns, ok := ex.cands[call]
	if !ok || len(fns) == 0 {
		// calls outside the library: by convention of the standard library
		return true
	}
	if ex.sums == nil {
		return false
	}
	for _, f := range fns {
		if len(f.Blocks) == 0 {
			continue
		}
		if !ex.sums.holds(f, i, true) {
			return false
		}
	}
	return true
}
