package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Which functions of the library a function value may be: a backward, flow-insensitive
// trace through local variables, captured variables, parameters of functions that are only
// called directly, results of direct calls, and unexported fields whose address never
// leaves a load or a store. Wherever the trace ends at anything else, every function of
// the signature that is ever used as a value is a candidate.

type funcVals struct {
	p       *Prog
	fstores map[string][]ssa.Value // "type.field" -> stored values
	fleak   map[string]bool        // fields whose address is used otherwise
	gstores map[*ssa.Global][]ssa.Value
	gleak   map[*ssa.Global]bool
	sites   map[*ssa.Function][]*ssa.CallCommon
	makes   map[*ssa.Function][]*ssa.MakeClosure
	value   map[*ssa.Function]bool // used as a value, or reachable through an interface
	memo    map[ssa.Value][]*ssa.Function
}

func (p *Prog) funcIndex() *funcVals {
	if p.fvals != nil {
		return p.fvals
	}
	x := &funcVals{p: p, fstores: map[string][]ssa.Value{}, fleak: map[string]bool{}, gstores: map[*ssa.Global][]ssa.Value{}, gleak: map[*ssa.Global]bool{},
		sites: map[*ssa.Function][]*ssa.CallCommon{}, makes: map[*ssa.Function][]*ssa.MakeClosure{}, value: map[*ssa.Function]bool{}, memo: map[ssa.Value][]*ssa.Function{}}
	p.fvals = x
	for _, fs := range p.taken {
		for _, f := range fs {
			x.value[f] = true
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					switch a := st.Addr.(type) {
					case *ssa.FieldAddr:
						k, _ := fieldOf(a)
						x.fstores[k] = append(x.fstores[k], st.Val)
					case *ssa.Global:
						x.gstores[a] = append(x.gstores[a], st.Val)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					x.makes[f] = append(x.makes[f], mc)
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						x.sites[f] = append(x.sites[f], ci.Common())
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if _, fun := fa.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); fun && !plainUse(fa) {
						k, _ := fieldOf(fa)
						x.fleak[k] = true
					}
				}
				for _, r := range in.Operands(nil) {
					if g, ok := (*r).(*ssa.Global); ok {
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) && st.Val != ssa.Value(g) {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						x.gleak[g] = true
					}
				}
			}
		}
	}
	return x
}

// plainUse: an address is only loaded from and stored to.
func plainUse(a ssa.Value) bool {
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch y := r.(type) {
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if y.Val == a {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// dynTargets: the functions of the library that a dynamic call may run.
func (p *Prog) dynTargets(cc *ssa.CallCommon) []*ssa.Function {
	x := p.funcIndex()
	if fs, ok := x.memo[cc.Value]; ok {
		return fs
	}
	w := &funcWalk{x: x, seen: map[ssa.Value]bool{}, out: map[*ssa.Function]bool{}}
	all := p.taken[stripNames(cc.Signature())]
	out := all
	if w.value(cc.Value) {
		out = nil
		for _, f := range all {
			if w.out[f] {
				out = append(out, f)
				delete(w.out, f)
			}
		}
		// a function that is only ever called (an immediately invoked literal) is not
		// among the functions used as values
		for _, f := range p.funcs {
			if w.out[f] {
				out = append(out, f)
			}
		}
	}
	x.memo[cc.Value] = out
	return out
}

type funcWalk struct {
	x    *funcVals
	seen map[ssa.Value]bool
	out  map[*ssa.Function]bool
}

func (w *funcWalk) all(vs []ssa.Value) bool {
	for _, v := range vs {
		if !w.value(v) {
			return false
		}
	}
	return true
}

func (w *funcWalk) value(v ssa.Value) bool {
	if w.seen[v] {
		return true
	}
	w.seen[v] = true
	switch y := v.(type) {
	case *ssa.Const:
		return y.Value == nil
	case *ssa.Function:
		w.out[y] = true
		return true
	case *ssa.MakeClosure:
		f := y.Fn.(*ssa.Function)
		w.out[f] = true
		return true
	case *ssa.Phi:
		return w.all(y.Edges)
	case *ssa.ChangeType:
		return w.value(y.X)
	case *ssa.FreeVar:
		i := fvIndex(y)
		ms := w.x.makes[y.Parent()]
		if i < 0 || len(ms) == 0 {
			return false
		}
		for _, m := range ms {
			if !w.value(m.Bindings[i]) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return false
		}
		return w.loc(y.X)
	case *ssa.Parameter:
		f := y.Parent()
		ss := w.x.sites[f]
		if w.x.value[f] || len(ss) == 0 || ssaExported(f) || f.Signature.Recv() != nil {
			return false
		}
		for i, q := range f.Params {
			if q != y {
				continue
			}
			for _, c := range ss {
				if i >= len(c.Args) || !w.value(c.Args[i]) {
					return false
				}
			}
			return true
		}
		return false
	case *ssa.Call:
		return w.result(y.Common(), 0)
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return w.result(c.Common(), y.Index)
		}
	}
	return false
}

func (w *funcWalk) result(c *ssa.CallCommon, n int) bool {
	f := c.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || f.Recover != nil {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if n >= len(r.Results) || !w.value(r.Results[n]) {
				return false
			}
		}
	}
	return true
}

// loc: whatever may be stored at an address.
func (w *funcWalk) loc(a ssa.Value) bool {
	switch y := a.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return w.cell(a, map[ssa.Value]bool{})
	case *ssa.FieldAddr:
		k, exp := fieldOf(y)
		if exp || w.x.fleak[k] {
			return false
		}
		st := y.X.Type().Underlying().(*types.Pointer).Elem()
		if _, named := st.(*types.Named); !named {
			return false
		}
		return w.all(w.x.fstores[k])
	case *ssa.Global:
		if y.Object() == nil || y.Object().Exported() || w.x.gleak[y] {
			return false
		}
		return w.all(w.x.gstores[y])
	}
	return false
}

// cell: a local variable, followed into the literals that capture it.
func (w *funcWalk) cell(a ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	if fv, ok := a.(*ssa.FreeVar); ok {
		ms, i := w.x.makes[fv.Parent()], fvIndex(fv)
		if i < 0 || len(ms) == 0 {
			return false
		}
		for _, m := range ms {
			switch m.Bindings[i].(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				if !w.cell(m.Bindings[i], seen) {
					return false
				}
			default:
				return false
			}
		}
	}
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch y := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if y.Val == a || !w.value(y.Val) {
				return false
			}
		case *ssa.MakeClosure:
			f := y.Fn.(*ssa.Function)
			for i, bd := range y.Bindings {
				if bd == a && !w.cell(f.FreeVars[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func fvIndex(fv *ssa.FreeVar) int {
	for i, q := range fv.Parent().FreeVars {
		if q == fv {
			return i
		}
	}
	return -1
}

func ssaExported(f *ssa.Function) bool {
	return f.Object() == nil && f.Parent() == nil || f.Object() != nil && f.Object().Exported()
}

// calledThrough: a pointer is put into an interface through which the library may call its
// methods: an interface with methods, or one that is asserted to such an interface later.
func (p *Prog) calledThrough(in *ssa.MakeInterface) bool {
	if _, ok := in.X.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	if i, ok := in.Type().Underlying().(*types.Interface); ok && i.NumMethods() > 0 {
		return true
	}
	if p.asserted == nil {
		p.asserted = map[*types.Interface]bool{}
		for _, fn := range p.funcs {
			if !inRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, x := range b.Instrs {
					if ta, ok := x.(*ssa.TypeAssert); ok {
						if i, ok := ta.AssertedType.Underlying().(*types.Interface); ok && i.NumMethods() > 0 {
							p.asserted[i] = true
						}
					}
				}
			}
		}
	}
	for i := range p.asserted {
		if types.Implements(in.X.Type(), i) {
			return true
		}
	}
	return false
}

// runsLater: a function literal is stored or passed on, not just called where it stands.
func (c *Ctx) runsLater(fn *ssa.Function) bool {
	if len(fn.FreeVars) == 0 {
		for _, f := range c.p.taken[stripNames(fn.Signature)] {
			if f == fn {
				return true
			}
		}
		return false
	}
	for _, m := range c.p.funcIndex().makes[fn] {
		for _, r := range *m.Referrers() {
			if ci, ok := r.(ssa.CallInstruction); !ok || ci.Common().Value != ssa.Value(m) {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					return true
				}
			}
		}
	}
	return false
}
