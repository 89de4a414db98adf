package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Provenance: a backward, flow-insensitive, interprocedural analysis of where a value may
// come from. A source is a constant, an exported field (set by the host), a result of an
// external function, a parameter of an exported function that nothing in the library
// calls, or an allocation. Unexported fields and variables expand to everything the
// library stores there; parameters to the arguments of every call in the library.

type Prov struct {
	p       *Prog
	mods    *Mods
	stores  map[string][]ssa.Value       // "type.field" -> stored values
	gstores map[*ssa.Global][]ssa.Value  // package-level variable -> stored values
	callers map[*ssa.Function][]callSite // call sites in the library
	lstores map[ssa.Value][]ssa.Value    // local variable -> stored values
}

type callSite struct {
	in ssa.CallInstruction
	c  *ssa.CallCommon
}

type Source struct {
	kind string // const, field, ext, param, alloc, op
	what string
	v    ssa.Value
	path []string // for concatenations: following pieces
}

func (s Source) String() string {
	x := s.kind + " " + s.what
	if len(s.path) > 0 {
		x += " + " + strings.Join(s.path, " + ")
	}
	return x
}

func newProv(c *Ctx) *Prov {
	p := &Prov{p: c.p, mods: c.mod, stores: map[string][]ssa.Value{}, gstores: map[*ssa.Global][]ssa.Value{}, callers: map[*ssa.Function][]callSite{}, lstores: map[ssa.Value][]ssa.Value{}}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					p.store(x.Addr, x.Val)
				case ssa.CallInstruction:
					cc := x.Common()
					if f := cc.StaticCallee(); f != nil {
						p.callers[f] = append(p.callers[f], callSite{x, cc})
					} else if cc.IsInvoke() {
						for _, f := range c.mod.targetsAt(cc) {
							p.callers[f] = append(p.callers[f], callSite{x, cc})
						}
					} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
						for _, f := range c.p.dynTargets(cc) {
							p.callers[f] = append(p.callers[f], callSite{x, cc})
						}
					}
				}
			}
		}
	}
	return p
}

func fieldOf(a *ssa.FieldAddr) (string, bool) {
	st := a.X.Type().Underlying().(*types.Pointer).Elem()
	f := st.Underlying().(*types.Struct).Field(a.Field)
	return typeStr(st) + "." + f.Name(), f.Exported()
}

func (p *Prov) store(a, v ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		k, _ := fieldOf(x)
		p.stores[k] = append(p.stores[k], v)
	case *ssa.Global:
		p.gstores[x] = append(p.gstores[x], v)
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter:
		p.lstores[a] = append(p.lstores[a], v)
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL { // whole struct copied
			_ = u
		}
	}
}

type provWalk struct {
	seen map[ssa.Value]bool
	out  map[string]Source
}

func (p *Prov) sources(v ssa.Value) []Source {
	w := &provWalk{seen: map[ssa.Value]bool{}, out: map[string]Source{}}
	p.walk(w, v)
	var ks []string
	for k := range w.out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []Source
	for _, k := range ks {
		out = append(out, w.out[k])
	}
	return out
}

func (w *provWalk) add(s Source) { w.out[s.String()+fmt.Sprintf("%p", s.v)] = s }

func (p *Prov) walk(w *provWalk, v ssa.Value) {
	if v == nil || w.seen[v] {
		return
	}
	w.seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		s := "nil"
		if x.Value != nil {
			s = x.Value.ExactString()
		}
		w.add(Source{kind: "const", what: s})
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.walk(w, e)
		}
	case *ssa.ChangeType:
		p.walk(w, x.X)
	case *ssa.ChangeInterface:
		p.walk(w, x.X)
	case *ssa.MakeInterface:
		p.walk(w, x.X)
	case *ssa.TypeAssert:
		p.walk(w, x.X)
	case *ssa.Convert:
		p.walk(w, x.X)
	case *ssa.Slice:
		if isStringType(x.X.Type()) {
			w.add(Source{kind: "op", what: "part of a string", v: x})
			return
		}
		p.walk(w, x.X)
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringType(x.Type()) {
			p.concat(w, x, x.X, []ssa.Value{x.Y})
			return
		}
		w.add(Source{kind: "op", what: x.Op.String(), v: x})
	case *ssa.UnOp:
		if x.Op != token.MUL {
			w.add(Source{kind: "op", what: x.Op.String(), v: x})
			return
		}
		p.addr(w, x.X)
	case *ssa.Field:
		st := x.X.Type()
		f := st.Underlying().(*types.Struct).Field(x.Field)
		p.field(w, typeStr(st)+"."+f.Name(), f.Exported(), x)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			p.callResult(w, c, x.Index)
			return
		}
		p.walk(w, x.Tuple)
	case *ssa.Call:
		p.callResult(w, x, 0)
	case *ssa.Parameter:
		fn := x.Parent()
		i := -1
		for k, q := range fn.Params {
			if q == x {
				i = k
			}
		}
		n := 0
		for _, cs := range p.callers[fn] {
			j := i
			if cs.c.IsInvoke() {
				j--
				if j < 0 {
					p.walk(w, cs.c.Value)
					n++
					continue
				}
			}
			if j < len(cs.c.Args) {
				p.walk(w, cs.c.Args[j])
				n++
			}
		}
		if n == 0 || exportedName(fn.Name()) && fn.Parent() == nil && recvExported(fn) {
			w.add(Source{kind: "param", what: relName(fn) + " " + x.Name(), v: x})
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			for _, g := range p.p.funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							p.walk(w, mc.Bindings[i])
						}
					}
				}
			}
		}
	case *ssa.Alloc:
		w.add(Source{kind: "alloc", what: typeStr(x.Type()), v: x})
	case *ssa.Global:
		w.add(Source{kind: "global", what: x.Name(), v: x})
	case *ssa.Lookup:
		w.add(Source{kind: "element", what: typeStr(x.X.Type()), v: x})
	default:
		w.add(Source{kind: "op", what: fmt.Sprintf("%T", v), v: v})
	}
}

func recvExported(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return true
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

func (p *Prov) concat(w *provWalk, at, first ssa.Value, rest []ssa.Value) {
	var tail []string
	for _, r := range rest {
		var alts []string
		for _, s := range p.sources(r) {
			alts = append(alts, s.String())
		}
		tail = append(tail, strings.Join(alts, "|"))
	}
	for _, s := range p.sources(first) {
		s.path = append(append([]string{}, s.path...), tail...)
		w.add(s)
	}
}

func (p *Prov) field(w *provWalk, k string, exported bool, v ssa.Value) {
	if exported {
		w.add(Source{kind: "field", what: k, v: v})
		return
	}
	for _, s := range p.stores[k] {
		p.walk(w, s)
	}
	if len(p.stores[k]) == 0 {
		w.add(Source{kind: "const", what: "zero"})
	}
}

func (p *Prov) addr(w *provWalk, a ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		k, exp := fieldOf(x)
		p.field(w, k, exp, x)
	case *ssa.Global:
		if x.Pkg != nil && strings.HasPrefix(x.Pkg.Pkg.Path(), repoMod) && !exportedName(x.Name()) {
			for _, s := range p.gstores[x] {
				p.walk(w, s)
			}
			return
		}
		w.add(Source{kind: "global", what: x.String(), v: x})
	case *ssa.Alloc:
		for _, s := range p.lstores[a] {
			p.walk(w, s)
		}
		// written through closures
		for _, r := range *x.Referrers() {
			if mc, ok := r.(*ssa.MakeClosure); ok {
				for i, b := range mc.Bindings {
					if b == a {
						for _, s := range p.lstores[mc.Fn.(*ssa.Function).FreeVars[i]] {
							p.walk(w, s)
						}
					}
				}
			}
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for _, s := range p.lstores[a] {
			p.walk(w, s)
		}
		for i, fv := range fn.FreeVars {
			if fv == x {
				for _, g := range p.p.funcs {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
								p.addr(w, mc.Bindings[i])
							}
						}
					}
				}
			}
		}
	case *ssa.IndexAddr:
		w.add(Source{kind: "element", what: typeStr(x.X.Type()), v: x})
	default:
		w.add(Source{kind: "op", what: fmt.Sprintf("load through %T", a), v: a})
	}
}

func (p *Prov) callResult(w *provWalk, c *ssa.Call, i int) {
	if f := c.Call.StaticCallee(); f != nil {
		if inRepo(f) {
			p.returned(w, f, i)
			return
		}
		n := fullName(f)
		if n == "path/filepath.Join" || n == "path.Join" {
			if vs := variadic(c.Call.Args); len(vs) > 0 {
				p.concat(w, c, vs[0], vs[1:])
				return
			}
		}
		if n == "path/filepath.Clean" || n == "path.Clean" || n == "strings.TrimSuffix" || n == "strings.TrimRight" || n == "path/filepath.FromSlash" || n == "path/filepath.ToSlash" {
			p.walk(w, c.Call.Args[0])
			return
		}
		w.add(Source{kind: "ext", what: n, v: c})
		return
	}
	if c.Call.IsInvoke() {
		n := 0
		for _, f := range p.mods.targetsAt(&c.Call) {
			if inRepo(f) {
				p.returned(w, f, i)
				n++
			}
		}
		if n == 0 {
			w.add(Source{kind: "ext", what: invokeName(c.Call.Method), v: c})
		}
		return
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		w.add(Source{kind: "op", what: b.Name(), v: c})
		return
	}
	for _, f := range p.p.dynTargets(&c.Call) {
		if inRepo(f) {
			p.returned(w, f, i)
		}
	}
}

func (p *Prov) returned(w *provWalk, f *ssa.Function, i int) {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			p.walk(w, r.Results[i])
		}
	}
}

// variadic: the elements of a variadic argument slice built at the call.
func variadic(args []ssa.Value) []ssa.Value {
	if len(args) == 0 {
		return nil
	}
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok {
				m[int(k.Int64())] = s.Val
			}
		}
	}
	var out []ssa.Value
	for i := 0; i < len(m); i++ {
		out = append(out, m[i])
	}
	return out
}
