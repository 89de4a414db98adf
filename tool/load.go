package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/senghoo/modsecurity-go"

type Prog struct {
	dir   string
	fset  *token.FileSet
	ssa   *ssa.Program
	pkgs  map[string]*ssa.Package // by path relative to the module ("modsecurity", ...)
	all   []*ssa.Package
	funcs []*ssa.Function // every function of the library with a body, sorted by position
	named []*types.Named
	// address-taken functions by signature key
	taken map[string][]*ssa.Function
	nfile int
	fvals *funcVals
	// interfaces with methods that the library asserts values to
	asserted map[*types.Interface]bool
}

func loadRepo(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, repoMod) {
				msgs = append(msgs, e.Error())
			}
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("cannot analyse: %s", strings.Join(msgs, "; "))
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{dir: dir, fset: prog.Fset, ssa: prog, pkgs: map[string]*ssa.Package{}, taken: map[string][]*ssa.Function{}}
	for i, sp := range ps {
		if sp == nil {
			if pkgs[i].Name != "" && len(pkgs[i].GoFiles) > 0 {
				return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
			}
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(sp.Pkg.Path(), repoMod), "/")
		p.pkgs[rel] = sp
		p.all = append(p.all, sp)
		p.nfile += len(pkgs[i].GoFiles)
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].Pkg.Path() < p.all[j].Pkg.Path() })
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 {
			continue
		}
		p.funcs = append(p.funcs, fn)
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, sp := range p.all {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if tn, ok := sp.Members[n].(*ssa.Type); ok {
				if nm, ok := tn.Type().(*types.Named); ok {
					p.named = append(p.named, nm)
				}
			}
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				rands := in.Operands(ops[:0])
				callee := ssa.Value(nil)
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, r := range rands {
					if r == nil || *r == nil {
						continue
					}
					f, ok := (*r).(*ssa.Function)
					if !ok {
						continue
					}
					if *r == callee {
						continue
					}
					p.addTaken(f)
				}
			}
		}
	}
	return p, nil
}

func sigKey(s *types.Signature) string {
	s2 := types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
	return types.TypeString(s2, func(*types.Package) string { return "" }) + "|" + stripNames(s2)
}

func stripNames(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(typeStr(s.Params().At(i).Type()) + ",")
	}
	b.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(typeStr(s.Results().At(i).Type()) + ",")
	}
	return b.String()
}

func (p *Prog) addTaken(f *ssa.Function) {
	k := stripNames(f.Signature)
	for _, g := range p.taken[k] {
		if g == f {
			return
		}
	}
	p.taken[k] = append(p.taken[k], f)
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// instrPos finds a position for an instruction, falling back to its neighbours.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	b := in.Block()
	if b != nil {
		seen := false
		for _, x := range b.Instrs {
			if x == in {
				seen = true
			}
			if seen && x.Pos().IsValid() {
				return p.pos(x.Pos())
			}
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
	}
	if in.Parent() != nil {
		return p.pos(in.Parent().Pos())
	}
	return "?"
}

// relName: short stable name of a function of the library.
func relName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, repoMod+"/", "")
	return s
}

func inRepo(fn *ssa.Function) bool { return fn != nil && len(fn.Blocks) > 0 }

func repoPkgOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), repoMod), "/")
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.TrimPrefix(strings.TrimPrefix(o.Pkg().Path(), repoMod), "/")
		}
	}
	return ""
}

func isRepoType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoMod)
}

// fn lookup helpers -------------------------------------------------

func (p *Prog) fnByName(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) global(pkg, name string) *ssa.Global {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name].(*ssa.Global)
	return g
}

func (p *Prog) typ(pkg, name string) *types.Named {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	m, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

func (p *Prog) method(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	base := t
	if pt, ok := t.(*types.Pointer); ok {
		base = pt.Elem()
	}
	if n, ok := base.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// ptrMethod: method of *T.
func (p *Prog) ptrMethod(pkg, typ, name string) *ssa.Function {
	n := p.typ(pkg, typ)
	if n == nil {
		return nil
	}
	return p.method(types.NewPointer(n), name)
}

func (p *Prog) iface(pkg, name string) *types.Interface {
	n := p.typ(pkg, name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

// implementers: named types T such that T or *T implements the interface.
func (p *Prog) implementers(i *types.Interface) []types.Type {
	var out []types.Type
	for _, n := range p.named {
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(n, i) {
			out = append(out, n)
		} else if types.Implements(types.NewPointer(n), i) {
			out = append(out, types.NewPointer(n))
		}
	}
	return out
}
