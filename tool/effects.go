package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: an inclusion-based (Andersen), field-sensitive, flow- and
// context-insensitive points-to analysis over the functions reachable from a set of root
// functions, with symbolic objects for the memory the roots are given, and the list of
// every write, external call and goroutine start with the objects it may touch.

type objKind uint8

const (
	oAlloc  objKind = iota // allocated by library code in the analysed functions
	oExt                   // allocated by an external function
	oShared                // configuration: engine, rule set and everything reachable from them
	oGlobal                // package-level variables and everything reachable from them
	oHost                  // URL and header maps of the host
	oBytes                 // body bytes of the host
	oOther                 // other values of the host (errors, interface values)
	oFunc
)

var objKindName = map[objKind]string{oAlloc: "own object", oExt: "library result", oShared: "shared configuration", oGlobal: "package-level state", oHost: "URL or header of the host", oBytes: "body bytes of the host", oOther: "host value", oFunc: "function"}

type EObj struct {
	id    int
	kind  objKind
	label string
	typ   types.Type // element type of the allocation
	in    ssa.Instruction
	fn    *ssa.Function // oFunc
}

func (o *EObj) blob() bool {
	return o.kind != oAlloc && o.kind != oFunc
}

type eloc struct {
	o    *EObj
	path string
}

type locset map[eloc]bool

type enode struct {
	v    ssa.Value // register
	o    *EObj     // or location
	path string
	ret  *ssa.Function // or result i of a function
	i    int
}

type Eff struct {
	kind string // "write", "call", "go", "send"
	in   ssa.Instruction
	fn   *ssa.Function
	locs locset
	ext  string // name of the external function
	what string
}

type Effects struct {
	p                                  *Prog
	mods                               *Mods
	roots                              []*ssa.Function
	reached                            map[*ssa.Function]bool
	order                              []*ssa.Function
	pts                                map[enode]locset
	byObj                              map[*EObj]map[string]bool // paths with content
	allocs                             map[ssa.Value]*EObj
	exts                               map[ssa.Instruction]*EObj
	funcs                              map[*ssa.Function]*EObj
	objs                               []*EObj
	changed                            bool
	effs                               map[string]*Eff
	shared, global, host, bytes, other *EObj
	trType                             types.Type
	calls                              map[*ssa.Function]map[*ssa.Function]bool
	unres                              map[string]string
}

func newEffects(c *Ctx) *Effects {
	e := &Effects{p: c.p, mods: c.mod, reached: map[*ssa.Function]bool{}, pts: map[enode]locset{}, byObj: map[*EObj]map[string]bool{}, allocs: map[ssa.Value]*EObj{}, exts: map[ssa.Instruction]*EObj{}, funcs: map[*ssa.Function]*EObj{}, effs: map[string]*Eff{}, calls: map[*ssa.Function]map[*ssa.Function]bool{}, unres: map[string]string{}}
	e.shared = e.newObj(oShared, "shared configuration", nil, nil)
	e.global = e.newObj(oGlobal, "package-level variables", nil, nil)
	e.host = e.newObj(oHost, "URL or headers of the host", nil, nil)
	e.bytes = e.newObj(oBytes, "body bytes of the host", nil, nil)
	e.other = e.newObj(oOther, "values of the host", nil, nil)
	return e
}

func (e *Effects) newObj(k objKind, label string, t types.Type, in ssa.Instruction) *EObj {
	o := &EObj{id: len(e.objs), kind: k, label: label, typ: t, in: in}
	e.objs = append(e.objs, o)
	return o
}

func holdsRef(t types.Type) bool { return holdsRef1(t, 0) }

func holdsRef1(t types.Type, d int) bool {
	if t == nil || d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRef1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsRef1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsRef1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (e *Effects) add(n enode, l eloc) {
	s := e.pts[n]
	if s == nil {
		s = locset{}
		e.pts[n] = s
	}
	if !s[l] {
		s[l] = true
		e.changed = true
		if n.o != nil {
			m := e.byObj[n.o]
			if m == nil {
				m = map[string]bool{}
				e.byObj[n.o] = m
			}
			m[n.path] = true
		}
	}
}

func (e *Effects) addAll(n enode, ls locset) {
	for l := range ls {
		e.add(n, l)
	}
}

func (e *Effects) fobj(f *ssa.Function) *EObj {
	o := e.funcs[f]
	if o == nil {
		o = e.newObj(oFunc, relName(f), nil, nil)
		o.fn = f
		e.funcs[f] = o
	}
	return o
}

// of: the locations a register may refer to.
func (e *Effects) of(v ssa.Value) locset {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return locset{eloc{e.global, ""}: true}
	case *ssa.Function:
		return locset{eloc{e.fobj(x), ""}: true}
	}
	return e.pts[enode{v: v}]
}

// load: what is stored at a location (including nested or enclosing aggregates).
func (e *Effects) load(l eloc) locset {
	if l.o.blob() {
		return locset{eloc{l.o, ""}: true}
	}
	out := locset{}
	for p := range e.byObj[l.o] {
		if p == l.path || strings.HasPrefix(p, l.path) && nested(p[len(l.path):]) || strings.HasPrefix(l.path, p) && nested(l.path[len(p):]) {
			for x := range e.pts[enode{o: l.o, path: p}] {
				out[x] = true
			}
		}
	}
	return out
}

func nested(rest string) bool {
	return rest == "" || rest[0] == '.' || rest[0] == '[' || rest[0] == '{'
}

func (e *Effects) effect(kind string, in ssa.Instruction, locs locset, ext, what string) {
	k := fmt.Sprintf("%s|%p|%s|%s", kind, in, ext, what)
	f := e.effs[k]
	if f == nil {
		f = &Eff{kind: kind, in: in, fn: in.Parent(), locs: locset{}, ext: ext, what: what}
		e.effs[k] = f
	}
	for l := range locs {
		f.locs[l] = true
	}
}

func (e *Effects) sub(ls locset, p string) locset {
	out := locset{}
	for l := range ls {
		if l.o.blob() {
			out[eloc{l.o, ""}] = true
		} else {
			np := l.path + p
			if strings.Count(np, "[]")+strings.Count(np, ".")+strings.Count(np, "{}") > 8 {
				np = l.path
			}
			out[eloc{l.o, np}] = true
		}
	}
	return out
}

func (e *Effects) reach(from *ssa.Function, f *ssa.Function) {
	if from != nil {
		m := e.calls[from]
		if m == nil {
			m = map[*ssa.Function]bool{}
			e.calls[from] = m
		}
		m[f] = true
	}
	if e.reached[f] {
		return
	}
	e.reached[f] = true
	e.order = append(e.order, f)
	e.changed = true
}

// root: an entry point called by the host with symbolic arguments.
func (e *Effects) root(fn *ssa.Function) {
	e.roots = append(e.roots, fn)
	e.reach(nil, fn)
}

func (e *Effects) seedRoots() {
	for _, fn := range e.roots {
		for _, p := range fn.Params {
			t := p.Type()
			if !holdsRef(t) {
				continue
			}
			n := enode{v: p}
			switch {
			case isTransaction(t):
				for _, o := range e.objs {
					if o.kind == oAlloc && o.typ != nil && types.Identical(o.typ, e.trType) {
						e.add(n, eloc{o, ""})
					}
				}
			case isRepoType(t):
				// results the host got from the library (verdicts) or configuration
				if isIntervention(t) {
					e.add(n, eloc{e.other, ""})
				} else {
					e.add(n, eloc{e.shared, ""})
				}
			case isByteSlice(t):
				e.add(n, eloc{e.bytes, ""})
			default:
				if _, ok := t.Underlying().(*types.Interface); ok {
					e.add(n, eloc{e.other, ""})
				} else if s, ok := t.Underlying().(*types.Slice); ok && !isMapOrPtr(s.Elem()) {
					e.add(n, eloc{e.other, ""})
				} else {
					e.add(n, eloc{e.host, ""})
				}
			}
		}
	}
}

func isMapOrPtr(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Pointer:
		return true
	}
	return false
}

func namedIs(t types.Type, pkg, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isTransaction(t types.Type) bool  { return namedIs(t, repoMod+"/modsecurity", "Transaction") }
func isIntervention(t types.Type) bool { return namedIs(t, repoMod+"/modsecurity", "Intervention") }

func (e *Effects) solve() {
	if nt := e.p.typ("modsecurity", "Transaction"); nt != nil {
		e.trType = nt
	}
	for i := 0; ; i++ {
		e.changed = false
		e.seedRoots()
		for j := 0; j < len(e.order); j++ {
			e.scan(e.order[j])
		}
		if !e.changed || i > 300 {
			break
		}
	}
}

func (e *Effects) alloc(v ssa.Value, in ssa.Instruction, t types.Type) *EObj {
	o := e.allocs[v]
	if o == nil {
		o = e.newObj(oAlloc, fmt.Sprintf("%s allocated at %s", typeStr(v.Type()), e.p.instrPos(in)), t, in)
		e.allocs[v] = o
	}
	return o
}

func (e *Effects) extObj(in ssa.Instruction, name string) *EObj {
	o := e.exts[in]
	if o == nil {
		o = e.newObj(oExt, "result of "+name+" at "+e.p.instrPos(in), nil, in)
		e.exts[in] = o
	}
	return o
}

func (e *Effects) store(in ssa.Instruction, addr locset, val locset, what string) {
	e.effect("write", in, addr, "", what)
	for a := range addr {
		for v := range val {
			e.add(enode{o: a.o, path: a.path}, v)
		}
	}
}

func (e *Effects) scan(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			e.instr(fn, in)
		}
	}
}

func (e *Effects) instr(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		e.add(enode{v: x}, eloc{e.alloc(x, in, t), ""})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		e.add(enode{v: v}, eloc{e.alloc(v, in, nil), ""})
	case *ssa.MakeClosure:
		o := e.alloc(x, in, nil)
		o.fn = x.Fn.(*ssa.Function)
		e.add(enode{v: x}, eloc{o, ""})
		for i, b := range x.Bindings {
			e.addAll(enode{o: o, path: fmt.Sprintf(".b%d", i)}, e.of(b))
			e.addAll(enode{v: o.fn.FreeVars[i]}, e.of(b))
		}
	case *ssa.FieldAddr:
		e.addAll(enode{v: x}, e.sub(e.of(x.X), fmt.Sprintf(".f%d", x.Field)))
	case *ssa.IndexAddr:
		e.addAll(enode{v: x}, e.sub(e.of(x.X), "[]"))
	case *ssa.Field:
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.Index:
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.Slice:
		if isStringType(x.X.Type()) {
			return
		}
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if !holdsRef(x.Type()) {
				return
			}
			for l := range e.of(x.X) {
				e.addAll(enode{v: x}, e.load(l))
			}
		case token.ARROW:
			e.effect("receive", in, nil, "", "channel receive")
			for l := range e.of(x.X) {
				e.addAll(enode{v: x}, e.load(l))
			}
		}
	case *ssa.Store:
		e.store(in, e.of(x.Addr), e.of(x.Val), "assignment")
	case *ssa.MapUpdate:
		ls := locset{}
		for l := range e.of(x.Map) {
			for s := range e.sub(locset{l: true}, "{}") {
				ls[s] = true
			}
		}
		e.store(in, ls, e.of(x.Value), "map update")
		for l := range e.of(x.Map) {
			e.addAll(enode{o: l.o, path: l.path + "{k}"}, e.of(x.Key))
		}
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			return
		}
		for l := range e.sub(e.of(x.X), "{}") {
			e.addAll(enode{v: x}, e.load(l))
		}
	case *ssa.Range:
		if isStringType(x.X.Type()) {
			return
		}
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.Next:
		for l := range e.of(x.Iter) {
			e.addAll(enode{v: x}, e.load(eloc{l.o, pth(l, "{}")}))
			e.addAll(enode{v: x}, e.load(eloc{l.o, pth(l, "{k}")}))
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if !holdsRef(x.Type()) {
				return
			}
			if s, ok := e.pts[enode{v: c, i: x.Index + 1}]; ok {
				e.addAll(enode{v: x}, s)
			}
			e.addAll(enode{v: x}, e.pts[enode{v: c}])
			return
		}
		if holdsRef(x.Type()) {
			e.addAll(enode{v: x}, e.of(x.Tuple))
		}
	case *ssa.Phi:
		for _, v := range x.Edges {
			e.addAll(enode{v: x}, e.of(v))
		}
	case *ssa.ChangeType:
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.ChangeInterface:
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.MakeInterface:
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.TypeAssert:
		if holdsRef(x.AssertedType) {
			e.addAll(enode{v: x}, e.of(x.X))
		}
	case *ssa.SliceToArrayPointer:
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.Convert:
		if isStringType(x.X.Type()) || isStringType(x.Type()) {
			if holdsRef(x.Type()) {
				e.add(enode{v: x}, eloc{e.alloc(x, in, nil), ""})
			}
			return
		}
		e.addAll(enode{v: x}, e.of(x.X))
	case *ssa.Return:
		for i, v := range x.Results {
			e.addAll(enode{ret: fn, i: i}, e.of(v))
		}
	case *ssa.Go:
		e.effect("go", in, nil, "", "goroutine started")
		e.call(fn, in, x.Common(), nil)
	case *ssa.Defer:
		e.call(fn, in, x.Common(), nil)
	case *ssa.Call:
		e.call(fn, in, x.Common(), x)
	case *ssa.Send:
		e.effect("send", in, e.of(x.Chan), "", "channel send")
	case *ssa.Select:
		e.effect("select", in, nil, "", "select")
	case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.RunDefers, *ssa.Panic, *ssa.DebugRef:
	default:
		e.unres[fmt.Sprintf("%T", in)] = e.p.instrPos(in)
	}
}

func pth(l eloc, s string) string {
	if l.o.blob() {
		return ""
	}
	return l.path + s
}

func (e *Effects) bindResults(call ssa.Value, f *ssa.Function) {
	if call == nil {
		return
	}
	n := f.Signature.Results().Len()
	if n == 1 {
		if holdsRef(call.Type()) {
			e.addAll(enode{v: call}, e.pts[enode{ret: f, i: 0}])
		}
		return
	}
	for i := 0; i < n; i++ {
		if holdsRef(f.Signature.Results().At(i).Type()) {
			e.addAll(enode{v: call, i: i + 1}, e.pts[enode{ret: f, i: i}])
		}
	}
}

// into: a call of a library function.
func (e *Effects) into(fn *ssa.Function, in ssa.Instruction, f *ssa.Function, args []locset, call ssa.Value) {
	e.reach(fn, f)
	for i, p := range f.Params {
		if i < len(args) && holdsRef(p.Type()) {
			e.addAll(enode{v: p}, args[i])
		}
	}
	e.bindResults(call, f)
}

func (e *Effects) call(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, call *ssa.Call) {
	var cv ssa.Value
	if call != nil {
		cv = call
	}
	var args []locset
	for _, a := range c.Args {
		args = append(args, e.of(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(in, b.Name(), c, args, cv)
		return
	}
	if c.IsInvoke() {
		recv := e.of(c.Value)
		all := append([]locset{recv}, args...)
		targets := e.mods.invokeTargets(c.Method)
		lib := 0
		for _, f := range targets {
			if inRepo(f) {
				e.into(fn, in, f, all, cv)
				lib++
			}
		}
		if c.Method.Pkg() == nil || !strings.HasPrefix(c.Method.Pkg().Path(), repoMod) || lib == 0 {
			e.external(fn, in, invokeName(c.Method), c, all, nil, cv)
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		if inRepo(f) {
			e.into(fn, in, f, args, cv)
			return
		}
		e.external(fn, in, fullName(f), c, args, f, cv)
		return
	}
	// a function value
	n := 0
	anyBlob := false
	for l := range e.of(c.Value) {
		switch {
		case l.o.fn != nil:
			n++
			if inRepo(l.o.fn) {
				e.into(fn, in, l.o.fn, args, cv)
			} else {
				e.external(fn, in, fullName(l.o.fn), c, args, l.o.fn, cv)
			}
		case l.o.blob():
			anyBlob = true
			for _, f := range e.p.dynTargets(c) {
				n++
				if inRepo(f) {
					for _, fv := range f.FreeVars {
						e.add(enode{v: fv}, eloc{l.o, ""})
					}
					e.into(fn, in, f, args, cv)
				} else {
					e.external(fn, in, fullName(f), c, args, f, cv)
				}
			}
		}
	}
	_ = anyBlob
}

func (e *Effects) builtin(in ssa.Instruction, name string, c *ssa.CallCommon, args []locset, call ssa.Value) {
	switch name {
	case "append":
		if len(args) == 0 || call == nil {
			return
		}
		o := e.alloc(call, in, nil)
		e.addAll(enode{v: call}, args[0])
		e.add(enode{v: call}, eloc{o, ""})
		dst := e.sub(args[0], "[]")
		if len(args[0]) > 0 {
			e.effect("write", in, dst, "", "append may write into the backing array")
		}
		src := locset{}
		if len(args) > 1 {
			for l := range e.sub(args[1], "[]") {
				for x := range e.load(l) {
					src[x] = true
				}
			}
		}
		for l := range dst {
			for x := range e.load(l) {
				e.add(enode{o: o, path: "[]"}, x)
			}
		}
		if st, ok := call.Type().Underlying().(*types.Slice); ok && holdsRef(st.Elem()) {
			for x := range src {
				e.add(enode{o: o, path: "[]"}, x)
				for l := range dst {
					e.add(enode{o: l.o, path: l.path}, x)
				}
			}
		}
	case "copy":
		dst := e.sub(args[0], "[]")
		e.effect("write", in, dst, "", "copy")
		if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && holdsRef(st.Elem()) {
			for l := range e.sub(args[1], "[]") {
				for x := range e.load(l) {
					for d := range dst {
						e.add(enode{o: d.o, path: d.path}, x)
					}
				}
			}
		}
	case "delete", "clear", "close":
		e.effect("write", in, e.sub(args[0], "{}"), "", name)
	case "recover":
		if call != nil {
			e.add(enode{v: call}, eloc{e.other, ""})
		}
	}
}

// what external functions may write, retain and return

// extReadOnly: the function writes none of its arguments.
func extReadOnly(name string) bool {
	switch name {
	case "unicode/utf8.EncodeRune", "strings.NewReplacer":
		return name == "strings.NewReplacer"
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "fmt.Sscanf", "fmt.Sscan", "fmt.Sscanln", "fmt.Fscan", "fmt.Fscanf", "fmt.Fscanln":
		return false
	}
	if r := recvOf(name); r != "" {
		m := name[strings.LastIndex(name, ".")+1:]
		switch r {
		case "*regexp.Regexp":
			return m != "Longest" && m != "UnmarshalText"
		case "*net/url.URL":
			return m != "UnmarshalBinary"
		case "net/url.Values", "net/http.Header", "net/textproto.MIMEHeader":
			return m != "Set" && m != "Add" && m != "Del"
		case "*net/url.Userinfo", "net.IP", "net.IPMask", "*net.IPNet", "time.Time", "time.Duration", "reflect.Type", "error", "fmt.Stringer", "*bytes.Buffer":
			if r == "*bytes.Buffer" {
				return m == "Bytes" || m == "String" || m == "Len" || m == "Cap" || m == "Available"
			}
			return true
		case "*strings.Builder":
			return m == "String" || m == "Len" || m == "Cap"
		case "*bytes.Reader", "*strings.Reader":
			return m == "Len" || m == "Size"
		case "*os.File":
			return m == "Name" || m == "Fd"
		case "*strings.Replacer":
			return m != "WriteString"
		}
		return false
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return false
	}
	pkg, fn := name[:i], name[i+1:]
	switch pkg {
	case "strconv":
		return !strings.HasPrefix(fn, "Append")
	case "strings", "unicode", "unicode/utf8", "unicode/utf16", "errors", "fmt", "path", "path/filepath", "mime", "regexp", "net/url", "math", "math/bits", "html", "time", "net/textproto", "github.com/sirupsen/logrus", "log", "os", "net", "encoding/hex", "encoding/base64", "mime/multipart":
		if strings.HasPrefix(fn, "Append") {
			return false
		}
		if fn == "NewReader" { // keeps and later drains its argument
			return true
		}
		return true
	case "net/http":
		return fn == "StatusText" || fn == "CanonicalHeaderKey" || fn == "DetectContentType" || fn == "ParseHTTPVersion"
	case "bytes":
		return true
	case "bufio":
		return true
	case "io/ioutil":
		return fn == "TempFile" || fn == "TempDir" || fn == "WriteFile" || fn == "ReadFile"
	case "slices":
		for _, p := range []string{"Contains", "Index", "Equal", "Compare", "BinarySearch", "Max", "Min", "IsSorted", "Clone", "Concat", "Repeat", "Collect", "Sorted", "All", "Values", "Clip"} {
			if strings.HasPrefix(fn, p) {
				return true
			}
		}
		return false
	case "maps":
		return fn == "Keys" || fn == "Values" || fn == "Clone" || fn == "Equal" || fn == "EqualFunc" || fn == "All"
	case "sort":
		return strings.HasPrefix(fn, "Search") || strings.HasSuffix(fn, "AreSorted") || fn == "IsSorted" || fn == "SliceIsSorted"
	}
	return false
}

// recvOf: "(*net/url.URL).Query" -> "*net/url.URL"
func recvOf(name string) string {
	if !strings.HasPrefix(name, "(") {
		return ""
	}
	if i := strings.Index(name, ")"); i > 0 {
		return name[1:i]
	}
	return ""
}

// extWrites: the arguments (receiver first) that the function may write; nil: all.
func extWrites(name string, n int) []int {
	all := func() []int {
		var out []int
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	m := name[strings.LastIndex(name, ".")+1:]
	switch recvOf(name) {
	case "*bytes.Buffer", "*strings.Builder", "*os.File", "*bufio.Writer", "io.Writer", "io.StringWriter", "io.ByteWriter":
		switch m {
		case "Read", "ReadAt":
			return []int{0, 1}
		case "WriteTo":
			return all()
		}
		return []int{0}
	case "*mime/multipart.Reader":
		return []int{0}
	case "net/url.Values", "net/http.Header", "net/textproto.MIMEHeader":
		return []int{0}
	}
	switch name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "unicode/utf8.EncodeRune", "io.Copy":
		return []int{0}
	}
	if strings.HasPrefix(name, "strconv.Append") || strings.HasPrefix(name, "fmt.Append") || strings.HasPrefix(name, "unicode/utf8.Append") {
		return []int{0}
	}
	return all()
}

// extFresh: the references in the result are new objects.
func extFresh(name string) bool {
	switch name {
	case "(*net/url.URL).Query", "(*net/url.URL).Parse", "(net/http.Header).Clone", "(*mime/multipart.Reader).ReadForm", "(*bytes.Buffer).String", "net/url.ParseQuery", "net/url.Parse", "net/url.ParseRequestURI", "mime.ParseMediaType", "errors.New", "(*os.File).Write", "(*bytes.Buffer).Write", "(*os.File).Read", "(*bytes.Buffer).WriteTo":
		return true
	}
	if strings.HasPrefix(name, "(*regexp.Regexp).") {
		return strings.Contains(name, "String") || strings.HasSuffix(name, "Index")
	}
	i := strings.LastIndex(name, ".")
	if recvOf(name) == "" && i > 0 {
		switch name[:i] {
		case "strings":
			return name != "strings.NewReplacer"
		case "strconv":
			return !strings.HasPrefix(name, "strconv.Append")
		case "os", "io/ioutil", "path/filepath", "path", "time", "regexp":
			return true
		}
	}
	return false
}

// extRetains: the receiver or result keeps references to arguments.
func extRetains(name string) bool {
	m := name[strings.LastIndex(name, ".")+1:]
	switch recvOf(name) {
	case "*bytes.Buffer", "*strings.Builder", "*os.File", "*bufio.Writer", "*bufio.Reader", "*bytes.Reader", "*strings.Reader", "net/http.Header", "net/url.Values", "error", "*regexp.Regexp", "*net/url.URL", "io.Writer", "io.Reader":
		return m == "Reset" && recvOf(name) != "*bytes.Buffer" && recvOf(name) != "*strings.Builder"
	}
	for _, p := range []string{"fmt.", "strings.", "strconv.", "unicode", "github.com/sirupsen/logrus", "(*github.com/sirupsen/logrus", "io.", "log.", "os.", "io/ioutil.", "bytes.Equal", "bytes.Index", "bytes.Contains", "bytes.Has", "bytes.Compare", "bytes.Count"} {
		if strings.HasPrefix(name, p) {
			return false
		}
	}
	return true
}

func (e *Effects) external(fn *ssa.Function, in ssa.Instruction, name string, c *ssa.CallCommon, args []locset, f *ssa.Function, call ssa.Value) {
	if f != nil && f.Name() == "init" && strings.HasPrefix(f.Synthetic, "package init") {
		return
	}
	touched := locset{}
	for _, a := range args {
		for l := range a {
			touched[l] = true
		}
	}
	e.effect("call", in, touched, name, "call of "+name)
	if !extReadOnly(name) {
		for _, i := range extWrites(name, len(args)) {
			if i >= len(args) {
				continue
			}
			w := locset{}
			for l := range args[i] {
				if l.o.kind == oFunc || l.o.fn != nil {
					continue
				}
				w[l] = true
			}
			if len(w) > 0 {
				e.effect("write", in, w, name, name+" may write its argument")
			}
		}
	}
	// callbacks: function values, and methods of library types behind interfaces
	var vals []ssa.Value
	if c.IsInvoke() {
		vals = append(vals, c.Value)
	}
	vals = append(vals, c.Args...)
	var fresh *EObj
	freshSet := func() locset {
		if fresh == nil {
			fresh = e.extObj(in, name)
		}
		s := locset{eloc{fresh, ""}: true}
		for l := range touched {
			if l.o.fn == nil {
				s[l] = true
			}
		}
		return s
	}
	for i, v := range vals {
		if i >= len(args) {
			break
		}
		for l := range args[i] {
			if l.o.fn != nil {
				if inRepo(l.o.fn) {
					e.reach(fn, l.o.fn)
					for _, p := range l.o.fn.Params {
						if holdsRef(p.Type()) {
							e.addAll(enode{v: p}, freshSet())
						}
					}
				}
				continue
			}
		}
		// interface methods of library types
		t := v.Type()
		var ms []*types.Func
		if it, ok := t.Underlying().(*types.Interface); ok {
			for k := 0; k < it.NumMethods(); k++ {
				ms = append(ms, it.Method(k))
			}
		}
		for _, m := range ms {
			for _, g := range e.mods.invokeTargets(m) {
				if !inRepo(g) || e.typeOnly(v, g) {
					continue
				}
				e.reach(fn, g)
				for j, p := range g.Params {
					if j == 0 {
						e.addAll(enode{v: p}, args[i])
					} else if holdsRef(p.Type()) {
						o := e.extObj(in, name)
						e.add(enode{v: p}, eloc{o, ""})
					}
				}
			}
		}
		// formatting calls String, Error, GoString, Format of the values it prints
		if strings.HasPrefix(name, "fmt.") || strings.Contains(name, "logrus") || strings.HasPrefix(name, "log.") {
			for l := range args[i] {
				for x := range e.load(eloc{l.o, pth(l, "[]")}) {
					e.formatted(fn, in, x)
				}
				e.formatted(fn, in, l)
			}
		}
	}
	if call == nil {
		return
	}
	res := c.Signature().Results()
	if res.Len() == 0 || !holdsRef(res) {
		return
	}
	out := locset{eloc{e.extObj(in, name), ""}: true}
	if !extFresh(name) {
		for i, a := range args {
			if i < len(vals) && (c.IsInvoke() || true) {
				for l := range a {
					if l.o.fn == nil {
						out[l] = true
						// what is inside variadic slices and boxes
					}
				}
			}
		}
	}
	if extRetains(name) && len(args) > 0 && recvOf(name) != "" {
		for l := range args[0] {
			for _, a := range args[1:] {
				e.addAll(enode{o: l.o, path: l.path}, a)
			}
		}
	}
	if res.Len() == 1 {
		if holdsRef(res.At(0).Type()) && !isErrorType(res.At(0).Type()) {
			e.addAll(enode{v: call}, out)
		} else if isErrorType(res.At(0).Type()) {
			e.add(enode{v: call}, eloc{e.extObj(in, name), ""})
		}
		return
	}
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if !holdsRef(t) {
			continue
		}
		if isErrorType(t) {
			e.add(enode{v: call, i: i + 1}, eloc{e.extObj(in, name), ""})
		} else {
			e.addAll(enode{v: call, i: i + 1}, out)
		}
	}
}

// typeOnly: the static value is known not to have the receiver type of g.
func (e *Effects) typeOnly(v ssa.Value, g *ssa.Function) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok && g.Signature.Recv() != nil {
		return !types.Identical(mi.X.Type(), g.Signature.Recv().Type())
	}
	return false
}

func (e *Effects) formatted(fn *ssa.Function, in ssa.Instruction, l eloc) {
	if l.o.kind == oAlloc && l.o.typ == nil {
		return
	}
	for _, nt := range e.p.named {
		if l.o.kind == oAlloc && !types.Identical(l.o.typ, nt) {
			continue
		}
		if l.o.kind == oExt || l.o.kind == oHost || l.o.kind == oBytes {
			continue
		}
		for _, mname := range []string{"String", "Error", "GoString", "Format"} {
			for _, t := range []types.Type{nt, types.NewPointer(nt)} {
				g := e.p.method(t, mname)
				if g == nil || !inRepo(g) || mname == "String" && g.Signature.Results().Len() != 1 {
					continue
				}
				e.reach(fn, g)
				if len(g.Params) > 0 {
					e.add(enode{v: g.Params[0]}, l)
				}
			}
		}
	}
}

func (e *Effects) sorted() []*Eff {
	var out []*Eff
	for _, f := range e.effs {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.in.Pos() != b.in.Pos() {
			return a.in.Pos() < b.in.Pos()
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		return a.ext+a.what < b.ext+b.what
	})
	return out
}

func (f *Eff) kinds() map[objKind]bool {
	m := map[objKind]bool{}
	for l := range f.locs {
		m[l.o.kind] = true
	}
	return m
}

// reachableFrom: objects reachable from a set of objects through stored references.
func (e *Effects) reachableFrom(os []*EObj) map[*EObj]bool {
	out := map[*EObj]bool{}
	var rec func(o *EObj)
	rec = func(o *EObj) {
		if out[o] {
			return
		}
		out[o] = true
		for p := range e.byObj[o] {
			for l := range e.pts[enode{o: o, path: p}] {
				rec(l.o)
			}
		}
	}
	for _, o := range os {
		rec(o)
	}
	return out
}

func (e *Effects) transactions() []*EObj {
	var out []*EObj
	for _, o := range e.objs {
		if o.kind == oAlloc && o.typ != nil && e.trType != nil && types.Identical(o.typ, e.trType) {
			out = append(out, o)
		}
	}
	return out
}

// path from a root to a function through the call graph found by the analysis
func (e *Effects) pathTo(fn *ssa.Function) string {
	prev := map[*ssa.Function]*ssa.Function{}
	var q []*ssa.Function
	for _, r := range e.roots {
		if _, ok := prev[r]; !ok {
			prev[r] = nil
			q = append(q, r)
		}
	}
	for i := 0; i < len(q); i++ {
		f := q[i]
		if f == fn {
			var names []string
			for g := f; g != nil; g = prev[g] {
				names = append([]string{relName(g)}, names...)
			}
			return strings.Join(names, " -> ")
		}
		var next []*ssa.Function
		for g := range e.calls[f] {
			next = append(next, g)
		}
		sort.Slice(next, func(i, j int) bool { return next[i].Pos() < next[j].Pos() })
		for _, g := range next {
			if _, ok := prev[g]; !ok {
				prev[g] = f
				q = append(q, g)
			}
		}
	}
	return relName(fn)
}

// processingEffects: everything a host runs on behalf of a transaction.
func (c *Ctx) processingEffects() *Effects {
	e := newEffects(c)
	tt := c.p.typ("modsecurity", "Transaction")
	for _, fn := range c.p.funcs {
		if fn.Synthetic != "" || fn.Parent() != nil || !exportedName(fn.Name()) {
			continue
		}
		r := fn.Signature.Recv()
		if r != nil && (isTransaction(r.Type()) || isIntervention(r.Type())) {
			e.root(fn)
			continue
		}
		// constructors of transactions
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isTransaction(res.At(i).Type()) {
				e.root(fn)
				break
			}
		}
	}
	_ = tt
	// every variable, transformation, operator and action of the library
	for _, in := range []string{"Variable", "Trans", "Operator", "Action"} {
		it := c.p.iface("modsecurity", in)
		if it == nil {
			continue
		}
		for _, t := range c.p.implementers(it) {
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				if m.Name() == "Include" || m.Name() == "Exclude" {
					continue
				}
				if fn := c.p.method(t, m.Name()); fn != nil && inRepo(fn) {
					e.root(fn)
				}
			}
		}
	}
	for _, fn := range c.p.funcs {
		r := fn.Signature.Recv()
		if r != nil && exportedName(fn.Name()) && fn.Synthetic == "" && fn.Parent() == nil {
			// exported methods of rules and rule sets that take a transaction
			for _, p := range fn.Params[1:] {
				if isTransaction(p.Type()) {
					e.root(fn)
				}
			}
		} else if r == nil && fn.Parent() == nil && exportedName(fn.Name()) {
			for _, p := range fn.Params {
				if isTransaction(p.Type()) {
					e.root(fn)
				}
			}
		}
	}
	e.solve()
	return e
}
