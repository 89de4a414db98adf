package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = checkAmbient
	checks["C18"] = checkFiles
}

// libraryEffects: processing and rule compilation.
func (c *Ctx) libraryEffects() *Effects {
	e := newEffects(c)
	for _, fn := range c.p.funcs {
		if fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		pk := repoPkgOf(fn)
		if !strings.HasPrefix(pk, "modsecurity") && !strings.HasPrefix(pk, "seclang") {
			continue
		}
		if exportedName(fn.Name()) {
			e.root(fn)
		}
	}
	for _, sp := range c.p.all {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init") && inRepo(f) {
				e.root(f)
			}
		}
	}
	e.solve()
	return e
}

// pureExtPkgs: packages none of whose functions consult or change anything outside the
// process (exceptions in ambientFns).
var pureExtPkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "bytes": true, "bufio": true, "errors": true, "fmt": true, "io": true, "mime": true, "mime/multipart": true, "mime/quotedprintable": true, "net/url": true, "net/textproto": true, "regexp": true, "regexp/syntax": true, "sort": true, "slices": true, "maps": true, "cmp": true, "iter": true, "path": true, "path/filepath": true, "html": true, "encoding/hex": true, "encoding/base64": true, "encoding/json": true, "encoding/xml": true, "encoding/binary": true, "encoding": true, "hash": true, "hash/crc32": true, "hash/fnv": true, "crypto/md5": true, "crypto/sha1": true, "crypto/sha256": true, "container/list": true, "container/heap": true, "sync": true, "sync/atomic": true, "math": true, "math/bits": true, "math/big": true, "reflect": true, "text/tabwriter": true, "github.com/sirupsen/logrus": true, "log": true, "github.com/davecgh/go-spew/spew": true, "builtin": true, "unsafe": true}

var ambientFns = map[string]string{
	"fmt.Scan": "standard input", "fmt.Scanf": "standard input", "fmt.Scanln": "standard input",
	"mime.TypeByExtension": "the system's type tables", "mime.ExtensionsByType": "the system's type tables",
	"path/filepath.Abs": "the working directory", "path/filepath.Glob": "the file system", "path/filepath.Walk": "the file system", "path/filepath.WalkDir": "the file system", "path/filepath.EvalSymlinks": "the file system",
	"log.Fatal": "process exit", "log.Fatalf": "process exit", "log.Fatalln": "process exit",
	"github.com/sirupsen/logrus.Fatal": "process exit", "github.com/sirupsen/logrus.Fatalf": "process exit", "github.com/sirupsen/logrus.Fatalln": "process exit",
	"github.com/sirupsen/logrus.Exit": "process exit",
}

func extPkg(name string) string {
	if r := recvOf(name); r != "" {
		r = strings.TrimPrefix(r, "*")
		if i := strings.LastIndex(r, "."); i >= 0 {
			return r[:i]
		}
		return "builtin"
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		return name[:i]
	}
	return name
}

// fileOps: the file operations the body buffers may use.
var fileOps = map[string]bool{"os.Stat": true, "os.Lstat": true, "os.Mkdir": true, "os.MkdirAll": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "io/ioutil.TempFile": true, "os.CreateTemp": true, "os.Remove": true,
	"(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).WriteAt": true, "(*os.File).Read": true, "(*os.File).ReadAt": true, "(*os.File).ReadFrom": true, "(*os.File).WriteTo": true, "(*os.File).Seek": true, "(*os.File).Close": true, "(*os.File).Name": true, "(*os.File).Sync": true, "(*os.File).Stat": true, "(*os.File).Truncate": true,
	"(*os.PathError).Error": true, "(os.FileInfo).IsDir": true, "(os.FileInfo).Size": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).Size": true, "(os.FileMode).IsDir": true, "(os.FileMode).IsRegular": true, "(io/fs.FileInfo).Mode": true,
	"io/ioutil.ReadAll": true, "io/ioutil.NopCloser": true}

// pureOf: functions of otherwise impure packages that consult nothing.
func pureOf(name string) bool {
	switch extPkg(name) {
	case "net/http":
		if r := recvOf(name); r == "net/http.Header" || r == "*net/http.Cookie" {
			return true
		}
		return name == "net/http.StatusText" || name == "net/http.CanonicalHeaderKey" || name == "net/http.DetectContentType" || name == "net/http.ParseHTTPVersion" || name == "net/http.ParseTime"
	case "net":
		return strings.HasPrefix(name, "net.Parse") || strings.HasPrefix(name, "net.Split") || strings.HasPrefix(name, "net.Join") || strings.HasPrefix(name, "(net.IP") || strings.HasPrefix(name, "(*net.IPNet)") || strings.HasPrefix(name, "net.IPv4") || name == "net.CIDRMask"
	case "time":
		if strings.HasPrefix(name, "(time.Duration)") {
			return true
		}
		return name == "time.ParseDuration" || name == "time.Duration" || name == "time.Unix" || name == "time.Date"
	case "runtime":
		return name == "runtime.KeepAlive"
	case "io/fs", "":
		return true
	}
	// methods of errors and other values
	return strings.HasPrefix(name, "(error)") || strings.HasPrefix(name, "(interface") || strings.HasPrefix(name, "(fmt.")
}

func ambient(name string) string {
	if w, ok := ambientFns[name]; ok {
		return w
	}
	if fileOps[name] || pureOf(name) {
		return ""
	}
	p := extPkg(name)
	if pureExtPkgs[p] {
		return ""
	}
	if strings.HasPrefix(name, "(") && !strings.Contains(p, ".") && !strings.Contains(p, "/") && p == "builtin" {
		return ""
	}
	return "package " + p
}

func checkAmbient(c *Ctx, r *Report) {
	r.method = effectMethod + " Roots here: every exported function and method of the processing and rule language packages, and the package initialisers. Loops over maps are additionally examined for dependence on the iteration order (loop-carried values, early exits, writes)."
	r.rule = "no reached function calls a function outside the library that consults or changes anything beyond its arguments (clock, random numbers, environment, user, working directory, network, processes, files other than the body buffers' own), reads a process-wide variable of another package, starts a goroutine, selects over channels or formats an address; and nothing that leaves a loop over a map depends on the order of its iterations, except the order of an appended list"
	e := c.libraryEffects()
	effectCounts(r, e)
	for _, f := range e.sorted() {
		switch f.kind {
		case "go", "select", "receive":
			r.violate(f.kind+" in "+relName(f.fn), c.p.instrPos(f.in), "%s: %s (reached by %s)", relName(f.fn), f.what, e.pathTo(f.fn))
		case "call":
			r.count("external calls", 1)
			if w := ambient(f.ext); w != "" {
				r.violate("ambient "+f.ext, c.p.instrPos(f.in), "%s calls %s, which depends on %s (reached by %s)", relName(f.fn), f.ext, w, e.pathTo(f.fn))
				continue
			}
			if s := pointerFormat(f.in); s != "" && !strings.Contains(f.ext, "logrus") {
				r.violate("address "+relName(f.fn), c.p.instrPos(f.in), "%s formats an address with %q", relName(f.fn), s)
				continue
			}
			r.ok(1)
			r.sample("%s calls %s: a function of its arguments", relName(f.fn), f.ext)
		}
	}
	for _, fn := range e.order {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				g, ok := ssaRoot(u.X).(*ssa.Global)
				if !ok || g.Pkg == nil || strings.HasPrefix(g.Pkg.Pkg.Path(), repoMod) {
					continue
				}
				r.count("external variables read", 1)
				pk := g.Pkg.Pkg.Path()
				if isErrorType(u.Type()) || pureExtPkgs[pk] && pk != "log" {
					r.ok(1)
					continue
				}
				r.violate("variable "+g.String(), c.p.instrPos(in), "%s reads %s.%s, process-wide state of another package", relName(fn), pk, g.Name())
			}
		}
		c.mapOrder(r, fn)
	}
	r.require("external calls", 100)
	r.require("loops over maps", 4)
	r.assumption("functions of the listed standard packages are functions of their arguments; temporary file names are random but never reach a verdict")
	r.assumption("log output is not part of a verdict")
}

func pointerFormat(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	for _, a := range ci.Common().Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			if s := constant.StringVal(k.Value); strings.Contains(s, "%p") {
				return s
			}
		}
	}
	return ""
}

// mapOrder: nothing but the order of appended lists leaves a loop over a map.
func (c *Ctx) mapOrder(r *Report, fn *ssa.Function) {
	var li *loopInfo
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			if li == nil {
				li = findLoops(fn)
			}
			r.count("loops over maps", 1)
			l := innermost(li, b)
			if l == nil {
				// the iterator is used once: the first element in random order
				r.violate("order "+relName(fn), c.p.instrPos(in), "%s takes one element of a map in random order", relName(fn))
				continue
			}
			if why, at := c.orderDependent(fn, l, nx); why != "" {
				r.violate("order "+relName(fn), c.p.instrPos(at), "%s: the loop over a map at %s %s, so the outcome depends on the iteration order", relName(fn), c.p.instrPos(in), why)
				continue
			}
			r.ok(1)
		}
	}
}

func innermost(li *loopInfo, b *ssa.BasicBlock) *natLoop {
	var best *natLoop
	for _, l := range li.headers {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

// inLoopValue: v is computed inside the loop from the iteration.
func inLoopValue(l *natLoop, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	return l.blocks[in.Block()]
}

func (c *Ctx) orderDependent(fn *ssa.Function, l *natLoop, nx *ssa.Next) (string, ssa.Instruction) {
	header := nx.Block()
	var okIf *ssa.If
	for _, in := range header.Instrs {
		if i, ok := in.(*ssa.If); ok {
			okIf = i
		}
	}
	early := false
	for b := range l.blocks {
		for si, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			if b == header && okIf != nil && si == 1 {
				continue // exhausted
			}
			early = true
			// what leaves with this exit
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range s.Preds {
					if p == b && inLoopValue(l, phi.Edges[k]) && !harmless(phi.Edges[k]) {
						return "is left early with a value of the current iteration", phi
					}
				}
			}
			// values of the iteration used after the exit (dominated blocks)
			if ret, v := returnsLoopValue(l, s); ret != nil {
				_ = v
				return "returns a value of the current iteration", ret
			}
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b != l.header {
					continue
				}
				for k, p := range b.Preds {
					if !l.blocks[p] {
						continue
					}
					if !commutes(l, x, x.Edges[k], map[ssa.Value]bool{}) {
						return "carries a value from one iteration to the next", x
					}
				}
			case *ssa.Store:
				root := ssaRoot(x.Addr)
				if inLoopValue(l, root) {
					if al, ok := root.(*ssa.Alloc); ok && l.blocks[al.Block()] {
						continue
					}
					if _, ok := root.(*ssa.UnOp); !ok {
						continue
					}
				}
				if appendTo(x.Val, func(v ssa.Value) bool { return loadsSame(v, x.Addr) }) {
					continue
				}
				if isErrorType(x.Val.Type()) || isConstV(x.Val) || !dependsOn(l, x.Val) {
					if early && !isConstV(x.Val) {
						return "is left early and writes state", x
					}
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && dependsOn(l, ia.Index) {
					continue
				}
				if bo, ok := x.Val.(*ssa.BinOp); ok && bo.Op == token.ADD && !isStringType(bo.Type()) {
					continue
				}
				return "overwrites a variable with a value of the iteration", x
			case *ssa.MapUpdate:
				if inLoopValue(l, x.Map) {
					if _, ok := x.Map.(*ssa.MakeMap); ok {
						continue
					}
				}
				if dependsOn(l, x.Key) || isConstV(x.Value) {
					continue
				}
				if appendTo(x.Value, func(v ssa.Value) bool { _, ok := v.(*ssa.Lookup); return ok }) {
					continue
				}
				if !dependsOn(l, x.Value) {
					continue
				}
				return "overwrites a map entry that does not depend on the key", x
			case ssa.CallInstruction:
				cc := x.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				var tg []*ssa.Function
				if f := cc.StaticCallee(); f != nil {
					tg = []*ssa.Function{f}
				} else if cc.IsInvoke() {
					tg = c.mod.targetsAt(cc)
				} else {
					tg = c.p.dynTargets(cc)
				}
				for _, f := range tg {
					if !inRepo(f) {
						continue
					}
					if ws := c.mod.classSet(f); len(ws) > 0 && c.writesOutside(f) && !(cc.StaticCallee() == f && c.commuting(l, cc, f, early)) {
						return "calls " + relName(f) + ", which changes state", x
					}
				}
			}
		}
	}
	return "", nil
}

// writesOutside: the function may write memory it did not allocate itself.
func (c *Ctx) writesOutside(f *ssa.Function) bool {
	for _, g := range c.mod.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if _, ok := ssaRoot(x.Addr).(*ssa.Alloc); !ok {
						return true
					}
				case *ssa.MapUpdate:
					if _, ok := x.Map.(*ssa.MakeMap); !ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// commuting: the function, called in the loop over a map, changes the state only in ways that do
// not depend on the order of the calls.
func (c *Ctx) commuting(l *natLoop, cc *ssa.CallCommon, f *ssa.Function, early bool) bool {
	arg := func(v ssa.Value) bool {
		for i, p := range f.Params {
			if p == v && i < len(cc.Args) {
				return dependsOn(l, cc.Args[i])
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := ssaRoot(x.Addr).(*ssa.Alloc); ok || isConstV(x.Val) || isErrorType(x.Val.Type()) && !early {
					continue
				}
				if !early && appendTo(x.Val, func(v ssa.Value) bool { return loadsSame(v, x.Addr) }) {
					continue
				}
				return false
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.MakeMap); ok || isConstV(x.Value) {
					continue
				}
				if !early && (arg(x.Key) || appendTo(x.Value, func(v ssa.Value) bool { _, ok := v.(*ssa.Lookup); return ok })) {
					continue
				}
				return false
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				g := x.Common().StaticCallee()
				if g == nil || c.writesOutside(g) {
					return false
				}
			}
		}
	}
	return true
}

func harmless(v ssa.Value) bool { return isConstV(v) || isErrorType(v.Type()) }

func isConstV(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// returnsLoopValue: a return reachable from the exit block without passing another value
// merge that returns something computed in the loop.
func returnsLoopValue(l *natLoop, from *ssa.BasicBlock) (*ssa.Return, ssa.Value) {
	seen := map[*ssa.BasicBlock]bool{}
	var q = []*ssa.BasicBlock{from}
	hdr := l.header
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		if seen[b] || l.blocks[b] {
			continue
		}
		seen[b] = true
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range rt.Results {
				in, ok := v.(ssa.Instruction)
				if ok && l.blocks[in.Block()] && !harmless(v) {
					if p, isPhi := v.(*ssa.Phi); isPhi && p.Block() == hdr {
						// a value accumulated so far leaves with an early exit
						return rt, v
					}
					return rt, v
				}
			}
		}
		q = append(q, b.Succs...)
	}
	return nil, nil
}

func dependsOn(l *natLoop, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if _, ok := v.(*ssa.Next); ok {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok || !l.blocks[in.Block()] {
			return false
		}
		var ops [12]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if o != nil && rec(*o) {
				return true
			}
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && rec(s.Val) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

func appendTo(v ssa.Value, self func(ssa.Value) bool) bool {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(c.Call.Args) > 0 {
			return self(c.Call.Args[0]) || appendTo(c.Call.Args[0], self)
		}
	}
	return false
}

func loadsSame(v ssa.Value, addr ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	return sameAddr(u.X, addr, 0)
}

func sameAddr(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X, d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X, d+1)
	}
	return false
}

// commutes: the value carried into the next iteration is one whose final value does not
// depend on the order of the iterations.
func commutes(l *natLoop, phi *ssa.Phi, v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(phi) || isConstV(v) || isErrorType(v.Type()) || seen[v] {
		return true
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return true // set to a value fixed before the loop
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !commutes(l, phi, e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if appendTo(x, func(a ssa.Value) bool { return commutes(l, phi, a, seen) }) {
			return true
		}
	case *ssa.BinOp:
		if isStringType(x.Type()) {
			return false
		}
		switch x.Op {
		case token.ADD, token.SUB:
			return commutes(l, phi, x.X, seen)
		case token.OR, token.AND, token.XOR, token.MUL:
			return commutes(l, phi, x.X, seen) || commutes(l, phi, x.Y, seen)
		}
	}
	return !dependsOn(l, v)
}

func checkFiles(c *Ctx, r *Report) {
	r.method = effectMethod + " Roots here: every exported function and method of the processing and rule language packages. The arguments of file operations are traced back to their sources with an interprocedural provenance analysis, and the release of the files is decided by path-partitioned abstract interpretation of Transaction.Close and of the buffer's write."
	r.rule = "every call that may reach the operating system is one of the body buffers' file operations; directories are Config.TmpPath (or below), created with no access for others; files come from the unpredictable-name constructor; every operated and every removed file is one created so; on every path of Transaction.Close both bodies' files are closed and removed"
	e := c.libraryEffects()
	effectCounts(r, e)
	pv := newProv(c)
	tmp := repoMod + "/modsecurity.Config.TmpPath"
	short := func(ss []Source) string {
		var out []string
		for _, s := range ss {
			out = append(out, shortFn(s.String()))
		}
		return strings.Join(out, "; ")
	}
	inTmp := func(f *Eff, v ssa.Value, what string) {
		ss := pv.sources(v)
		r.count("directory arguments traced", 1)
		for _, s := range ss {
			if s.kind == "field" && shortFn(s.what) == shortFn(tmp) || s.kind == "field" && strings.HasSuffix(s.what, ".TmpPath") {
				bad := false
				for _, p := range s.path {
					if strings.Contains(p, "..") || !strings.HasPrefix(p, "const ") {
						bad = true
					}
				}
				if !bad {
					continue
				}
			}
			r.violate("directory in "+relName(f.fn), c.p.instrPos(f.in), "%s: %s is not the configured temporary directory: %s", relName(f.fn), what, short(ss))
			return
		}
		if len(ss) == 0 {
			r.violate("directory in "+relName(f.fn), c.p.instrPos(f.in), "%s: %s has no known source", relName(f.fn), what)
			return
		}
		r.ok(1)
		r.sample("%s: %s traced to %s", relName(f.fn), what, short(ss))
	}
	ownFile := func(f *Eff, v ssa.Value, what string) bool {
		ss := pv.sources(v)
		r.count("file values traced", 1)
		n := 0
		for _, s := range ss {
			if s.kind == "ext" && (s.what == "io/ioutil.TempFile" || s.what == "os.CreateTemp") {
				n++
				continue
			}
			if s.kind == "const" && (s.what == "nil" || s.what == "zero") {
				continue
			}
			r.violate("file in "+relName(f.fn), c.p.instrPos(f.in), "%s: %s is not a temporary file of a body buffer: %s", relName(f.fn), what, short(ss))
			return false
		}
		if n == 0 {
			r.violate("file in "+relName(f.fn), c.p.instrPos(f.in), "%s: %s has no known source", relName(f.fn), what)
			return false
		}
		r.ok(1)
		return true
	}
	for _, f := range e.sorted() {
		if f.kind != "call" {
			continue
		}
		r.count("external calls", 1)
		ci := f.in.(ssa.CallInstruction).Common()
		args := ci.Args
		if strings.HasSuffix(f.ext, "multipart.Reader).ReadForm") {
			r.violate("multipart temp files", c.p.instrPos(f.in), "%s calls ReadForm, which stores large file parts in the system's temporary directory", relName(f.fn))
			continue
		}
		if !fileOps[f.ext] {
			if w := ambient(f.ext); w != "" {
				switch extPkg(f.ext) {
				case "time", "math/rand", "math/rand/v2", "crypto/rand", "runtime", "context", "hash/maphash":
					continue // no system operation (C23 judges these)
				}
				r.violate("system "+f.ext, c.p.instrPos(f.in), "%s calls %s (%s), which is not one of the body buffers' file operations (reached by %s)", relName(f.fn), f.ext, w, e.pathTo(f.fn))
				continue
			}
			r.ok(1)
			continue
		}
		switch f.ext {
		case "os.Stat", "os.Lstat":
			inTmp(f, args[0], "the path examined")
		case "os.Mkdir", "os.MkdirAll":
			inTmp(f, args[0], "the directory created")
			ok := false
			if k, isK := args[1].(*ssa.Const); isK && k.Value != nil {
				if m, exact := constant.Uint64Val(k.Value); exact {
					ok = m&0o077 == 0 && m&0o700 == 0o700
				}
			}
			if ok {
				r.ok(1)
			} else {
				r.violate("mode in "+relName(f.fn), c.p.instrPos(f.in), "%s creates the temporary directory with mode %s, which others can use", relName(f.fn), args[1])
			}
		case "io/ioutil.TempFile", "os.CreateTemp":
			r.count("temporary files created", 1)
			inTmp(f, args[0], "the directory of the temporary file")
			for _, s := range pv.sources(args[1]) {
				if s.kind != "const" || strings.Contains(s.what, "/") {
					r.violate("name in "+relName(f.fn), c.p.instrPos(f.in), "%s: the name of the temporary file comes from %s", relName(f.fn), s)
				}
			}
		case "os.Remove":
			r.count("removals", 1)
			ss := pv.sources(args[0])
			for _, s := range ss {
				if s.kind == "ext" && s.what == "(*os.File).Name" {
					ownFile(f, s.v.(*ssa.Call).Call.Args[0], "the file removed")
					continue
				}
				r.violate("removal in "+relName(f.fn), c.p.instrPos(f.in), "%s removes a path that is not the name of its temporary file: %s", relName(f.fn), short(ss))
			}
			if len(ss) == 0 {
				r.violate("removal in "+relName(f.fn), c.p.instrPos(f.in), "%s removes a path of unknown source", relName(f.fn))
			}
		default:
			if strings.HasPrefix(f.ext, "(*os.File).") {
				ownFile(f, args[0], "the file used by "+f.ext)
			}
		}
	}
	r.require("external calls", 100)
	r.require("temporary files created", 1)
	r.require("removals", 1)
	c.checkRelease(r)
	r.assumption("the host configures TmpPath; temporary file constructors of the standard library choose unpredictable names and create the file for its owner only")
	r.assumption("log output goes where the host directs it")
}

// checkRelease: Close closes and removes the files of both bodies; a file that was created
// is always the one the buffer keeps.
func (c *Ctx) checkRelease(r *Report) {
	tt := c.p.typ("modsecurity", "Transaction")
	if tt == nil {
		r.violate("anchor", "modsecurity", "type Transaction not found")
		return
	}
	cl := c.p.method(types.NewPointer(tt), "Close")
	if cl == nil {
		r.violate("release", "modsecurity/transaction.go", "a transaction has no Close: its temporary files cannot be released")
		return
	}
	ex := c.exec()
	ex.noForms = true
	st, args := c.rootState(ex, cl)
	outs := ex.run0(cl, args, st)
	for _, part := range []string{"Request", "Response"} {
		body, bt := c.pathTerm(st, args[0], tt, part, "Body")
		if body == nil {
			r.violate("anchor", "modsecurity", "field %s.Body not found", part)
			continue
		}
		files := fileFields(bt)
		if len(files) == 0 {
			r.violate("anchor", "modsecurity", "the body type has no file field")
		}
		for _, fi := range files {
			for _, o := range outs {
				if o.panic {
					continue
				}
				r.count("paths of Close", 1)
				fa := mkFieldAddr(body, fi, types.NewPointer(derefStruct(bt).Field(fi).Type()))
				file := st.clone().load(fa, derefStruct(bt).Field(fi).Type())
				s2 := o.st.clone()
				if !s2.assumeQuiet(mkNot(mkEq(file, mkNil(nil))), true) {
					r.ok(1)
					continue // no file on this path
				}
				closed, removed := false, false
				for _, ev := range o.st.ev.list() {
					if ev.kind != EvCall || ev.fn == nil {
						continue
					}
					switch fullName(ev.fn) {
					case "(*os.File).Close":
						if len(ev.args) > 0 && sameVal(s2, ev.args[0], file) {
							closed = true
						}
					case "os.Remove":
						if len(ev.args) > 0 && contains(ev.args[0], func(t *Term) bool { return t == file }) {
							removed = true
						}
					}
				}
				if !closed || !removed {
					r.violate("release "+part, o.pos, "(*Transaction).Close may return without %s the temporary file of the %s body: when %s", missing(closed, removed), strings.ToLower(part), clip(s2.factString(), 500))
				} else {
					r.ok(1)
				}
			}
		}
	}
	r.require("paths of Close", 2)
	// creation: the file is kept, and replaces none
	_, bt := c.pathTerm(st, args[0], tt, "Request", "Body")
	if bt == nil {
		return
	}
	for _, fn := range c.methodsOf(bt) {
		if !exportedName(fn.Name()) {
			continue
		}
		ex := c.exec()
		ex.noForms = true
		st, args := c.rootState(ex, fn)
		pre := st.clone()
		for _, o := range ex.run0(fn, args, st) {
			if o.panic {
				continue
			}
			for _, ev := range o.st.ev.list() {
				if ev.kind != EvCall || ev.fn == nil || !(fullName(ev.fn) == "io/ioutil.TempFile" || fullName(ev.fn) == "os.CreateTemp") {
					continue
				}
				failed := T.mk(Term{op: OpExtract, args: []*Term{ev.res}, n: 1, typ: errorType})
				if v, k := o.st.eval(nonnilCond(failed)); k && v {
					continue // no file was created
				}
				r.count("paths that create a file", 1)
				kept, free := false, false
				for _, fi := range fileFields(bt) {
					ft := derefStruct(bt).Field(fi).Type()
					fa := mkFieldAddr(args[0], fi, types.NewPointer(ft))
					now := o.st.clone().load(fa, ft)
					if contains(now, func(t *Term) bool {
						return t == ev.res || t.op == OpCall && t.aux == fullName(ev.fn) || t.op == OpPure && strings.HasPrefix(t.aux, fullName(ev.fn))
					}) || now == ev.res {
						kept = true
						old := pre.clone().load(fa, ft)
						if v, k := o.st.eval(mkEq(old, mkNil(nil))); k && v {
							free = true
						}
					}
				}
				switch {
				case !kept:
					r.violate("kept "+fn.Name(), o.pos, "%s may create a temporary file and not keep it: when %s", relName(fn), clip(o.st.factString(), 400))
				case !free:
					r.violate("overwritten "+fn.Name(), o.pos, "%s may replace a temporary file it already has: when %s", relName(fn), clip(o.st.factString(), 400))
				default:
					r.ok(1)
				}
			}
		}
	}
	r.require("paths that create a file", 2)
}

// methodsOf: the methods of a (pointer to a) library type that are declared in the library.
func (c *Ctx) methodsOf(t types.Type) []*ssa.Function {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	ms := c.p.ssa.MethodSets.MethodSet(t)
	var out []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		f := c.p.ssa.MethodValue(ms.At(i))
		if f != nil && inRepo(f) && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

func missing(closed, removed bool) string {
	switch {
	case !closed && !removed:
		return "closing and removing"
	case !closed:
		return "closing"
	}
	return "removing"
}

func sameVal(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	v, k := st.eval(mkEq(a, b))
	return k && v
}

func derefStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fileFields(t types.Type) []int {
	s := derefStruct(t)
	if s == nil {
		return nil
	}
	var out []int
	for i := 0; i < s.NumFields(); i++ {
		if namedIs(s.Field(i).Type(), "os", "File") {
			out = append(out, i)
		}
	}
	return out
}

// pathTerm: the value of x.f1.f2... in state st, x a pointer to a struct.
func (c *Ctx) pathTerm(st *State, x *Term, t types.Type, fields ...string) (*Term, types.Type) {
	cur := x
	ct := t
	if p, ok := ct.Underlying().(*types.Pointer); ok {
		ct = p.Elem()
	}
	for _, f := range fields {
		s := derefStruct(ct)
		if s == nil {
			return nil, nil
		}
		found := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				found = i
			}
		}
		if found < 0 {
			return nil, nil
		}
		ft := s.Field(found).Type()
		a := mkFieldAddr(cur, found, types.NewPointer(ft))
		if _, isStruct := ft.Underlying().(*types.Struct); isStruct {
			cur, ct = a, ft
			continue
		}
		cur = st.load(a, ft)
		ct = ft
	}
	return cur, ct
}
