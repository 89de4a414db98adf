package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkBodyBuffers }

// storage: memory buffers, readers and files are replaced by what they contain and by the
// position in it. Contents are sequences of pieces; files may fail to be created or
// written, with a shorter count and an error.
type storage struct {
	x          *Spec
	cont, pos  map[*Term]*Term // cells, per object
	objs       []*Term
	bytesT     types.Type
	failed     *Term // cell: a file operation failed
	nfiles     *Term // cell: how many files exist
	nread      *Term // cell: how many reads were made
	rdContent  *Term // cells: of the last read: the content, where it began, its arguments
	rdPos      *Term
	rdNew      *Term
	rdKind     *Term
	rdArg      [2]*Term
	rdRes      [2]*Term
	unexpected *Term // cell: an operation that the model does not follow
}

const (
	readInto  = 1
	readAllTo = 2
	readSeek  = 3
)

func newStorage(x *Spec) *storage {
	h := &storage{x: x, cont: map[*Term]*Term{}, pos: map[*Term]*Term{}, bytesT: types.NewSlice(types.Typ[types.Byte])}
	for i, c := range []**Term{&h.failed, &h.nfiles, &h.nread, &h.rdContent, &h.rdPos, &h.rdNew, &h.rdKind, &h.rdArg[0], &h.rdArg[1], &h.rdRes[0], &h.rdRes[1], &h.unexpected} {
		*c = ghostCell(fmt.Sprintf("storage%d", i))
	}
	x.ex.hook = h.hook
	return h
}

func (h *storage) start(st *State) {
	for _, c := range []*Term{h.failed, h.nfiles, h.nread, h.unexpected} {
		st.store(c, mkInt(0), tInt)
	}
}

func (h *storage) count(st *State, c *Term) int64 {
	n, ok := st.load(c, tInt).intVal()
	if !ok {
		return -1
	}
	return n
}

func bareObj(st *State, o *Term) *Term {
	o = st.norm(o)
	for o.op == OpIface {
		o = st.norm(o.args[0])
	}
	return o
}

// pieces: what a value of bytes or text consists of.
func (h *storage) pieces(st *State, v *Term) []*Term {
	v = st.norm(v)
	switch {
	case v.isNil():
		return nil
	case v.op == OpPure && (v.aux == "verif:content" || v.aux == "verif:text"):
		var out []*Term
		for _, a := range v.args {
			out = append(out, h.pieces(st, a)...)
		}
		return h.tidy(st, out)
	case v.op == OpConv:
		return h.pieces(st, v.args[0])
	case v.op == OpSlice && v.args[0].op == OpPure && v.args[0].aux == "verif:content":
		return h.cutPieces(st, h.pieces(st, v.args[0]), v.args[1], v.args[2], v)
	}
	if s, ok := v.strVal(); ok && s == "" {
		return nil
	}
	return h.tidy(st, []*Term{v})
}

func (h *storage) tidy(st *State, l []*Term) []*Term {
	var out []*Term
	for _, p := range l {
		if isTrue(st, mkEq(mkLen(p), mkInt(0))) {
			continue
		}
		if k := len(out) - 1; k >= 0 && p.op == OpSlice {
			q := out[k]
			if q.op == OpSlice && q.args[0] == p.args[0] && eq(st, q.args[2], p.args[1]) {
				out[k] = mkSlice(p.args[0], q.args[1], p.args[2], p.typ)
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// cutPieces: l[lo:hi], or the value as it is if the pieces cannot be told apart.
func (h *storage) cutPieces(st *State, l []*Term, lo, hi, v *Term) []*Term {
	var out []*Term
	at := mkInt(0)
	for _, p := range l {
		end := mkAdd(at, mkLen(p))
		from, to := mkInt(0), mkLen(p)
		switch {
		case isTrue(st, mkLE(toLin(end).add(toLin(lo), -1))) || isTrue(st, mkLE(toLin(hi).add(toLin(at), -1))):
			at = end
			continue
		case isTrue(st, mkLE(toLin(lo).add(toLin(at), -1))):
		case isTrue(st, mkLE(toLin(at).add(toLin(lo), -1))):
			from = mkSub(lo, at)
		default:
			return []*Term{v}
		}
		switch {
		case isTrue(st, mkLE(toLin(end).add(toLin(hi), -1))):
		case isTrue(st, mkLE(toLin(hi).add(toLin(end), -1))):
			to = mkSub(hi, at)
		default:
			return []*Term{v}
		}
		out = append(out, mkSlice(p, from, to, p.typ))
		at = end
	}
	return h.tidy(st, out)
}

func pieceSpan(p *Term) (base, lo, hi *Term) {
	if p.op == OpSlice {
		return p.args[0], p.args[1], p.args[2]
	}
	return p, mkInt(0), mkLen(p)
}

// same: two sequences of pieces are the same bytes.
func (h *storage) same(st *State, a, b []*Term) bool {
	a, b = h.tidy(st, a), h.tidy(st, b)
	for len(a) > 0 && len(b) > 0 {
		x, xl, xh := pieceSpan(a[0])
		y, yl, yh := pieceSpan(b[0])
		if x != y || !eq(st, xl, yl) {
			return false
		}
		switch {
		case eq(st, xh, yh):
			a, b = a[1:], b[1:]
		case isTrue(st, mkLE(toLin(xh).add(toLin(yh), -1))):
			b = append([]*Term{mkSlice(y, xh, yh, b[0].typ)}, b[1:]...)
			a = a[1:]
		case isTrue(st, mkLE(toLin(yh).add(toLin(xh), -1))):
			a = append([]*Term{mkSlice(x, yh, xh, a[0].typ)}, a[1:]...)
			b = b[1:]
		default:
			return false
		}
		a, b = h.tidy(st, a), h.tidy(st, b)
	}
	return len(a) == 0 && len(b) == 0
}

func (h *storage) lenOf(l []*Term) *Term {
	n := mkInt(0)
	for _, p := range l {
		n = mkAdd(n, mkLen(p))
	}
	return n
}

func (h *storage) cells(o *Term) (*Term, *Term) {
	if h.cont[o] == nil {
		h.cont[o], h.pos[o] = ghostCell(fmt.Sprintf("content%d", len(h.objs))), ghostCell(fmt.Sprintf("position%d", len(h.objs)))
		h.objs = append(h.objs, o)
	}
	return h.cont[o], h.pos[o]
}

func (h *storage) content(st *State, o *Term) []*Term {
	c, _ := h.cells(o)
	v := st.load(c, h.bytesT)
	if v.op == OpPure && v.aux == "verif:content" {
		return h.pieces(st, v)
	}
	if freshRoot(addrRoot(o)) {
		return nil
	}
	return []*Term{v}
}

func (h *storage) setContent(st *State, o *Term, l []*Term) {
	c, _ := h.cells(o)
	st.store(c, h.value(st, l), h.bytesT)
}

func (h *storage) value(st *State, l []*Term) *Term {
	v := T.mk(Term{op: OpPure, aux: "verif:content", args: h.tidy(st, l), typ: h.bytesT})
	st.assumeQuiet(mkEq(mkLen(v), h.lenOf(v.args)), true)
	return v
}

func (h *storage) position(st *State, o *Term) *Term {
	_, p := h.cells(o)
	return st.norm(st.load(p, tInt))
}

func (h *storage) setPosition(st *State, o, n *Term) {
	_, p := h.cells(o)
	st.store(p, n, tInt)
}

func (h *storage) unknown(st *State) *Term {
	v := mkSym(fmt.Sprintf("verif:unknown %d", st.bumpCount("verif:unknown")), h.bytesT)
	return v
}

func (h *storage) object(st *State, kind string, typ types.Type) *Term {
	n := int64(st.bumpCount("verif:object"))
	return T.mk(Term{op: OpAlloc, aux: "verif:" + kind, n: n, typ: typ})
}

func (h *storage) fresh(st *State, what string, max *Term) *Term {
	n := mkSym(fmt.Sprintf("verif:%s %d", what, st.bumpCount("verif:"+what)), tInt)
	st.assumeQuiet(mkLE(toLin(n).scale(-1)), true)
	if max != nil {
		st.assumeQuiet(mkLE(toLin(n).add(toLin(max), -1)), true)
	}
	return n
}

// isSource: an object whose content is followed.
func (h *storage) isSource(o *Term) bool {
	if o.typ == nil {
		return false
	}
	switch typeStr(o.typ) {
	case "*os.File", "*bytes.Reader", "*bytes.Buffer", "*strings.Reader":
		return true
	}
	return false
}

func (h *storage) read(st *State, kind int64, o, a0, a1, r0, r1, next *Term) {
	bump(st, h.nread)
	st.store(h.rdKind, mkInt(kind), tInt)
	st.store(h.rdContent, h.value(st, h.content(st, o)), h.bytesT)
	st.store(h.rdPos, h.position(st, o), tInt)
	st.store(h.rdNew, next, tInt)
	st.store(h.rdArg[0], a0, tInt)
	st.store(h.rdArg[1], a1, tInt)
	st.store(h.rdRes[0], r0, tInt)
	st.store(h.rdRes[1], r1, tInt)
	h.setPosition(st, o, next)
}

// write: pieces appended to a memory buffer or a file.
func (h *storage) write(st *State, o *Term, l []*Term) []Outcome {
	n := h.lenOf(l)
	q := st.clone()
	c := h.content(q, o)
	file := o.typ != nil && typeStr(o.typ) == "*os.File"
	if file && !eq(q, h.position(q, o), h.lenOf(c)) {
		c = []*Term{h.unknown(q)}
	} else {
		c = append(append([]*Term(nil), c...), l...)
	}
	h.setContent(q, o, c)
	if file {
		h.setPosition(q, o, h.lenOf(c))
	}
	out := []Outcome{{st: q, rets: []*Term{n, mkNil(nil)}}}
	if file {
		f := st.clone()
		h.setContent(f, o, []*Term{h.unknown(f)})
		bump(f, h.failed)
		out = append(out, Outcome{st: f, rets: []*Term{h.fresh(f, "short count", n), constErr("verif:writing failed")}})
	}
	return out
}

func (h *storage) hook(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
	name := fullName(f)
	one := func(q *State, rets ...*Term) ([]Outcome, bool) { return []Outcome{{st: q, rets: rets}}, true }
	res := func(i int) types.Type { return f.Signature.Results().At(i).Type() }
	obj := func() *Term { return bareObj(st, args[0]) }
	switch name {
	case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader":
		q := st.clone()
		o := h.object(q, "memory", res(0))
		h.setContent(q, o, h.pieces(q, args[0]))
		h.setPosition(q, o, mkInt(0))
		return one(q, o)
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*os.File).Write", "(*os.File).WriteString":
		return h.write(st, obj(), h.pieces(st, args[1])), true
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Len":
		q := st.clone()
		c := h.content(q, obj())
		switch f.Name() {
		case "Bytes":
			return one(q, h.value(q, c))
		case "String":
			return one(q, T.mk(Term{op: OpPure, aux: "verif:text", args: []*Term{h.value(q, c)}, typ: tString}))
		}
		return one(q, h.lenOf(c))
	case "(*bytes.Buffer).Grow":
		return one(st.clone())
	case "(*bytes.Buffer).Reset":
		q := st.clone()
		h.setContent(q, obj(), nil)
		return one(q)
	case "(*bytes.Buffer).Truncate":
		q := st.clone()
		v := h.value(q, h.content(q, obj()))
		h.setContent(q, obj(), h.pieces(q, mkSlice(v, mkInt(0), args[1], h.bytesT)))
		return one(q)
	case "io/ioutil.TempFile", "os.CreateTemp":
		q := st.clone()
		o := h.object(q, "file", res(0))
		h.setContent(q, o, nil)
		h.setPosition(q, o, mkInt(0))
		bump(q, h.nfiles)
		b := st.clone()
		bump(b, h.failed)
		return []Outcome{{st: q, rets: []*Term{o, mkNil(nil)}}, {st: b, rets: []*Term{mkNil(res(0)), constErr("verif:no file")}}}, true
	case "(*os.File).Read", "(*bytes.Reader).Read", "(*strings.Reader).Read", "(*bytes.Buffer).Read":
		q := st.clone()
		o := obj()
		n := h.fresh(q, "count", mkLen(args[1]))
		err := mkSym(fmt.Sprintf("verif:read error %d", q.bumpCount("verif:read error")), errorType)
		h.read(q, readInto, o, args[1], mkInt(0), n, err, mkAdd(h.position(q, o), n))
		if name == "(*bytes.Buffer).Read" {
			h.setContent(q, o, []*Term{h.unknown(q)})
		}
		return one(q, n, err)
	case "(*os.File).WriteTo", "(*bytes.Reader).WriteTo", "(*strings.Reader).WriteTo", "(*bytes.Buffer).WriteTo", "io.Copy", "io.CopyBuffer":
		src, dst := args[0], args[1]
		if f.Signature.Recv() == nil {
			src, dst = args[1], args[0]
		}
		s, d := bareObj(st, src), bareObj(st, dst)
		if !h.isSource(s) {
			return nil, false
		}
		drain := func(q *State) {
			h.setPosition(q, s, h.lenOf(h.content(q, s)))
			if typeStr(s.typ) == "*bytes.Buffer" {
				h.setContent(q, s, nil)
				h.setPosition(q, s, mkInt(0))
			}
		}
		if h.isSource(d) { // the library copies between its own objects
			v := h.value(st, h.content(st, s))
			rest := h.pieces(st, mkSlice(v, h.position(st, s), mkLen(v), h.bytesT))
			if typeStr(s.typ) == "*bytes.Buffer" || eq(st, h.position(st, s), mkInt(0)) {
				rest = h.content(st, s)
			}
			outs := h.write(st, d, rest)
			for _, o := range outs {
				drain(o.st)
			}
			return outs, true
		}
		q := st.clone()
		n := h.fresh(q, "count", nil)
		err := mkSym(fmt.Sprintf("verif:read error %d", q.bumpCount("verif:read error")), errorType)
		h.read(q, readAllTo, s, d, mkInt(0), n, err, mkAdd(h.position(q, s), n))
		if typeStr(s.typ) == "*bytes.Buffer" {
			h.setContent(q, s, []*Term{h.unknown(q)})
		}
		return one(q, n, err)
	case "(*os.File).Seek", "(*bytes.Reader).Seek", "(*strings.Reader).Seek":
		q := st.clone()
		o := obj()
		if off, ok := q.norm(args[1]).intVal(); ok && off == 0 {
			if wh, ok := q.norm(args[2]).intVal(); ok && wh == 0 {
				h.setPosition(q, o, mkInt(0))
				return one(q, mkInt(0), mkNil(nil))
			}
		}
		n := h.fresh(q, "seek", nil)
		err := mkSym(fmt.Sprintf("verif:seek error %d", q.bumpCount("verif:seek error")), errorType)
		h.read(q, readSeek, o, args[1], args[2], n, err, n)
		return one(q, n, err)
	case "(*os.File).Name", "(*os.File).Sync", "(*bytes.Reader).Len", "(*bytes.Reader).Size":
		return nil, false
	}
	if f.Signature.Recv() != nil && len(args) > 0 && len(f.Blocks) >= 0 && !inRepo(f) {
		o := obj()
		if h.cont[o] != nil { // anything else done with what is followed
			q := st.clone()
			h.setContent(q, o, []*Term{h.unknown(q)})
			h.setPosition(q, o, h.fresh(q, "position", nil))
			*st = *q
		}
	}
	return nil, false
}

// bodyRun: a body after a history of writes of which whole was accepted.
type bodyRun struct {
	*Spec
	x     *Spec
	h     *storage
	part  string
	st    *State
	t     *Term
	bt    types.Type
	mem   *Term // limits
	max   *Term
	whole []*Term
	pos   string
	key   string
	begun bool // reading has begun
	at    *Term
	wrote bool
}

func (b *bodyRun) total() *Term { return b.h.lenOf(b.whole) }

func (b *bodyRun) with(st *State) *bodyRun {
	n := *b
	n.st = st
	return &n
}

func (b *bodyRun) body(st *State) *Term {
	a, _ := b.x.addr(st, b.t, b.tt, b.part+".Body")
	if a == nil {
		return mkNil(nil)
	}
	return st.norm(st.load(a, b.bt))
}

func lessEq(a, b *Term) *Term { return mkLE(toLin(a).add(toLin(b), -1)) }

// open: the body of a new transaction, in every state in which one is made.
func (s *Spec) openBody(x *Spec, h *storage, st *State, part string) []*bodyRun {
	f := s.fn("modsecurity", "NewTransaction")
	if f == nil {
		return nil
	}
	et, rt := f.Signature.Params().At(0).Type(), f.Signature.Params().At(1).Type()
	e, rs := mkSym("engine", et), mkSym("rules", rt)
	st.assumeQuiet(nonnilCond(e), true)
	st.assumeQuiet(nonnilCond(rs), true)
	mem, max := "RequestBodyInMem", "RequestBody"
	if part == "Response" {
		mem, max = "ResponseBody", "ResponseBody"
	}
	_, bt := fieldIndex(s.tt, part)
	if bt != nil {
		_, bt = fieldIndex(bt, "Body")
	}
	if bt == nil {
		s.r.violate("anchor", "modsecurity", "the field %s.Body of Transaction was not found", part)
		return nil
	}
	var out []*bodyRun
	for _, o := range x.call(st, f, e, rs) {
		for _, q := range split(o.st, mkEq(o.rets[1], mkNil(nil))) {
			if !isTrue(q, mkEq(o.rets[1], mkNil(nil))) {
				continue
			}
			b := &bodyRun{Spec: s, x: x, h: h, part: part, st: q, t: q.norm(o.rets[0]), bt: bt, key: part, at: mkInt(0), pos: o.pos}
			b.mem, b.max = x.get(q, e, et, mem), x.get(q, e, et, max)
			if !s.expect(q.nonnil(b.body(q)), q, part+" body", o.pos, "a new transaction may have no %s body", strings.ToLower(part)) {
				continue
			}
			same := false
			for _, a := range out {
				d := b.differs(q, a.st, a.body(a.st), q, b.body(q), bt, "body", false)
				same = same || d == "" && a.mem == b.mem && a.max == b.max
			}
			if !same {
				out = append(out, b)
			}
		}
	}
	return out
}

// write appends p and judges the outcome; the runs returned accepted it.
func (b *bodyRun) write(p *Term, direct bool) []*bodyRun {
	x, h := b.x, b.h
	name := "Append" + b.part + "Body"
	var outs []Outcome
	if direct {
		name = "Write"
		outs = x.invoke(b.st, b.body(b.st), b.bt, "Write", p)
	} else if m := x.method(b.tt, name); m != nil {
		outs = x.call(b.st, m, b.t, p)
	}
	n := mkLen(p)
	total := mkAdd(b.total(), n)
	fits := lessEq(total, b.max)
	var acc []*bodyRun
	nf := h.count(b.st, h.failed)
	for _, o := range outs {
		err := o.rets[len(o.rets)-1]
		for _, q := range split(o.st, mkEq(err, mkNil(nil))) {
			if !q.saturate() {
				continue
			}
			b.r.count("writes judged", 1)
			good := isTrue(q, mkEq(err, mkNil(nil)))
			failed := h.count(q, h.failed) != nf
			switch {
			case failed:
				b.r.count("failing storage judged", 1)
				x.expect(!good, q, b.key+" storage error", o.pos, "%s: %s returns no error although storing failed", b.key, name)
				if h.count(q, h.nfiles) > h.count(b.st, h.nfiles) {
					b.with(q).failsClosed(o.pos)
				}
			case good && b.begun:
				x.expect(false, q, b.key+" late write", o.pos, "%s: %s accepts bytes after reading has begun", b.key, name)
			case good:
				x.must(q, fits, b.key+" limit", o.pos, "%s: %s accepts bytes beyond the limit", b.key, name)
				if len(o.rets) > 1 {
					x.must(q, mkEq(o.rets[0], n), b.key+" count", o.pos, "%s: %s does not return the number of bytes given", b.key, name)
				}
				for _, z := range split(q, lessEq(total, b.mem)) {
					a := b.with(z)
					a.whole = append(append([]*Term(nil), b.whole...), p)
					a.wrote = true
					a.pos = o.pos
					acc = append(acc, a)
				}
			default:
				if !b.begun {
					x.must(q, mkNot(fits), b.key+" refused", o.pos, "%s: %s refuses bytes within the limit", b.key, name)
				}
				if len(o.rets) > 1 {
					x.must(q, mkEq(o.rets[0], mkInt(0)), b.key+" refused count", o.pos, "%s: %s returns a count for bytes it refuses", b.key, name)
				}
				diff := b.differs(q, b.st, b.body(b.st), q, b.body(q), b.bt, "body", false)
				x.expect(diff == "", q, b.key+" refused state", o.pos, "%s: %s refuses bytes but changes %s", b.key, name, diff)
			}
		}
	}
	return acc
}

// failsClosed: after a file was made for a body and storing failed, its text is not given
// without error.
func (b *bodyRun) failsClosed(pos string) {
	for _, op := range []string{"String", "Bytes"} {
		if b.c.p.method(b.bt, op) == nil {
			continue
		}
		for _, o := range b.x.invoke(b.st, b.body(b.st), b.bt, op) {
			b.r.count("reads judged", 1)
			b.x.must(o.st, mkNot(mkEq(o.rets[1], mkNil(nil))), b.key+" after failure", o.pos, "%s: %s gives a text without error after storing in the file failed", b.key, op)
		}
	}
}

// differs: what of two bodies is not the same, "" if nothing is. Facts are those of q.
// loose: contents that are not the whole body need not be the same.
func (b *bodyRun) differs(q, sa *State, a *Term, sb *State, c *Term, t types.Type, path string, loose bool) string {
	fs := derefStruct(t)
	if fs == nil {
		if !eq(q, a, c) {
			return path
		}
		return ""
	}
	for i := 0; i < fs.NumFields(); i++ {
		ft := fs.Field(i).Type()
		name := path + "." + fs.Field(i).Name()
		fa, fc := mkFieldAddr(a, i, types.NewPointer(ft)), mkFieldAddr(c, i, types.NewPointer(ft))
		var va, vc *Term
		switch {
		case followed(types.NewPointer(ft)):
			va, vc = fa, fc
		case followed(ft):
			va, vc = q.norm(sa.load(fa, ft)), q.norm(sb.load(fc, ft))
			if va == vc && sa == sb {
				continue
			}
			an, cn := isTrue(q, mkEq(va, mkNil(nil))), isTrue(q, mkEq(vc, mkNil(nil)))
			if an != cn {
				return name
			}
			if an {
				continue
			}
			if !q.nonnil(va) || !q.nonnil(vc) {
				if va != vc {
					return name
				}
				continue
			}
		default:
			va, vc = q.norm(sa.load(fa, ft)), q.norm(sb.load(fc, ft))
			if !eq(q, va, vc) {
				return name
			}
			continue
		}
		ca, cc := b.h.content(sa, va), b.h.content(sb, vc)
		if loose && b.spare(q, va) && b.spare(q, vc) {
			continue
		}
		if !b.h.same(q, ca, cc) {
			return "the content of " + name
		}
		if !loose && b.begun {
			continue
		}
		if followedFile(va) && !eq(q, b.h.position(sa, va), b.h.position(sb, vc)) {
			return "the position in " + name
		}
	}
	return ""
}

func followedFile(o *Term) bool { return o.typ != nil && typeStr(o.typ) == "*os.File" }

func followed(t types.Type) bool {
	switch typeStr(t) {
	case "*os.File", "*bytes.Reader", "*bytes.Buffer", "*strings.Reader":
		return true
	}
	return false
}

// stores: the memory buffers, readers and files of the body.
func (b *bodyRun) stores(st *State) []*Term {
	var out []*Term
	fs := derefStruct(b.bt)
	for i := 0; fs != nil && i < fs.NumFields(); i++ {
		ft := fs.Field(i).Type()
		a := mkFieldAddr(b.body(st), i, types.NewPointer(ft))
		if followed(types.NewPointer(ft)) {
			out = append(out, a)
		} else if followed(ft) {
			if v := st.norm(st.load(a, ft)); st.nonnil(v) {
				out = append(out, v)
			}
		}
	}
	return out
}

// spare: what a memory buffer of a body beyond the memory limit contains does not matter,
// nor does what is not the whole body.
func (b *bodyRun) spare(q *State, o *Term) bool {
	if !followedFile(o) && isTrue(q, mkNot(lessEq(b.total(), b.mem))) {
		return true
	}
	return !b.h.same(q, b.h.content(q, o), b.whole)
}

// general: the contents that do not matter become unknown.
func (b *bodyRun) general() *bodyRun {
	q := b.st.clone()
	for _, o := range b.stores(q) {
		if b.spare(q, o) {
			b.h.setContent(q, o, []*Term{b.h.unknown(q)})
		}
	}
	return b.with(q)
}

// closed: the state is the one that a single write of all bytes leads to.
func (b *bodyRun) closed() {
	x, h := b.x, b.h
	q := b.st.clone()
	all := h.value(q, b.whole)
	n := 0
	for _, twin := range b.openBody(x, h, q, b.part) {
		p := all
		nf := h.count(twin.st, h.failed)
		for _, o := range x.call(twin.st, x.method(b.tt, "Append"+b.part+"Body"), twin.t, p) {
			for _, z := range split(o.st, mkEq(o.ret(), mkNil(nil))) {
				if h.count(z, h.failed) != nf || !z.saturate() {
					continue
				}
				n++
				b.r.count("histories reduced to one write", 1)
				if !isTrue(z, mkEq(o.ret(), mkNil(nil))) {
					x.expect(false, z, b.key+" same history", b.pos, "%s: bytes accepted in two writes may be refused in one", b.key)
					continue
				}
				diff := b.differs(z, z, b.body(z), z, twin.body(z), b.bt, "body", true)
				x.expect(diff == "", z, b.key+" same state", b.pos, "%s: bytes written in two writes leave another state than in one: %s", b.key, diff)
			}
		}
	}
	x.expect(n > 0, q, b.key+" same history", b.pos, "%s: bytes accepted in two writes cannot be written in one", b.key)
}

var bodyReads = []string{"String", "Bytes", "Read", "WriteTo", "Seek", "Len"}

// reads: every way to read, from the first byte on and then again, and no write after it.
func (b *bodyRun) reads() {
	for _, first := range bodyReads {
		for _, one := range b.read(first) {
			if first == "Len" {
				continue
			}
			one.begun = true
			one.key = b.key + " after " + first
			one.again()
			// anywhere in the body
			q := one.st.clone()
			at := b.h.fresh(q, "somewhere", one.total())
			for _, o := range b.stores(q) {
				b.h.setPosition(q, o, at)
			}
			any := one.with(q)
			any.at, any.key = at, b.key+" while reading"
			any.again()
		}
	}
}

func (b *bodyRun) again() {
	for _, op := range bodyReads {
		for _, two := range b.read(op) {
			b.r.count("second reads judged", 1)
			diff := b.differs(two.st, b.st, b.body(b.st), two.st, b.body(two.st), b.bt, "body", false)
			b.x.expect(diff == "", two.st, b.key+" state", two.pos, "%s: %s changes %s", b.key, op, diff)
		}
	}
	b.write(mkSym("late", b.h.bytesT), true)
	b.write(mkSym("late", b.h.bytesT), false)
}

// read makes one read and judges it.
func (b *bodyRun) read(op string) []*bodyRun {
	x, h := b.x, b.h
	m := b.c.p.method(b.bt, op)
	if m == nil {
		return nil
	}
	sig := m.Signature
	var args []*Term
	q := b.st.clone()
	for i := 0; i < sig.Params().Len(); i++ {
		a := mkSym(fmt.Sprintf("arg%d", i), sig.Params().At(i).Type())
		if ifaceType(a.typ) {
			q.assumeQuiet(nonnilCond(a), true)
		}
		args = append(args, a)
	}
	q.store(h.nread, mkInt(0), tInt)
	nf := h.count(q, h.failed)
	fits := lessEq(b.total(), b.mem)
	var out []*bodyRun
	for _, o := range x.invoke(q, b.body(q), b.bt, op, args...) {
		for _, z := range split(o.st, fits) {
			if !z.saturate() {
				continue
			}
			b.r.count("reads judged", 1)
			inMem := isTrue(z, fits)
			if !inMem && !b.wrote {
				continue // a negative limit, nothing written
			}
			if !x.expect(h.count(z, h.failed) == nf && h.count(z, h.unexpected) == 0, z, b.key+" "+op, o.pos, "%s: %s writes to the storage", b.key, op) {
				continue
			}
			n := b.with(z)
			n.pos = o.pos
			switch op {
			case "Len":
				x.must(z, mkEq(o.rets[0], b.total()), b.key+" Len", o.pos, "%s: Len is not the number of bytes accepted", b.key)
				out = append(out, n)
				continue
			case "String", "Bytes":
				ok := mkEq(o.rets[1], mkNil(nil))
				if inMem {
					x.must(z, ok, b.key+" "+op+" error", o.pos, "%s: %s gives an error for a body within the memory limit", b.key, op)
					x.expect(h.same(z, h.pieces(z, o.rets[0]), b.whole), z, b.key+" "+op+" text", o.pos, "%s: %s does not give the bytes accepted but %s", b.key, op, clip(fmt.Sprint(z.norm(o.rets[0])), 200))
				} else {
					x.must(z, mkNot(ok), b.key+" "+op+" error", o.pos, "%s: %s gives the text of a body beyond the memory limit without error", b.key, op)
					if v := b.c.p.global("modsecurity", "ErrOutOfMemLimit"); v != nil {
						g := T.mk(Term{op: OpGlobal, g: v, typ: v.Type()})
						x.must(z, mkEq(o.rets[1], z.load(g, errorType)), b.key+" "+op+" error", o.pos, "%s: the error of %s for a body beyond the memory limit is not ErrOutOfMemLimit", b.key, op)
					} else {
						b.r.violate("anchor", "modsecurity", "ErrOutOfMemLimit not found")
					}
				}
				x.expect(h.count(z, h.nread) == 0, z, b.key+" "+op, o.pos, "%s: %s reads from where Read goes on", b.key, op)
				out = append(out, n)
				continue
			}
			if h.count(z, h.nread) != 1 {
				x.expect(false, z, b.key+" "+op, o.pos, "%s: %s does not read the body once", b.key, op)
				continue
			}
			kind := map[string]int64{"Read": readInto, "WriteTo": readAllTo, "Seek": readSeek}[op]
			got := h.pieces(z, z.load(h.rdContent, h.bytesT))
			where := "the file"
			if inMem {
				where = "memory"
			}
			x.expect(h.count(z, h.rdKind) == kind, z, b.key+" "+op, o.pos, "%s: %s reads in another way", b.key, op)
			x.expect(h.same(z, got, b.whole), z, b.key+" "+op+" content", o.pos, "%s: %s does not read the bytes accepted, which are in %s, but %s", b.key, op, where, clip(fmt.Sprint(got), 200))
			x.must(z, mkEq(z.load(h.rdPos, tInt), b.at), b.key+" "+op+" position", o.pos, "%s: %s does not begin where reading has come to", b.key, op)
			for i := range args {
				x.expect(eq(z, bareObj(z, z.load(h.rdArg[i], tInt)), bareObj(z, args[i])), z, b.key+" "+op+" argument", o.pos, "%s: %s does not use the argument it is given", b.key, op)
			}
			for i := range o.rets {
				x.expect(eq(z, z.load(h.rdRes[i], tInt), o.rets[i]), z, b.key+" "+op+" result", o.pos, "%s: %s does not return what reading returned", b.key, op)
			}
			n.at = z.load(h.rdNew, tInt)
			out = append(out, n)
		}
	}
	x.expect(len(out) > 0, b.st, b.key+" "+op, b.pos, "%s: %s has no outcome", b.key, op)
	return out
}

func checkBodyBuffers(c *Ctx, r *Report) {
	r.method = methodAI + " Memory buffers, readers and files are replaced by the sequence of bytes they contain and the position in it; creating and writing files may fail."
	r.rule = "for the request and the response body of any engine, with writes of any length, given to Append…Body or Write: a write is accepted exactly if the total stays within the limit and reading has not begun, or returns the error of a failing file; a refused write changes nothing of the body; after one write of any length, and after a second one, String and Bytes give exactly the bytes accepted if they are within the memory limit and otherwise ErrOutOfMemLimit, Read, WriteTo and Seek use a source that contains exactly the bytes accepted, at the position that reading has come to, from 0; two writes leave the same state as one write of both, and a read in any state of reading changes nothing but the position, so that the rules hold for every history"
	s := c.spec(r)
	for _, part := range []string{"Request", "Response"} {
		x := s.sub()
		h := newStorage(x)
		st := x.state()
		h.start(st)
		for _, b := range s.openBody(x, h, st, part) {
			r.count("bodies", 1)
			b.key = part + " body"
			b.reads()
			for _, direct := range []bool{false, true} {
				for _, one := range b.write(mkSym("first", h.bytesT), direct) {
					one = one.general()
					one.key = b.key + " after a write"
					r.count("states after a write", 1)
					if !direct {
						one.reads()
					}
					for _, two := range one.write(mkSym("second", h.bytesT), direct) {
						two = two.general()
						two.key = b.key + " after two writes"
						r.count("states after two writes", 1)
						if !direct {
							two.reads()
						}
						two.closed()
					}
				}
			}
		}
		x.done()
	}
	s.bodyOwners()
	s.done()
	r.require("bodies", 2)
	r.require("writes judged", 40)
	r.require("reads judged", 200)
	r.require("states after two writes", 4)
	r.require("histories reduced to one write", 4)
	r.require("failing storage judged", 4)
	r.assumption("totals do not overflow; writing to a file succeeds completely or returns an error; seeking to the start of an open file succeeds; the content of a body is not specified after storing has failed, nor after Close; limits that were set when the transaction was made")
}

// bodyOwners: nothing but the constructor sets a body, nothing but Append…Body writes one.
func (s *Spec) bodyOwners() {
	p := s.c.p
	_, bt := fieldIndex(s.tt, "Request")
	if bt != nil {
		_, bt = fieldIndex(bt, "Body")
	}
	if bt == nil {
		return
	}
	made := map[*ssa.Function]bool{}
	if f := s.fn("modsecurity", "NewTransaction"); f != nil {
		for _, g := range s.ex.mod.reach(f) {
			made[g] = true
		}
	}
	writes := map[*ssa.Function]bool{}
	for _, n := range []string{"AppendRequestBody", "AppendResponseBody"} {
		if f := s.method(s.tt, n); f != nil {
			for _, g := range s.ex.mod.reach(f) {
				writes[g] = true
			}
		}
	}
	for _, f := range p.funcs {
		if !inRepo(f) {
			continue
		}
		own := f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), bt)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s.r.count("instructions looked at", 1)
				switch in := in.(type) {
				case *ssa.Store:
					if types.Identical(in.Val.Type(), bt) && !made[f] {
						if _, local := in.Addr.(*ssa.Alloc); !local {
							s.r.violate("owner "+relName(f), p.instrPos(in), "%s sets a body after the transaction was made", relName(f))
						}
					}
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g == nil || own || g.Signature.Recv() == nil || !types.Identical(g.Signature.Recv().Type(), bt) || !exportedName(g.Name()) {
						continue
					}
					s.r.count("calls of bodies", 1)
					switch g.Name() {
					case "String", "Bytes", "Read", "WriteTo", "Seek", "Len", "Close":
					default:
						if !writes[f] {
							s.r.violate("writer "+relName(f), p.instrPos(in), "%s calls %s of a body", relName(f), g.Name())
						}
					}
				}
			}
		}
	}
}
