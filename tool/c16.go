package main

import (
	"fmt"
	"go/types"
	"mime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkBodyGates }

func checkBodyGates(c *Ctx, r *Report) {
	r.method = methodAI + " Reading a body, forms and queries are replaced by their documented outcomes."
	r.rule = "for every variable, any transaction, every kind of content type and method: on every path of Fetch that reads a body its access is on and its length is not 0; if a body that the variable needs does not fit in memory, the path aborts with 413 (request) or 500 (response), and nothing aborts otherwise; an error of parsing is recorded in RequestBodyError, which no path clears or sets without one; for any two body variables fetched one after the other, each type of body is parsed once, the second sees the same data, and leaves what is cached as it is; no other code reads a body or writes the cache or the error"
	s := c.spec(r)
	var vars []*varCheck
	known := map[string]bool{}
	for _, f := range s.constructors("modsecurity/variables", "Variable") {
		if f.Signature.Params().Len() != 0 {
			continue
		}
		v := s.named(f)
		if v == nil {
			continue
		}
		known[v.name] = true
		vars = append(vars, v)
		s.gates(v)
	}
	for _, n := range []string{"REQUEST_BODY", "RESPONSE_BODY", "ARGS", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES"} {
		if !known[n] {
			r.violate("no variable "+n, "modsecurity/variables", "no constructor makes a variable named %q", n)
		}
	}
	for _, v := range vars {
		for _, w := range vars {
			if v.ofBody() && w.ofBody() {
				s.twice(v, w)
			}
		}
	}
	s.bodyUsers()
	s.done()
	r.require("variables", 25)
	r.require("paths judged", 500)
	r.require("paths that read a body", 100)
	r.require("pairs of variables", 25)
	r.require("second fetches judged", 150)
	r.assumption("the in-memory text of a body is given without error exactly if the body fits in memory (C17); AbortWithError makes the verdict disruptive with its status (C14, C24); the documented behaviour of net/url, mime and mime/multipart. What a parser makes of the well-formed part of a query with errors is offered with the error recorded; a method other than POST, PUT and PATCH and other content types need no inspection")
}

// named: the variable a constructor makes.
func (s *Spec) named(f *ssa.Function) *varCheck {
	x := s.sub()
	names := map[string]bool{}
	for _, o := range x.call(x.state(), f) {
		for _, p := range x.invoke(o.st, o.st.norm(o.ret()), nil, "Name") {
			n, ok := p.st.norm(p.ret()).strVal()
			s.expect(ok, p.st, relName(f)+" name", p.pos, "the name of the variable made by %s is not known", relName(f))
			names[n] = true
		}
	}
	if len(names) != 1 {
		s.r.violate("name "+relName(f), s.c.pos(f), "the variable made by %s has %d names", relName(f), len(names))
		return nil
	}
	v := &varCheck{Spec: s, f: f}
	for v.name = range names {
	}
	s.r.count("variables", 1)
	return v
}

// needs: this path of the variable depends on the body of the request.
func (v *varCheck) needs(r *varRun, q *State, kind string) bool {
	if !v.ofBody() || !r.requestOpen(q) || r.otherMethod(q) {
		return false
	}
	return kind == urlencoded || v.name != "REQUEST_BODY" && kind == "multipart/form-data"
}

func (s *Spec) gates(v *varCheck) {
	for _, ct := range contentTypes {
		for _, method := range []string{"POST", "PUT", "PATCH", ""} {
			r := v.start(fmt.Sprintf("%s %q", method, ct), v.bodyOf(method, ct))
			if r == nil {
				return
			}
			was := r.get(r.st, "Errors.RequestBodyError")
			r.st.assumeQuiet(mkEq(was, mkNil(nil)), true) // nothing was parsed yet
			for _, o := range r.x.call(r.st, v.f) {
				for _, o := range r.x.invoke(o.st, o.st.norm(o.ret()), nil, "Fetch", r.t) {
					r.pos = o.pos
					cur := []*State{o.st}
					resp := r.get(o.st, "Response.Body")
					for _, c := range append(r.requestGates(o.st), r.get(o.st, "Engine.ResponseBodyAccess"), mkEq(bodyLen(resp), mkInt(0)), bodyFits(resp)) {
						var next []*State
						for _, q := range cur {
							next = append(next, split(q, c)...)
						}
						cur = next
					}
					for _, q := range cur {
						if q.saturate() {
							r.gated(q, ct, was)
							r.whole(q, o.ret())
						}
					}
				}
			}
			r.x.done()
			if !v.ofBody() {
				break
			}
		}
		if !v.ofBody() {
			break
		}
	}
}

// gated judges one path.
func (r *varRun) gated(q *State, ct string, was *Term) {
	v, h := r.v, r.h
	r.Spec.r.count("paths judged", 1)
	kind, _, _ := mime.ParseMediaType(ct)
	req, resp := r.get(q, "Request.Body"), r.get(q, "Response.Body")
	nreq, nresp, all, nform := h.count(q, readsOf(req)), h.count(q, readsOf(resp)), h.count(q, h.parses), h.count(q, h.nform)
	if nreq+nresp > 0 {
		r.Spec.r.count("paths that read a body", 1)
	}
	r.x.expect(all+nform == nreq+nresp, q, r.key+" other body", r.pos, "%s: it reads a body that is not known", r.key)
	r.x.expect(nreq == 0 || r.requestOpen(q), q, r.key+" access", r.pos, "%s: it reads the request's body although access to it may be off or it may be empty", r.key)
	open := isTrue(q, r.get(q, "Engine.ResponseBodyAccess")) && isTrue(q, mkNot(mkEq(bodyLen(resp), mkInt(0))))
	r.x.expect(nresp == 0 || open, q, r.key+" access", r.pos, "%s: it reads the response's body although access to it may be off or it may be empty", r.key)
	status, n := q.norm(q.load(h.aborted, tInt)), h.count(q, h.nabort)
	form, query := h.count(q, h.formErr), h.count(q, h.qErr)
	want := int64(0)
	switch {
	case v.needs(r, q, kind) && kind == urlencoded && !isTrue(q, bodyFits(req)):
		want = 413
	case v.needs(r, q, kind) && kind != urlencoded && form == 2:
		want = 413
	case v.name == "RESPONSE_BODY" && open && !isTrue(q, bodyFits(resp)):
		want = 500
	}
	if want != 0 {
		r.x.expect(n > 0 && status == mkInt(want), q, r.key+" fail closed", r.pos, "%s: the body does not fit in memory, but the transaction is not aborted with status %d", r.key, want)
	} else if n != 0 {
		cause := nreq > 0 && (form > 1 || query == 2 || nform == 0 && !isTrue(q, bodyFits(req))) || nresp > 0 && !isTrue(q, bodyFits(resp))
		r.x.expect(cause, q, r.key+" abort", r.pos, "%s: the transaction is aborted although the body can be inspected", r.key)
	}
	r.recorded(q, was, form > 1 || query == 2, nreq > 0 && !isTrue(q, bodyFits(req)))
	if !r.v.ofBody() {
		r.x.expect(nreq == 0 && (nresp == 0 || v.name == "RESPONSE_BODY"), q, r.key+" reads", r.pos, "%s: it reads a body, which is not its data", r.key)
	}
}

// whole: no part of a body that does not fit is given.
func (r *varRun) whole(q *State, ret *Term) {
	parts, ok := r.x.fetchEval(q).list(q, ret, nil)
	if !ok {
		r.x.expect(false, q, r.key+" list", r.pos, "%s: cannot tell what is returned", r.key)
		return
	}
	for _, p := range parts {
		t := p.one
		if p.spread != nil {
			t = p.spread
		} else if p.per != nil {
			t = p.per.container
		}
		bad := t == nil
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			bad = bad || x.op == OpPure && x.aux == "verif:truncated"
		})
		r.x.expect(!bad, q, r.key+" truncated", r.pos, "%s: part of a body that does not fit in memory is given", r.key)
	}
}

// recorded: RequestBodyError is set if there was an error, kept if it was set, and else
// not set.
func (r *varRun) recorded(q *State, was *Term, failed, may bool) {
	is := r.get(q, "Errors.RequestBodyError")
	for _, p := range split(q, mkEq(was, mkNil(nil))) {
		none := isTrue(p, mkEq(was, mkNil(nil)))
		now := p.norm(is)
		switch {
		case failed:
			r.x.expect(isTrue(p, nonnilCond(now)), p, r.key+" record", r.pos, "%s: an error of parsing the body is not recorded in RequestBodyError", r.key)
		case !none:
			r.x.expect(isTrue(p, nonnilCond(now)), p, r.key+" clear", r.pos, "%s: a recorded RequestBodyError is cleared", r.key)
		case !may:
			r.x.expect(isTrue(p, mkEq(now, mkNil(nil))), p, r.key+" no error", r.pos, "%s: RequestBodyError is set although there was no error", r.key)
		}
	}
}

// offered: the parts of a result that come from a body.
func (r *varRun) offered(q *State, ret *Term) (string, bool) {
	parts, ok := r.x.fetchEval(q).list(q, ret, nil)
	if !ok {
		return "", false
	}
	var out []string
	for _, p := range parts {
		var t *Term
		switch {
		case p.one != nil:
			t = p.one
		case p.spread != nil:
			t = p.spread
		case p.per != nil:
			t = p.per.container
		}
		if t == nil {
			return "", false
		}
		t = q.norm(t)
		of := false
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			of = of || x.op == OpPure && (x.aux == "verif:body" || x.aux == "verif:form" || x.aux == "verif:truncated")
		})
		if of {
			out = append(out, fmt.Sprint(t.id))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " "), true
}

// twice: two body variables fetched one after the other.
func (s *Spec) twice(v, w *varCheck) {
	s.r.count("pairs of variables", 1)
	for _, ct := range []string{urlencoded, multiform, "text/plain"} {
		prep := v.bodyOf("POST", ct)
		r := v.start(fmt.Sprintf("%q, then %s", ct, w.name), func(r *varRun) {
			prep(r)
			r.st.assumeQuiet(r.get(r.st, "Engine.RequestBodyAccess"), true)
			r.st.assumeQuiet(mkEq(bodyLen(r.get(r.st, "Request.Body")), mkInt(0)), false)
			r.st.assumeQuiet(nonnilCond(r.get(r.st, "Request.URL")), true)
			r.st.assumeQuiet(mkEq(r.get(r.st, "Errors.RequestBodyError"), mkNil(nil)), true)
		})
		if r == nil {
			return
		}
		second := 0
		for _, a := range r.x.call(r.st, v.f) {
			for _, b := range r.x.call(a.st, w.f) {
				vv, wv := b.st.norm(a.ret()), b.st.norm(b.ret())
				for _, o1 := range r.x.invoke(b.st, vv, nil, "Fetch", r.t) {
					first, ok := r.offered(o1.st, o1.ret())
					if !r.x.expect(ok, o1.st, r.key+" first", o1.pos, "%s: cannot tell what the first gives", r.key) {
						continue
					}
					err1 := r.get(o1.st, "Errors.RequestBodyError")
					for _, o2 := range r.x.invoke(o1.st, wv, nil, "Fetch", r.t) {
						q := o2.st
						if !q.saturate() {
							continue
						}
						second++
						s.r.count("second fetches judged", 1)
						r.pos = o2.pos
						h := r.h
						nq, nf := h.count(q, h.nquery), h.count(q, h.nform)
						r.x.expect(nq >= 0 && nq <= 1 && nf >= 0 && nf <= 1, q, r.key+" parse", r.pos, "%s: a body is parsed more than once", r.key)
						now, ok := r.offered(q, o2.ret())
						args := v.name != "REQUEST_BODY" && w.name != "REQUEST_BODY"
						r.x.expect(ok && (!args || now == first), q, r.key+" same", r.pos, "%s: the second fetch sees other data of the body than the first", r.key)
						if h.count(o1.st, h.nquery)+h.count(o1.st, h.nform) > 0 {
							r.x.expect(r.sameCache(o1.st, q), q, r.key+" cache", r.pos, "%s: the second fetch changes what is cached", r.key)
						}
						if is := r.get(q, "Errors.RequestBodyError"); is != q.norm(err1) {
							r.recorded(q, err1, false, h.count(o1.st, h.nquery)+h.count(o1.st, h.nform) == 0)
						}
						if !args && ct == urlencoded && h.count(q, h.qErr) <= 1 {
							r.x.expect(w.union() || isTrue(q, bodyFits(r.get(q, "Request.Body"))) == (now != ""), q, r.key+" second", r.pos, "%s: the second fetch does not give the data of the body", r.key)
						}
					}
				}
			}
		}
		s.expect(second > 0, r.st, r.key+" none", s.c.pos(v.f), "%s: Fetch never returns", r.key)
		r.x.done()
	}
}

// sameCache: what is cached is the same in both states.
func (r *varRun) sameCache(a, b *State) bool {
	if r.get(a, "VariableCache") != r.get(b, "VariableCache") {
		return false
	}
	ca, cb := a.maps[r.cache], b.maps[r.cache]
	if ca == nil || cb == nil || !ca.exact || !cb.exact {
		return ca == cb
	}
	view := func(st *State, c *MapC) map[string]*Term {
		out := map[string]*Term{}
		for _, e := range c.entries {
			out[st.norm(e.k).String()] = b.norm(e.v)
		}
		return out
	}
	va, vb := view(a, ca), view(b, cb)
	if len(va) != len(vb) {
		return false
	}
	for k, x := range va {
		if vb[k] != x {
			return false
		}
	}
	return true
}

// bodyUsers: bodies are read, and the cache and the error written, by variables only.
func (s *Spec) bodyUsers() {
	p := s.c.p
	_, bt := fieldIndex(s.tt, "Request")
	if bt != nil {
		_, bt = fieldIndex(bt, "Body")
	}
	if bt == nil {
		return
	}
	fetch := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	for _, f := range p.funcs {
		if f.Name() == "Fetch" && f.Signature.Recv() != nil && f.Signature.Params().Len() == 1 && types.Identical(f.Signature.Params().At(0).Type(), s.tt) {
			roots = append(roots, f)
		}
	}
	for _, f := range s.ex.mod.reach(roots...) {
		fetch[f] = true
	}
	// functions that other code reaches as well
	seen := map[*ssa.Function]bool{}
	for _, f := range roots {
		seen[f] = true
	}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		delete(fetch, f)
		s.ex.mod.scan(f)
		for _, g := range s.ex.mod.callees[f] {
			walk(g)
		}
	}
	for _, f := range p.funcs {
		if inRepo(f) && !fetch[f] && f.Name() != "init" {
			walk(f)
		}
	}
	s.r.count("functions that only variables reach", len(fetch))
	isBody := func(t types.Type) bool { return types.Identical(t, bt) }
	reading := map[string]bool{"String": true, "Bytes": true, "Read": true, "WriteTo": true, "Seek": true}
	for _, f := range p.funcs {
		if !inRepo(f) {
			continue
		}
		if recv := f.Signature.Recv(); recv != nil && isBody(recv.Type()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s.r.count("instructions looked at", 1)
				pos := p.instrPos(in)
				switch in := in.(type) {
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil && isBody(g.Signature.Recv().Type()) && reading[g.Name()] {
						s.r.count("body reads", 1)
						if !fetch[f] {
							s.r.violate("reader "+relName(f), pos, "%s reads a body outside of variables", relName(f))
						} else if g.Name() != "String" && g.Name() != "Bytes" {
							s.r.violate("reader "+relName(f), pos, "%s reads a body by %s: what it reads is not known", relName(f), g.Name())
						}
					}
				case *ssa.MakeInterface:
					if isBody(in.X.Type()) && !fetch[f] {
						s.r.violate("reader "+relName(f), pos, "%s hands out a body as %s outside of variables", relName(f), in.Type())
					}
				case *ssa.FieldAddr:
					s.cacheUse(f, in, fetch[f])
				}
			}
		}
	}
	s.r.require("body reads", 1)
}

// cacheUse: a use of the cache or the recorded error.
func (s *Spec) cacheUse(f *ssa.Function, in *ssa.FieldAddr, fetch bool) {
	fs := derefStruct(in.X.Type())
	if fs == nil {
		return
	}
	name := fs.Field(in.Field).Name()
	if name != "VariableCache" && name != "RequestBodyError" {
		return
	}
	s.r.count("uses of cache and error", 1)
	if _, fresh := in.X.(*ssa.Alloc); fetch || fresh {
		return
	}
	for _, u := range *in.Referrers() {
		bad := false
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			for _, w := range *u.Referrers() {
				switch w := w.(type) {
				case *ssa.MapUpdate:
					bad = bad || w.Map == u
				case ssa.CallInstruction:
					b, isBuiltin := w.Common().Value.(*ssa.Builtin)
					bad = bad || name == "VariableCache" && !(isBuiltin && b.Name() == "len")
				case *ssa.Store, *ssa.MakeInterface, *ssa.Phi, *ssa.MakeClosure:
					bad = bad || name == "VariableCache"
				}
			}
		default:
			bad = true
		}
		if bad {
			s.r.violate("writer "+relName(f), s.c.p.instrPos(u), "%s may change %s outside of variables", relName(f), name)
		}
	}
}
