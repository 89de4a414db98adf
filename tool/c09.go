package main

import (
	"fmt"
	"go/types"
	"mime"
	"net/http"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = checkVariables }

const (
	urlencoded = "application/x-www-form-urlencoded"
	multiform  = "multipart/form-data; boundary=xyz"
)

// bodyHooks: in addition to fetchHooks the library functions which variables get their
// data from, with their documented outcomes.
type bodyHooks struct {
	*fetchHooks
	s, x    *Spec
	header  *Term   // the header of the request
	ct      *string // its Content-Type, nil: unknown
	tooBig  *Term   // multipart.ErrMessageTooLarge
	nquery  *Term   // cell: how often a text was parsed as a query
	nform   *Term   // cell: how often a form was read
	formErr *Term   // cell: how reading the form ended: 1 well, 2 too large, 3 otherwise
	qErr    *Term   // cell: how parsing the body ended: 1 well, 2 error
	form    *Term   // cell: the form read
	textT   types.Type
	formT   types.Type
}

func (s *Spec) bodyHooks(x *Spec) *bodyHooks {
	h := &bodyHooks{fetchHooks: s.fetchHooks(x), s: s, x: x, nquery: ghostCell("queries"), nform: ghostCell("forms"), formErr: ghostCell("form error"), qErr: ghostCell("query error"), form: ghostCell("form")}
	if h.fetchHooks == nil {
		return nil
	}
	x.ex.hook = h.hook
	return h
}

// start: nothing was done yet.
func (h *bodyHooks) start(st *State) {
	for _, c := range []*Term{h.nquery, h.nform, h.formErr, h.qErr, h.parses, h.nabort, h.aborted} {
		st.store(c, mkInt(0), tInt)
	}
	h.tooBig = st.load(h.s.c.p.foreignGlobal("mime/multipart", "ErrMessageTooLarge"), errorType)
	st.assumeQuiet(nonnilCond(h.tooBig), true)
	for _, w := range []string{"verif:form", "verif:query", "verif:body does not fit"} {
		st.assumeQuiet(mkEq(h.tooBig, constErr(w)), false)
	}
}

func (h *bodyHooks) count(st *State, c *Term) int64 {
	n, ok := st.load(c, tInt).intVal()
	if !ok {
		return -1
	}
	return n
}

func bump(st *State, c *Term) { st.store(c, mkAdd(st.load(c, tInt), mkInt(1)), tInt) }

func headerGet(h *Term, key string) *Term {
	return mkPure("verif:header", []*Term{h, mkStr(key)}, tString, 0)
}

func mediaType(text *Term) *Term { return mkPure("verif:media type", []*Term{text}, tString, 0) }

// queryOf: what parsing a text as a query gives.
func queryOf(text *Term, t types.Type) *Term { return mkPure("verif:query", []*Term{text}, t, 0) }

func (h *bodyHooks) hook(f *ssa.Function, st *State, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
	if out, ok := h.fetchHooks.hook(f, st, args, in); ok {
		return out, true
	}
	res := func(i int) types.Type { return f.Signature.Results().At(i).Type() }
	switch name := fullName(f); name {
	case "(net/http.Header).Get", "(net/textproto.MIMEHeader).Get", "(net/http.Header).Values", "(net/textproto.MIMEHeader).Values":
		m := st.norm(args[0])
		key, ok := st.norm(args[1]).strVal()
		if !ok {
			return nil, false
		}
		key = http.CanonicalHeaderKey(key)
		list := strings.HasSuffix(name, "Values")
		if m == h.header && h.ct != nil && key == "Content-Type" && !list {
			return []Outcome{{st: st, rets: []*Term{mkStr(*h.ct)}}}, true
		}
		if c := st.maps[m]; c != nil && c.exact {
			v, has, known := st.mapView(m, mkStr(key))
			if !known {
				return nil, false
			}
			if !has {
				v = mkNil(nil)
			}
			if list {
				return []Outcome{{st: st, rets: []*Term{v}}}, true
			}
			l, ok := st.listOf(v)
			if !ok && has {
				return nil, false
			}
			if len(l) == 0 {
				l = []*Term{mkStr("")}
			}
			return []Outcome{{st: st, rets: []*Term{l[0]}}}, true
		}
		if list {
			return nil, false
		}
		return []Outcome{{st: st, rets: []*Term{headerGet(m, key)}}}, true
	case "mime.ParseMediaType":
		w, ok := st.norm(args[0]).strVal()
		if !ok {
			text := []*Term{st.norm(args[0])}
			return []Outcome{{st: st, rets: []*Term{mediaType(text[0]), mkPure("verif:media parameters", text, res(1), 0), mkPure("verif:media error", text, errorType, 0)}}}, true
		}
		t, params, err := mime.ParseMediaType(w)
		q := st.clone()
		m := mkNil(res(1))
		if params != nil {
			m = T.mk(Term{op: OpAlloc, aux: "verif:params of " + w, typ: res(1)})
			c := &MapC{exact: true}
			for _, k := range sortedKeys(params) {
				c.entries = append(c.entries, mapEntry{mkStr(k), mkStr(params[k])})
			}
			q.maps[m] = c
		}
		e := mkNil(nil)
		if err != nil {
			e = constErr("verif:media type")
		}
		return []Outcome{{st: q, rets: []*Term{mkStr(t), m, e}}}, true
	case "net/url.ParseQuery":
		text := st.norm(args[0])
		h.textT = res(0)
		var out []Outcome
		for k, e := range []*Term{mkNil(nil), constErr("verif:query")} {
			q := st.clone()
			if text.op != OpLoad {
				bump(q, h.nquery)
			}
			v := queryOf(text, res(0))
			q.assumeQuiet(nonnilCond(v), true)
			if text.op == OpPure && text.aux == "verif:body" {
				q.store(h.qErr, mkInt(int64(k+1)), tInt)
			}
			out = append(out, Outcome{st: q, rets: []*Term{v, e}})
		}
		return out, true
	case "(*net/url.URL).Query":
		q := st.clone()
		h.textT = res(0)
		v := queryOf(q.norm(h.s.get(q, q.norm(args[0]), f.Signature.Recv().Type(), "RawQuery")), res(0))
		q.assumeQuiet(nonnilCond(v), true)
		return []Outcome{{st: q, rets: []*Term{v}}}, true
	case "(*net/url.URL).String":
		return []Outcome{{st: st, rets: []*Term{mkPure("verif:uri", h.s.fields(st, st.norm(args[0]), f.Signature.Recv().Type()), tString, 0)}}}, true
	case "mime/multipart.NewReader":
		q := st.clone()
		r := mkPure("verif:reader", []*Term{q.norm(args[0]), q.norm(args[1])}, res(0), 0)
		q.assumeQuiet(nonnilCond(r), true)
		return []Outcome{{st: q, rets: []*Term{r}}}, true
	case "(*mime/multipart.Reader).ReadForm":
		var out []Outcome
		h.formT = res(0)
		for k := 1; k <= 3; k++ {
			q := st.clone()
			bump(q, h.nform)
			bump(q, readsOf(q.norm(args[0])))
			q.store(h.formErr, mkInt(int64(k)), tInt)
			form, err := mkNil(res(0)), mkNil(nil)
			switch k {
			case 1:
				form = mkPure("verif:form", []*Term{q.norm(args[0])}, res(0), 0)
				q.assumeQuiet(nonnilCond(form), true)
				q.heap[h.form] = form
			case 2:
				err = h.tooBig
			case 3:
				err = constErr("verif:form")
			}
			out = append(out, Outcome{st: q, rets: []*Term{form, err}})
		}
		return out, true
	case "errors.Is":
		a, b := st.norm(args[0]), st.norm(args[1])
		if h.tooBig != nil && b == st.norm(h.tooBig) {
			if a == b {
				return []Outcome{{st: st, rets: []*Term{mkBool(true)}}}, true
			}
			if a.isNil() || a.op == OpPure && a.aux == "errors.New" {
				return []Outcome{{st: st, rets: []*Term{mkBool(false)}}}, true
			}
		}
	}
	return nil, false
}

// fields: the values of the fields of a struct.
func (s *Spec) fields(st *State, x *Term, t types.Type) []*Term {
	var out []*Term
	fs := derefStruct(t)
	for i := 0; fs != nil && i < fs.NumFields(); i++ {
		ft := fs.Field(i).Type()
		out = append(out, st.norm(st.load(mkFieldAddr(x, i, types.NewPointer(ft)), ft)))
	}
	return out
}

// want is what a variable has to offer.
type want struct {
	value *Term // a value
	coll  *Term // the members of a collection
	names bool  // their names
	maybe bool  // it need not be there
}

type varCheck struct {
	*Spec
	f    *ssa.Function
	name string
}

// varRun is one configuration in which a variable is fetched.
type varRun struct {
	*Spec
	v     *varCheck
	x     *Spec
	h     *bodyHooks
	t     *Term
	st    *State
	key   string
	cache *Term
	pos   string
}

func checkVariables(c *Ctx, r *Report) {
	r.method = methodAI + " A returned list is read as what the loops that built it add for each member of a collection; library functions that read the data (net/url, net/http.Header, mime, mime/multipart) are replaced by their documented outcomes."
	r.rule = "for every variable made by a constructor and any transaction: on every path of Fetch the returned list consists exactly of the data that the README's meaning of the name denotes: the field, or per member of the right collection every value (the name once), and nothing if the data is absent; body variables for every kind of content type, method, switch and outcome of reading and parsing; cookies for all header lines of a set of shapes with arbitrary names and values; basenames for all shapes of paths up to four characters; the count variable gives the number of values of the variable it counts"
	s := c.spec(r)
	known := map[string]bool{}
	for _, f := range s.constructors("modsecurity/variables", "Variable") {
		switch n := f.Signature.Params().Len(); {
		case n == 0:
			s.variable(f, known)
		case n == 1 && types.Identical(f.Signature.Params().At(0).Type(), f.Signature.Results().At(0).Type()):
			s.countVariable(f)
		default:
			r.violate("anchor "+relName(f), c.pos(f), "a constructor of variables with another signature: %s", f.Signature)
		}
	}
	for _, n := range readmeVariables {
		if !known[n] && n != "XML" { // C08's finding
			r.violate("no variable "+n, "modsecurity/variables", "no constructor makes a variable named %q", n)
		}
	}
	s.done()
	r.require("variables", 25)
	r.require("count variables", 1)
	r.require("results judged", 200)
	r.assumption("the documented behaviour of net/url (ParseQuery, Query = ParseQuery of RawQuery, String), net/http.Header.Get, mime.ParseMediaType and mime/multipart; the transaction's fields hold what the host passed (C03, C14); selectors are C10's matter, refusing a body that does not fit or does not parse C16's. Unspecified: the order of values; cookies without a name; what ARGS_POST gives for methods other than POST, PUT and PATCH, for multipart types other than form-data and for the well-formed part of a body with parse errors")
}

func (s *Spec) variable(f *ssa.Function, known map[string]bool) {
	v := s.named(f)
	if v == nil {
		return
	}
	if known[v.name] {
		s.r.violate("twice "+v.name, s.c.pos(f), "two variables are named %s", v.name)
	}
	known[v.name] = true
	get := func(path string) func(*varRun, *State) []want {
		return func(r *varRun, q *State) []want { return []want{{value: r.get(q, path)}} }
	}
	whole := func(path string, names bool) func(*varRun, *State) []want {
		return func(r *varRun, q *State) []want { return []want{{coll: r.get(q, path), names: names}} }
	}
	// data of the URL: absent without one
	ofURL := func(f func(*varRun, *State) []want) func(*varRun, *State) []want {
		return func(r *varRun, q *State) []want {
			if isTrue(q, mkEq(r.get(q, "Request.URL"), mkNil(nil))) {
				return nil
			}
			return f(r, q)
		}
	}
	hasURL := func(r *varRun, q *State) []*Term {
		return []*Term{mkEq(r.get(q, "Request.URL"), mkNil(nil))}
	}
	query := func(names bool) func(*varRun, *State) []want {
		return ofURL(func(r *varRun, q *State) []want {
			return []want{{coll: queryOf(r.get(q, "Request.URL.RawQuery"), r.h.textT), names: names}}
		})
	}
	type conds = func(*varRun, *State) []*Term
	fixed := func(f func(*varRun, *State) []want, c conds) { v.run("", nil, f, c) }
	switch v.name {
	case "REMOTE_ADDR":
		fixed(get("NetInfo.SrcIp"), nil)
	case "REQUEST_METHOD":
		fixed(get("Request.Method"), nil)
	case "REQUEST_PROTOCOL":
		fixed(get("Request.Proto"), nil)
	case "RESPONSE_PROTOCOL":
		fixed(get("Response.Proto"), nil)
	case "RESPONSE_STATUS":
		fixed(func(r *varRun, q *State) []want {
			return []want{{value: mkPure("strconv.Itoa", []*Term{r.get(q, "Response.Code")}, tString, 0)}}
		}, nil)
	case "RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE":
		key, def := "Content-Length", "0"
		if v.name == "RESPONSE_CONTENT_TYPE" {
			key, def = "Content-Type", "application/octet-stream"
		}
		text := func(r *varRun, q *State) *Term { return headerGet(r.get(q, "Response.Header"), key) }
		fixed(func(r *varRun, q *State) []want {
			w := text(r, q)
			if isTrue(q, mkEq(w, mkStr(""))) {
				w = mkStr(def) // its own media type
			} else if key == "Content-Type" {
				w = mediaType(w)
			}
			return []want{{value: w}}
		}, func(r *varRun, q *State) []*Term { return []*Term{mkEq(text(r, q), mkStr(""))} })
	case "QUERY_STRING":
		fixed(ofURL(get("Request.URL.RawQuery")), hasURL)
	case "REQUEST_FILENAME":
		fixed(ofURL(get("Request.URL.Path")), hasURL)
	case "REQUEST_URI":
		fixed(ofURL(func(r *varRun, q *State) []want {
			u := r.get(q, "Request.URL")
			_, ut := s.addr(q, r.t, s.tt, "Request.URL")
			args := s.fields(r.st, u, ut)
			for _, n := range []string{"Scheme", "Host", "Opaque", "User"} {
				ix, ft := fieldIndex(ut, n)
				args[ix[0]] = zeroValue(ft)
			}
			return []want{{value: mkPure("verif:uri", args, tString, 0)}}
		}), hasURL)
	case "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES":
		fixed(whole("Request.Header", v.name != "REQUEST_HEADERS"), nil)
	case "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES":
		fixed(whole("Response.Header", v.name != "RESPONSE_HEADERS"), nil)
	case "ARGS_GET", "ARGS_GET_NAMES":
		fixed(query(v.name != "ARGS_GET"), hasURL)
	case "ARGS_POST", "ARGS_POST_NAMES", "ARGS", "ARGS_NAMES", "REQUEST_BODY":
		v.bodies(query(v.name == "ARGS_NAMES"), hasURL)
	case "RESPONSE_BODY":
		gate := func(r *varRun, q *State) []*Term {
			b := r.get(q, "Response.Body")
			return []*Term{r.get(q, "Engine.ResponseBodyAccess"), mkEq(bodyLen(b), mkInt(0)), bodyFits(b)}
		}
		fixed(func(r *varRun, q *State) []want {
			g := gate(r, q)
			if isTrue(q, g[0]) && isTrue(q, mkNot(g[1])) && isTrue(q, g[2]) {
				return []want{{value: bodyText(r.get(q, "Response.Body"))}}
			}
			return nil
		}, gate)
	case "REQUEST_BASENAME":
		v.basename()
	case "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES":
		v.cookies(v.name != "REQUEST_COOKIES")
	default:
		s.r.violate("unknown variable "+v.name, s.c.pos(f), "no meaning is known for the variable %s", v.name)
	}
}

func (r *varRun) get(q *State, path string) *Term { return q.norm(r.Spec.get(q, r.t, r.tt, path)) }

// start: any transaction, nothing fetched yet, of which prep holds.
func (v *varCheck) start(key string, prep func(r *varRun)) *varRun {
	r := &varRun{Spec: v.Spec, v: v, x: v.sub(), key: strings.TrimSpace(v.name + " " + key)}
	if r.h = v.bodyHooks(r.x); r.h == nil {
		return nil
	}
	r.st = r.x.state()
	r.t = r.x.tx(r.st)
	_, ct := fieldIndex(v.tt, "VariableCache")
	if ct == nil {
		v.r.violate("anchor", "modsecurity", "Transaction.VariableCache not found")
		return nil
	}
	cache := T.mk(Term{op: OpAlloc, aux: "verif:cache", typ: ct})
	r.st.maps[cache] = &MapC{exact: true}
	r.x.set(r.st, r.t, v.tt, "VariableCache", cache)
	r.cache = cache
	r.h.start(r.st)
	for _, b := range []string{"Request.Body", "Response.Body"} {
		r.st.store(readsOf(r.get(r.st, b)), mkInt(0), tInt)
	}
	if prep != nil {
		prep(r)
	}
	r.h.header = r.get(r.st, "Request.Header")
	return r
}

// run: the variable fetched once from any transaction of which prep holds; on every
// path, which is divided by the conditions, the wanted parts are returned.
func (v *varCheck) run(key string, prep func(r *varRun), wanted func(*varRun, *State) []want, conds func(*varRun, *State) []*Term) {
	r := v.start(key, prep)
	if r == nil {
		return
	}
	n := 0
	for _, o := range r.x.call(r.st, v.f) {
		for _, o := range r.x.invoke(o.st, o.st.norm(o.ret()), nil, "Fetch", r.t) {
			r.pos = o.pos
			cur := []*State{o.st}
			if conds != nil {
				for _, c := range conds(r, o.st) {
					var next []*State
					for _, q := range cur {
						if _, known := c.boolVal(); known {
							next = append(next, q)
							continue
						}
						next = append(next, split(q, c)...)
					}
					cur = next
				}
			}
			for _, q := range cur {
				if !q.saturate() {
					continue
				}
				n++
				v.r.count("results judged", 1)
				if wanted == nil {
					r.general(q, o.ret())
					continue
				}
				r.judge(q, o.ret(), wanted(r, q))
			}
			r.untouched(o.st)
		}
	}
	if n == 0 {
		v.r.violate("no result "+r.key, v.c.pos(v.f), "%s: Fetch never returns", r.key)
	}
	r.x.done()
}

// judge: the list consists of what is wanted, in any order.
func (r *varRun) judge(q *State, ret *Term, ws []want) {
	e := r.x.fetchEval(q)
	parts, ok := e.list(q, ret, nil)
	if !ok {
		r.x.expect(false, q, r.key+" list", r.pos, "%s: cannot tell what is returned: %s", r.key, e.why)
		return
	}
	used := make([]bool, len(ws))
	for _, p := range parts {
		found := false
		for i, w := range ws {
			switch {
			case used[i]:
				continue
			case p.one != nil && w.value != nil:
				found = r.x.same(q, p.one, w.value)
			case p.per != nil && w.coll != nil && p.per.container != nil:
				found = q.norm(p.per.container) == q.norm(w.coll)
			}
			if found {
				used[i] = true
				break
			}
		}
		if !found && p.per != nil && p.per.container != nil && isTrue(q, mkEq(p.per.container, mkNil(nil))) {
			continue
		}
		if !r.x.expect(found, q, r.key+" extra", r.pos, "%s: it gives %s; wanted: %s", r.key, p, wantsText(ws)) {
			return
		}
		if p.per != nil {
			sc := &selCheck{Spec: r.Spec, x: r.x, h: r.h.fetchHooks, key: r.key, pos: r.pos}
			sc.members(r.v.name, p.per, nil)
		}
	}
	for i, w := range ws {
		empty := w.coll != nil && (isTrue(q, mkEq(w.coll, mkNil(nil))) || isTrue(q, mkLE(toLin(mkLen(w.coll)))))
		r.x.expect(used[i] || empty || w.maybe, q, r.key+" missing", r.pos, "%s: it does not give %s but %s", r.key, wantsText([]want{w}), partsText(parts))
	}
}

func wantsText(ws []want) string {
	var out []string
	for _, w := range ws {
		switch {
		case w.value != nil:
			out = append(out, clip(w.value.String(), 100))
		case w.names:
			out = append(out, "the names of "+clip(w.coll.String(), 100))
		default:
			out = append(out, "the values of "+clip(w.coll.String(), 100))
		}
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, " and ")
}

// same: two values are equal on the path.
func (s *Spec) same(q *State, a, b *Term) bool {
	a, b = q.norm(a), q.norm(b)
	if a == b || isTrue(q, s.ex.equal(q, a, b)) {
		return true
	}
	return a.op == OpPure && b.op == OpPure && a.aux == b.aux && len(a.args) == len(b.args) && a != b && func() bool {
		for i := range a.args {
			if !s.same(q, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}()
}

// untouched: fetching does not change the URL of the request.
func (r *varRun) untouched(q *State) {
	u := r.get(r.st, "Request.URL")
	if isTrue(q, mkEq(u, mkNil(nil))) {
		return
	}
	_, ut := r.addr(q, r.t, r.tt, "Request.URL")
	was, is := r.fields(r.st, u, ut), r.fields(q, u, ut)
	for i := range was {
		r.x.expect(q.norm(was[i]) == is[i], q, r.key+" URL", r.pos, "%s: fetching changes the URL of the request", r.key)
	}
}

// bodies: the variables that read the body of the request.
var contentTypes = []string{"", urlencoded, urlencoded + "; charset=utf-8", "Application/X-WWW-Form-Urlencoded", multiform, "Multipart/Form-Data; charset=utf-8; Boundary=\"xyz\"", "text/plain", "application/json; a=b", "application/octet-stream", ";"}

func (v *varCheck) bodies(query func(*varRun, *State) []want, hasURL func(*varRun, *State) []*Term) {
	for _, ct := range contentTypes {
		for _, method := range []string{"POST", "PUT", "PATCH", ""} {
			ct, method := ct, method
			v.run(fmt.Sprintf("%s %q", method, ct), v.bodyOf(method, ct), v.bodyWanted(ct, query), func(r *varRun, q *State) []*Term {
				var out []*Term
				if v.union() {
					out = hasURL(r, q)
				}
				return append(out, r.requestGates(q)...)
			})
		}
	}
}

// union: a variable of both query and body.
func (v *varCheck) union() bool {
	return strings.HasPrefix(v.name, "ARGS") && !strings.HasPrefix(v.name, "ARGS_POST") && !strings.HasPrefix(v.name, "ARGS_GET")
}

// ofBody: a variable of the request's body.
func (v *varCheck) ofBody() bool {
	return v.union() || strings.HasPrefix(v.name, "ARGS_POST") || v.name == "REQUEST_BODY"
}

func (r *varRun) requestGates(q *State) []*Term {
	b := r.get(q, "Request.Body")
	return []*Term{r.get(q, "Engine.RequestBodyAccess"), mkEq(bodyLen(b), mkInt(0)), bodyFits(b)}
}

// bodyOf: a request with the method, if any, and the content type.
func (v *varCheck) bodyOf(method, ct string) func(r *varRun) {
	return func(r *varRun) {
		r.h.ct = &ct
		if method != "" {
			r.x.set(r.st, r.t, v.tt, "Request.Method", mkStr(method))
		}
	}
}

// otherMethod: the method is none of those with a body to inspect.
func (r *varRun) otherMethod(q *State) bool {
	for _, m := range []string{"POST", "PUT", "PATCH"} {
		if !isTrue(q, mkNot(mkEq(r.get(q, "Request.Method"), mkStr(m)))) {
			return false
		}
	}
	return true
}

func (r *varRun) requestOpen(q *State) bool {
	g := r.requestGates(q)
	return isTrue(q, g[0]) && isTrue(q, mkNot(g[1]))
}

func (v *varCheck) bodyWanted(ct string, query func(*varRun, *State) []want) func(r *varRun, q *State) []want {
	args, names := strings.HasPrefix(v.name, "ARGS"), strings.HasSuffix(v.name, "_NAMES")
	return func(r *varRun, q *State) []want {
		var out []want
		if v.union() {
			out = query(r, q)
		}
		b := r.get(q, "Request.Body")
		if !r.requestOpen(q) {
			return out
		}
		maybe := r.otherMethod(q)
		switch t, _, _ := mime.ParseMediaType(ct); t {
		case urlencoded:
			switch {
			case !isTrue(q, bodyFits(b)):
			case !args:
				out = append(out, want{value: bodyText(b), maybe: maybe})
			default:
				out = append(out, want{coll: queryOf(bodyText(b), r.h.textT), names: names, maybe: maybe || r.h.count(q, r.h.qErr) == 2})
			}
		case "multipart/form-data":
			if !args || r.h.count(q, r.h.formErr) > 1 {
				break
			}
			w := want{coll: mkSym("the form", nil), names: names, maybe: maybe}
			if f := q.heap[r.h.form]; f != nil {
				src, bound := f.args[0].args[0], f.args[0].args[1]
				if q.norm(plainBody(src)) == b && q.norm(bound) == mkStr("xyz") {
					w.coll = q.norm(r.Spec.get(q, f, r.h.formT, "Value"))
				}
			}
			out = append(out, w)
		}
		return out
	}
}

// plainBody: a body as it was converted to a reader.
func plainBody(t *Term) *Term {
	for t.op == OpIface && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// basename: the last segment of the path.
func (v *varCheck) basename() {
	wanted := func(name *Term) func(r *varRun, q *State) []want {
		return func(r *varRun, q *State) []want {
			if isTrue(q, mkEq(r.get(q, "Request.URL"), mkNil(nil))) {
				return nil
			}
			return []want{{value: name}}
		}
	}
	hasURL := func(r *varRun, q *State) []*Term {
		return []*Term{mkEq(r.get(q, "Request.URL"), mkNil(nil))}
	}
	var gen func(p string)
	gen = func(p string) {
		var parts []interface{}
		last := mkStr("")
		sep := true
		for i, k := range p {
			if k != 'o' {
				parts = append(parts, string(k))
				sep = true
				continue
			}
			c := mkChar(fmt.Sprint("char", i), "/\\")
			parts = append(parts, c)
			if sep {
				last = mkStr("")
			}
			last, sep = mkText(last, c), false
		}
		if last == mkStr("") {
			last = mkStr("/")
		}
		v.r.count("paths of URLs", 1)
		v.run(fmt.Sprintf("of the path %q", p), func(r *varRun) {
			_, ut := r.addr(r.st, r.t, r.tt, "Request.URL")
			u := r.get(r.st, "Request.URL")
			r.st.assumeQuiet(nonnilCond(u), true)
			r.x.set(r.st, u, ut, "Path", mkText(parts...))
			r.x.ex.unrollMaps = true
		}, wanted(last), hasURL)
		if len(p) < 4 {
			for _, k := range []string{"/", "\\", "o"} {
				gen(p + k)
			}
		}
	}
	gen("")
	v.run("of any path", nil, nil, hasURL)
}

// cookies: the pairs of the Cookie header.
func (v *varCheck) cookies(names bool) {
	type piece struct {
		text, name, value *Term // name nil: nothing
	}
	n := 0
	mk := func(kind, key string) piece {
		n++
		name := mkText(key, mkAtom(fmt.Sprintf("name%s%d", key, n), "=; \t\n\v\f\r", 1))
		if key == "same" {
			name = mkText(key)
		}
		val := mkAtom(fmt.Sprintf("value%d", n), "; \t\n\v\f\r", 1)
		val2 := mkAtom(fmt.Sprintf("more%d", n), "; \t\n\v\f\r", 1)
		switch kind {
		case "":
			return piece{mkStr(""), nil, nil}
		case " ", " \t ":
			return piece{mkStr(kind), nil, nil}
		case "n":
			return piece{name, name, mkStr("")}
		case " n":
			return piece{mkText(" ", name), name, mkStr("")}
		case "n=":
			return piece{mkText(name, "="), name, mkStr("")}
		case "n=v":
			return piece{mkText(name, "=", val), name, val}
		case " n=v":
			return piece{mkText(" ", name, "=", val), name, val}
		case "\tn=v  ":
			return piece{mkText("\t", name, "=", val, "  "), name, val}
		case "n=v=w":
			return piece{mkText(name, "=", val, "=", val2), name, mkText(val, "=", val2)}
		case "n==":
			return piece{mkText(name, "=="), name, mkStr("=")}
		case "n=v w":
			return piece{mkText(name, "=", val, " ", val2), name, mkText(val, " ", val2)}
		case "n=\"v\"":
			return piece{mkText(name, "=\"", val), name, mkText("\"", val)}
		}
		panic(kind)
	}
	run := func(lines [][]piece, what string) {
		var texts []*Term
		var ws []want
		var order []*Term
		seen := map[*Term]bool{}
		for _, l := range lines {
			t := mkStr("")
			for i, p := range l {
				if i > 0 {
					t = mkText(t, ";")
				}
				t = mkText(t, p.text)
				switch {
				case p.name == nil:
				case !names:
					ws = append(ws, want{value: p.value})
				case !seen[p.name]:
					seen[p.name] = true
					ws = append(ws, want{value: p.name})
				}
			}
			texts = append(texts, mkSingle(t))
			order = append(order, t)
		}
		v.r.count("cookie headers", 1)
		v.run("of the cookies "+what, func(r *varRun) {
			_, ht := r.addr(r.st, r.t, r.tt, "Request.Header")
			lt := ht.Underlying().(*types.Map).Elem()
			m := T.mk(Term{op: OpAlloc, aux: "verif:header", typ: ht})
			c := &MapC{exact: true}
			c.entries = append(c.entries, mapEntry{mkStr("Accept"), mkSeq([]*Term{mkSingle(mkAtom("accepted", "", 0))}, lt)})
			if lines != nil {
				c.entries = append(c.entries, mapEntry{mkStr("Cookie"), mkSeq(texts, lt)})
			}
			c.entries = append(c.entries, mapEntry{mkStr("Set-Cookie"), mkSeq([]*Term{mkSingle(mkAtom("set", "", 0))}, lt)})
			r.st.maps[m] = c
			r.st.assumeQuiet(nonnilCond(m), true)
			r.x.set(r.st, r.t, r.tt, "Request.Header", m)
			r.x.ex.unrollMaps = true
			assumeAtoms(r.st, order...)
		}, func(*varRun, *State) []want { return ws }, nil)
	}
	kinds := []string{"", " ", " \t ", "n", " n", "n=", "n=v", " n=v", "\tn=v  ", "n=v=w", "n==", "n=v w", "n=\"v\""}
	some := []string{"", " n", "n=v", " n=v"}
	run(nil, "absent")
	run([][]piece{}, "without lines")
	for _, a := range kinds {
		run([][]piece{{mk(a, "")}}, fmt.Sprintf("%q", a))
		for _, b := range kinds {
			run([][]piece{{mk(a, "a"), mk(b, "b")}}, fmt.Sprintf("%q;%q", a, b))
			run([][]piece{{mk(a, "a")}, {mk(b, "b")}}, fmt.Sprintf("%q, %q", a, b))
			if strings.Contains(a, "n") && strings.Contains(b, "n") {
				run([][]piece{{mk(a, "same"), mk(b, "same")}}, fmt.Sprintf("%q;%q of the same name", a, b))
				run([][]piece{{mk(a, "same")}, {mk(b, "same")}}, fmt.Sprintf("%q, %q of the same name", a, b))
			}
		}
	}
	for _, a := range some {
		for _, b := range some {
			for _, c := range some {
				run([][]piece{{mk(a, "a"), mk(b, "b"), mk(c, "c")}}, fmt.Sprintf("%q;%q;%q", a, b, c))
				run([][]piece{{mk(a, "a"), mk(b, "b")}, {mk(c, "c")}}, fmt.Sprintf("%q;%q, %q", a, b, c))
				run([][]piece{{mk(a, "a")}, {mk(b, "b")}, {mk(c, "c")}}, fmt.Sprintf("%q, %q, %q", a, b, c))
				for _, d := range some {
					run([][]piece{{mk(a, "a"), mk(b, "b"), mk(c, "c"), mk(d, "d")}}, fmt.Sprintf("%q;%q;%q;%q", a, b, c, d))
				}
			}
		}
	}
	v.run("of any cookies", nil, nil, nil)
}

func (s *Spec) countVariable(f *ssa.Function) {
	x := s.sub()
	st := x.state()
	t := x.tx(st)
	vt := f.Signature.Params().At(0).Type()
	inner := mkSym("counted", vt)
	st.assumeQuiet(nonnilCond(inner), true)
	key := relName(f)
	for _, o := range x.call(st, f, inner) {
		v := o.st.norm(o.ret())
		s.r.count("count variables", 1)
		for _, p := range x.invoke(o.st, v, vt, "Name") {
			var call *Term
			for _, e := range p.st.ev.since(o.st.ev) {
				if isIfaceCall(e, "Variable", "Name") && p.st.norm(e.recv) == p.st.norm(inner) {
					call = e.res
				}
			}
			x.expect(call != nil && p.st.norm(p.ret()) == p.st.norm(call), p.st, key+" name", p.pos, "the count variable made by %s has another name than the variable it counts", key)
		}
		n := 0
		for _, p := range x.invoke(o.st, v, vt, "Fetch", t) {
			n++
			s.r.count("results judged", 1)
			var calls []*Term
			for _, e := range p.st.ev.since(o.st.ev) {
				if isIfaceCall(e, "Variable", "Fetch") && p.st.norm(e.recv) == p.st.norm(inner) && p.st.norm(e.args[len(e.args)-1]) == t {
					calls = append(calls, e.res)
				}
			}
			good := false
			if l, ok := p.st.listOf(p.st.norm(p.ret())); ok && len(l) == 1 && len(calls) == 1 {
				if c, ok := countOf(p.st, l[0]); ok {
					good = p.st.norm(c) == p.st.norm(calls[0]) || c.isNil() && isTrue(p.st, mkLE(toLin(mkLen(calls[0]))))
				}
			}
			x.expect(good, p.st, key+" count", p.pos, "the count variable made by %s gives %s, not the number of values of the variable it counts", key, clip(p.ret().String(), 150))
		}
		x.expect(n > 0, o.st, key+" none", o.pos, "Fetch of the count variable never returns")
	}
	x.done()
}

// general: a result that was judged for small data only must not depend on its size.
func (r *varRun) general(q *State, ret *Term) {
	var facts []*Term
	facts = append(facts, q.forder...)
	for _, rec := range r.x.fetchEval(q).recs {
		for _, o := range rec.outs {
			facts = append(facts, o.facts...)
		}
		if rec.container != nil {
			facts = append(facts, rec.container)
		}
	}
	seen := map[*Term]bool{}
	for _, f := range facts {
		walkTerm(f, seen, func(t *Term) {
			if t.op == OpPure && strings.HasPrefix(t.aux, "strings.Split") && len(t.args) == 3 {
				n, ok := t.args[2].intVal()
				r.x.expect(ok && n <= 3, q, r.key+" limit", r.pos, "%s: the result depends on the size of the data: %s", r.key, clip(t.String(), 120))
			}
			if t.op != OpLE && t.op != OpEq {
				return
			}
			var l lin
			if t.op == OpLE {
				l = toLin(t.args[0])
			} else if isInt(t.args[0].typ) || isInt(t.args[1].typ) {
				l = toLin(t.args[0]).add(toLin(t.args[1]), -1)
			}
			small := len(l.c) > 0
			for x := range l.c {
				small = small && isChar(x)
			}
			r.x.expect(small || abs64(l.k) <= 3, q, r.key+" limit", r.pos, "%s: the result depends on the size of the data: %s", r.key, clip(t.String(), 120))
		})
	}
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// isChar: a byte or rune.
func isChar(t *Term) bool {
	for t.op == OpConv && len(t.args) == 1 {
		t = t.args[0]
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

var readCells = map[*Term]*Term{}

// readsOf: the cell that counts how often a body is read.
func readsOf(b *Term) *Term {
	if b.op == OpPure && b.aux == "verif:reader" {
		b = b.args[0]
	}
	b = plainBody(b)
	if readCells[b] == nil {
		readCells[b] = ghostCell("reads of " + b.String())
	}
	return readCells[b]
}
