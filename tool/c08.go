package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() { checks["C08"] = func(c *Ctx, r *Report) { bothOrders(func() { checkNames(c, r) }) } }

// The names the README lists as supported.
var (
	readmeVariables  = strings.Fields("ARGS ARGS_NAMES QUERY_STRING REMOTE_ADDR REQUEST_BASENAME REQUEST_BODY REQUEST_COOKIES REQUEST_COOKIES_NAMES REQUEST_FILENAME REQUEST_HEADERS REQUEST_HEADERS_NAMES REQUEST_METHOD REQUEST_PROTOCOL REQUEST_URI RESPONSE_BODY RESPONSE_CONTENT_LENGTH RESPONSE_CONTENT_TYPE RESPONSE_HEADERS RESPONSE_HEADERS_NAMES RESPONSE_PROTOCOL RESPONSE_STATUS XML")
	readmeOperators  = strings.Fields("rx eq ge gt le lt")
	readmeActions    = strings.Fields("allow msg id rev ver severity log deny block status phase t skip chain logdata setvar capture pass")
	readmeTransforms = strings.Fields("lowercase urlDecode urlDecodeUni none compressWhitespace removeWhitespace replaceNulls removeNulls")
)

// metaNames: actions that record their argument under their own name.
var metaNames = map[string]bool{"msg": true, "rev": true, "ver": true, "severity": true, "logdata": true, "tag": true}

// actionArg: an argument which each action accepts.
var actionArg = map[string]string{"id": ":12", "phase": ":3", "t": ":none", "severity": ":5", "status": ":403", "msg": ":m", "rev": ":m", "ver": ":m", "logdata": ":m", "tag": ":m"}

// tableNames: the texts which the tables of the rule language know (keys of the maps from
// names to tokens, as the init functions leave them).
func (s *Spec) tableNames() []string {
	st := s.state()
	seen := map[string]bool{}
	for _, m := range st.maps {
		if m == nil || !m.exact {
			continue
		}
		for _, e := range m.entries {
			if k, ok := e.k.strVal(); ok {
				seen[k] = true
			}
		}
	}
	// names that parts give themselves
	for _, pi := range [][2]string{{"modsecurity/variables", "Variable"}, {"modsecurity/operators", "Operator"}, {"modsecurity/actions", "Action"}, {"modsecurity/transforms", "Trans"}} {
		it := s.c.p.iface("modsecurity", pi[1])
		if it == nil {
			continue
		}
		for _, t := range s.c.p.implementers(it) {
			x := s.sub()
			for _, o := range x.call(x.state(), s.c.p.method(t, "Name"), x.args(x.state(), s.c.p.method(t, "Name"), mkSym("part", t))...) {
				if n, ok := o.st.norm(o.ret()).strVal(); ok {
					seen[n] = true
				}
			}
		}
	}
	var out []string
	for k := range seen {
		if k != "" && strings.IndexAny(k, ",|.:!& '\"@") < 0 {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// checkNames: C08.
func checkNames(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "the text of a rule using a name is followed through the scanner, the tables as the init functions leave them, the loader and Execute: every variable, operator, action and transformation name of the README is accepted, and for every name accepted (all keys of all name tables and all names that parts give themselves are tried in every role) the compiled rule contains exactly one part, whose Name() is that name; metadata actions record their argument under their name; id, phase and chain set the id, the phase and the chain flag"
	s := c.spec(r)
	t := s.ruleText()
	if t == nil {
		return
	}
	tables := s.tableNames()
	r.count("names tried in every role", len(tables))
	r.require("names tried in every role", 40)
	names := func(readme []string) []string {
		seen := map[string]bool{}
		var out []string
		for _, l := range [][]string{readme, tables} {
			for _, n := range l {
				if !seen[n] {
					seen[n] = true
					out = append(out, n)
				}
			}
		}
		return out
	}
	in := func(n string, l []string) bool {
		for _, x := range l {
			if x == n {
				return true
			}
		}
		return false
	}
	// try: the text with the name in a role
	try := func(role, name string, readme []string, v, o, a *Term, check func(x *Spec, l loaded) string) {
		x := s.sub()
		accepted, refused := false, ""
		for _, l := range t.rule(x, x.state(), v, o, a) {
			if l.rule == nil {
				if isTrue(l.st, mkEq(l.err, mkNil(nil))) {
					refused = "no rule"
				}
				continue
			}
			accepted = true
			if why := check(x, l); why != "" {
				r.violate(role+" "+name, l.pos, "the %s %s gives a rule with %s", role, name, why)
				continue
			}
			r.ok(1)
			if role != "variable" {
				r.sample("%s %s: the compiled rule holds exactly the part of that name", role, name)
			}
		}
		if accepted {
			r.count(role+"s accepted", 1)
		}
		if !accepted && in(name, readme) && name != "chain" {
			r.violate("README "+role+" "+name+" refused", c.pos(t.load), "the README lists the %s %s as supported, and every rule with it is refused %s", role, name, refused)
		}
		x.done()
	}
	only := func(x *Spec, l loaded, field, want string) string {
		parts, ok := t.list(x, l, field)
		if !ok {
			return fmt.Sprintf("unknown %s", field)
		}
		if len(parts) != 1 {
			return fmt.Sprintf("%d %s", len(parts), field)
		}
		if n := t.name(x, l.st, parts[0]); n != want {
			return fmt.Sprintf("the implementation of %q", n)
		}
		return ""
	}
	for _, n := range names(readmeVariables) {
		try("variable", n, readmeVariables, mkStr(n), mkStr("@rx a"), mkStr("id:1"), func(x *Spec, l loaded) string { return only(x, l, "Variables", n) })
	}
	for _, n := range names(readmeTransforms) {
		try("transformation", n, readmeTransforms, mkStr("REQUEST_URI"), mkStr("@rx a"), mkStr("t:"+n), func(x *Spec, l loaded) string { return only(x, l, "Trans", n) })
	}
	for _, n := range names(readmeOperators) {
		try("operator", n, readmeOperators, mkStr("REQUEST_URI"), mkStr("@"+n+" 5"), mkStr("id:1"), func(x *Spec, l loaded) string {
			if m := t.name(x, l.st, x.get(l.st, l.rule, t.rt, "Operator")); m != n {
				return fmt.Sprintf("the implementation of %q", m)
			}
			return ""
		})
	}
	for _, n := range names(readmeActions) {
		try("action", n, readmeActions, mkStr("REQUEST_URI"), mkStr("@rx a"), mkStr(n+actionArg[n]), func(x *Spec, l loaded) string {
			acts, ok := t.list(x, l, "Actions")
			trans, ok2 := t.list(x, l, "Trans")
			if !ok || !ok2 {
				return "unknown parts"
			}
			var got []string
			for _, a := range acts {
				got = append(got, t.name(x, l.st, a))
			}
			for _, a := range trans {
				got = append(got, "t:"+t.name(x, l.st, a))
			}
			meta := l.st.maps[l.st.norm(x.get(l.st, l.rule, t.rt, "MetaData"))]
			if meta == nil || !meta.exact {
				return "unknown metadata"
			}
			for _, e := range meta.entries {
				k, _ := e.k.strVal()
				got = append(got, "meta "+k+"="+l.st.canon(e.v).String())
			}
			id, phase := l.st.norm(x.get(l.st, l.rule, t.rt, "Id")), l.st.norm(x.get(l.st, l.rule, t.rt, "Phase"))
			if id != mkInt(0) {
				got = append(got, "id "+id.String())
			}
			if phase != mkInt(2) {
				got = append(got, "phase "+phase.String())
			}
			want := n
			switch {
			case n == "id":
				want = "id 12"
			case n == "phase":
				want = "phase 3"
			case n == "t":
				want = "t:none"
			case metaNames[n]:
				v := strings.TrimPrefix(actionArg[n], ":")
				want = "meta " + n + "=" + mkSeq([]*Term{mkSingle(mkStr(v))}, types.NewSlice(tString)).String()
			}
			if g := strings.Join(got, ", "); g != want {
				return fmt.Sprintf("the implementation of %q", g)
			}
			return ""
		})
	}
	// chain: accepted by the scanner with the flag set, and a chained rule loads (C12)
	x := s.sub()
	ok := false
	for _, l := range t.scan(x, x.state(), "SecRule", []*Term{mkStr("REQUEST_URI"), mkStr("@rx a"), mkStr("chain")}) {
		if l.dir != nil {
			ok = true
		}
	}
	if ok {
		r.count("actions accepted", 1)
	} else {
		r.violate("README action chain refused", c.pos(t.load), "the action chain is refused")
	}
	r.require("abstract paths", 50)
	r.require("variables accepted", 25)
	r.require("operators accepted", 6)
	r.require("transformations accepted", 8)
	r.require("actions accepted", 16)
	s.done()
	r.assumption("that chain attaches the following rule is established by C12")
}
