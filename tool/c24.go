package main

import (
	"go/types"
	"strconv"
	"strings"
)

type typesType = types.Type

func init() { checks["C24"] = checkDenyStatus }

const methodAI = "Path-partitioned abstract interpretation of the SSA form on an arbitrary state: the functions named by the rule are executed abstractly (value numbering, heap cells, linear inequalities, dynamic types; callees entered, unknown callees havoc what they may modify), and the values shown by the public interface before and after are compared on every path."

// checkDenyStatus: C24.
func checkDenyStatus(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "after deny: the verdict is disruptive; its status is the status before unless that was 200, else the number of the status action executed before if it is in 100..599, else 403; a log entry is added that is made from that status. After an abort: its code."
	s := c.spec(r)
	deny := s.fn("modsecurity/actions", "NewActionDeny")
	status := s.fn("modsecurity/actions", "NewActionStatus")
	if deny == nil || status == nil || s.tt == nil {
		return
	}
	afterDeny := func(key string, st *State, t *Term, want func(before verdict) []*Term) {
		st, d := s.build(st, deny)
		if d == nil {
			return
		}
		for _, pre := range s.verdicts(st, t) {
			was := s.vget(pre, "Status")
			oldLog := s.vget(pre, "Log")
			for _, ps := range split(pre.st, mkEq(was, mkInt(200))) {
				is200 := isTrue(ps, mkEq(was, mkInt(200)))
				for _, o := range s.invoke(ps, d, nil, "Do", t) {
					r.count("paths of deny", 1)
					evs := o.st.ev.since(ps.ev)
					for _, post := range s.verdicts(o.st, t) {
						got := s.vget(post, "Status")
						s.must(post.st, s.vget(post, "Disruptive"), key+" disruptive", o.pos, "deny does not make the verdict disruptive")
						if !is200 {
							s.expect(eq(post.st, got, was), post.st, key+" pending", o.pos, "deny replaces the pending status by %s", got)
						} else {
							ok := false
							ws := want(pre)
							for _, w := range ws {
								ok = ok || eq(post.st, got, w)
							}
							if ws == nil { // any valid status
								ok = isTrue(post.st, mkLE(toLin(mkInt(100)).add(toLin(got), -1))) && isTrue(post.st, mkLE(toLin(got).add(toLin(mkInt(599)), -1)))
							}
							s.expect(ok, post.st, key+" status", o.pos, "deny (%s) answers with status %s", key, got)
						}
						// the log
						newLog := s.vget(post, "Log")
						s.expect(isTrue(post.st, mkLE(toLin(mkLen(oldLog)).add(toLin(mkLen(newLog)), -1).add(lin{k: 1}, 1))), post.st, key+" log", o.pos, "deny adds no log entry")
						named := contains(newLog, func(x *Term) bool { return spells(post.st, x, got) })
						for _, e := range evs {
							if e.kind != EvCall {
								continue
							}
							for _, a := range e.args {
								if contains(a, func(x *Term) bool {
									return x.typ != nil && isIntType(x.typ) && eq(post.st, x, got) || spells(post.st, x, got)
								}) {
									named = true
								}
							}
						}
						if contains(newLog, func(x *Term) bool { return x.typ != nil && isIntType(x.typ) && eq(post.st, x, got) }) {
							named = true
						}
						s.expect(named, post.st, key+" log status", o.pos, "the log entry of deny is not made from the status of the verdict (%s)", got)
					}
				}
			}
		}
	}
	// an arbitrary transaction: the status is always valid
	st := s.state()
	t := s.tx(st)
	afterDeny("arbitrary data", st, t, func(verdict) []*Term { return nil })
	// no data: 403
	st = s.state()
	t = s.tx(st)
	a, ft := s.addr(st, t, s.tt, "Data")
	if a != nil {
		st.assumeQuiet(mkEq(mkLen(st.load(a, ft)), mkInt(0)), true)
		// an empty map: whatever key is asked is absent
		m := T.mk(T0Alloc("emptyData", ft))
		st.store(a, m, ft)
		st.maps[m] = &MapC{exact: true}
		afterDeny("no status action", st, t, func(verdict) []*Term { return []*Term{mkInt(403)} })
	}
	// a status action was executed before
	for _, lo := range []bool{true, false} {
		st = s.state()
		t = s.tx(st)
		n := mkSym("n", intType())
		valid := mkAnd([]*Term{mkLE(toLin(mkInt(100)).add(toLin(n), -1)), mkLE(toLin(n).add(toLin(mkInt(599)), -1))})
		var sts []*State
		if lo {
			sts = append(sts, assume(st, valid))
		} else {
			sts = append(sts, assume(st, mkLE(toLin(n).add(toLin(mkInt(99)), -1))), assume(st, mkLE(toLin(mkInt(600)).add(toLin(n), -1))))
		}
		for _, st := range sts {
			st, sa := s.build(st, status, n)
			if sa == nil {
				return
			}
			for _, o := range s.invoke(st, sa, nil, "Do", t) {
				if lo {
					afterDeny("valid status action", o.st, t, func(verdict) []*Term { return []*Term{n} })
				} else {
					afterDeny("invalid status action", o.st, t, func(verdict) []*Term { return []*Term{mkInt(403)} })
				}
			}
		}
	}
	// no other built-in action changes what the status action stored
	for _, k := range s.constructors("modsecurity/actions", "Action") {
		switch k.Name() {
		case "NewActionStatus", "NewActionBlock", "NewActionDeny":
			continue
		}
		st = s.state()
		t = s.tx(st)
		n := mkSym("n", intType())
		st = assume(st, mkAnd([]*Term{mkLE(toLin(mkInt(100)).add(toLin(n), -1)), mkLE(toLin(n).add(toLin(mkInt(599)), -1))}))
		st, sa := s.build(st, status, n)
		if sa == nil {
			return
		}
		for _, o := range s.invoke(st, sa, nil, "Do", t) {
			for _, o2 := range s.call(o.st, k, s.ex.symArgs(k)...) {
				for _, o3 := range s.invoke(o2.st, o2.ret(), nil, "Do", t) {
					r.count("actions between status and deny", 1)
					afterDeny("status, then "+k.Name(), o3.st, t, func(verdict) []*Term { return []*Term{n} })
				}
			}
		}
	}
	// aborts
	for _, name := range []string{"AbortWithStatus", "AbortWithError"} {
		m := s.method(s.tt, name)
		if m == nil {
			continue
		}
		st = s.state()
		t = s.tx(st)
		code := mkSym("code", intType())
		args := []*Term{t, code}
		if len(m.Params) > 2 {
			e := mkSym("err", m.Params[2].Type())
			st.assumeQuiet(nonnilCond(e), true)
			args = append(args, e)
		}
		_, _, dect := s.modes(st, t)
		st = assume(st, mkNot(dect))
		for _, o := range s.call(st, m, args...) {
			r.count("paths of aborts", 1)
			s.must(o.st, s.get(o.st, t, s.tt, "Abort"), name+" abort", o.pos, "%s does not abort", name)
			for _, v := range s.verdicts(o.st, t) {
				s.must(v.st, s.vget(v, "Disruptive"), name+" disruptive", o.pos, "%s does not make the verdict disruptive", name)
				s.expect(eq(v.st, s.vget(v, "Status"), code), v.st, name+" status", o.pos, "%s answers with status %s instead of its code", name, s.vget(v, "Status"))
			}
		}
	}
	r.require("paths of deny", 10)
	r.require("paths of aborts", 2)
	r.require("actions between status and deny", 3)
	s.done()
	r.assumption("between the status action and deny the host does not change Transaction.Data")
}

// spells: a text known in full that contains the number.
func spells(st *State, x, n *Term) bool {
	txt, ok := x.strVal()
	if !ok {
		return false
	}
	v, ok := st.norm(n).intVal()
	if !ok {
		return false
	}
	for _, w := range strings.FieldsFunc(txt, func(c rune) bool { return c < '0' || c > '9' }) {
		if w == strconv.FormatInt(v, 10) {
			return true
		}
	}
	return false
}

// T0Alloc describes a fresh object.
func T0Alloc(name string, t typesType) Term { return Term{op: OpAlloc, aux: name, typ: t} }
