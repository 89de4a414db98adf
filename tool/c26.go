package main

func init() { checks["C26"] = checkRedirects }

// checkRedirects: C26.
func checkRedirects(c *Ctx, r *Report) {
	r.method = methodAI
	r.rule = "from every phase p in which a rule may run, with the phases after p ready and the others blocked: after allow (allow:request, allow:phase) the current phase is the documented target (or p+1 if the target is not after p), no rule of it has been passed over, exactly the phases from there on are ready and the earlier ones blocked; after skip (skip:N) the next rule is CurrentRule()+1+N, or the end of the rules if there are not so many, and phase and rule are unchanged"
	s := c.spec(r)
	if s.tt == nil {
		return
	}
	var run []phaseMethod
	for _, pm := range s.phaseMethods() {
		if pm.phase >= 0 {
			run = append(run, pm)
		}
	}
	end, ok1 := s.constant("modsecurity", "PhaseEnd")
	log, ok2 := s.constant("modsecurity", "PhaseLogging")
	resp, ok3 := s.constant("modsecurity", "PhaseResponseHeaders")
	start, ok4 := s.constant("modsecurity", "StatusNotStarted")
	ctor := s.fn("modsecurity/actions", "NewActionAllow")
	if ctor == nil || !ok1 || !ok2 || !ok3 || !ok4 || len(run) == 0 {
		return
	}
	q := s.quiet()
	// in: a state in which a rule of phase p is being evaluated
	in := func(pm phaseMethod) (*State, *Term) {
		st := s.state()
		t := s.tx(st)
		if !st.assumeQuiet(mkEq(q.getter(st, t, "CurrentPhase"), mkInt(pm.phase)), true) {
			return nil, nil
		}
		for _, o := range run {
			pred := s.blocked
			if o.phase > pm.phase {
				pred = s.ready
			}
			if !assumeAll(st, pred(st, t, o)) {
				r.violate("unreachable "+pm.name+" "+o.name, c.pos(pm.m), "there is no state in which a rule of %s is evaluated and %s is as it should be", pm.name, o.name)
				return nil, nil
			}
		}
		return st, t
	}
	for _, a := range []struct {
		arg string
		to  int64
	}{{"", log}, {"phase", 0}, {"request", resp}} {
		for _, pm := range run {
			want := a.to
			if want <= pm.phase {
				want = pm.phase + 1
			}
			st, t := in(pm)
			if st == nil {
				continue
			}
			key := "allow:" + a.arg + " in " + pm.name
			st, act := s.build(st, ctor, mkStr(a.arg))
			if act == nil {
				return
			}
			for _, o := range s.invoke(st, act, nil, "Do", t) {
				r.count("allow paths", 1)
				got := q.getter(o.st, t, "CurrentPhase")
				s.expect(eq(o.st, got, mkInt(want)), o.st, key+" phase", o.pos, "%s leads to phase %s instead of %d", key, got, want)
				if want < end {
					s.expect(eq(o.st, q.getter(o.st, t, "NextRule"), mkInt(0)), o.st, key+" rule", o.pos, "%s: the next rule is %s instead of the first one", key, q.getter(o.st, t, "NextRule"))
					s.expect(eq(o.st, q.getter(o.st, t, "CurrentRule"), mkInt(start)), o.st, key+" current rule", o.pos, "%s: the current rule is %s of a phase that has not started", key, q.getter(o.st, t, "CurrentRule"))
				}
				for _, p := range run {
					if p.phase >= want {
						ok, why := allTrue(o.st, s.ready(o.st, t, p))
						s.expect(ok, o.st, key+" "+p.name, o.pos, "after %s, %s may run no rules: %s", key, p.name, why)
					} else {
						ok, why := allTrue(o.st, s.blocked(o.st, t, p))
						s.expect(ok, o.st, key+" "+p.name, o.pos, "after %s, %s may run rules: %s", key, p.name, why)
					}
					r.count("phases decided after allow", 1)
				}
			}
		}
	}
	r.require("allow paths", 18)
	r.require("phases decided after allow", 108)

	// skip
	stop := mkInt(StatusEnd(s))
	one := mkInt(1)
	for _, k := range []string{"NewActionSkip", "NewActionSkipN"} {
		ctor := s.fn("modsecurity/actions", k)
		if ctor == nil {
			continue
		}
		for _, pm := range run {
			st := s.state()
			t := s.tx(st)
			if !st.assumeQuiet(mkEq(q.getter(st, t, "CurrentPhase"), mkInt(pm.phase)), true) || !st.assumeQuiet(nonnilCond(q.get(st, t, q.tt, "RuleSet.Phases")), true) {
				continue
			}
			cur := q.getter(st, t, "CurrentRule")
			n := mkLen(q.phaseRules(st, t, pm.phase))
			// 0 <= cur < n
			if !st.assumeQuiet(mkLE(toLin(cur).scale(-1)), true) || !st.assumeQuiet(mkLE(toLin(cur).add(toLin(n), -1).add(lin{k: 1}, 1)), true) {
				r.violate("unreachable skip "+pm.name, c.pos(pm.m), "no rule can be current in phase %d", pm.phase)
				continue
			}
			var args []*Term
			cnt := one
			if len(ctor.Params) == 1 {
				cnt = mkSym("N", tInt)
				st.assumeQuiet(mkLE(toLin(one).add(toLin(cnt), -1)), true)
				args = append(args, cnt)
			}
			key := k + " in " + pm.name
			for _, b := range s.call(st, ctor, args...) {
				for _, o := range s.invoke(b.st, b.ret(), nil, "Do", t) {
					r.count("skip paths", 1)
					to := mkAdd(mkAdd(cur, one), cnt)
					past := mkLE(toLin(n).add(toLin(to), -1)) // n <= to
					got := q.getter(o.st, t, "NextRule")
					for _, y := range split(o.st, past) {
						if isTrue(y, past) {
							s.must(y, mkEq(got, stop), key+" past the end", o.pos, "%s: the next rule is %s although fewer than N rules follow", key, got)
						} else {
							s.must(y, mkEq(got, to), key+" target", o.pos, "%s: the next rule is %s instead of CurrentRule+1+N", key, got)
						}
					}
					s.expect(eq(o.st, q.getter(o.st, t, "CurrentRule"), cur), o.st, key+" current", o.pos, "%s changes the current rule", key)
					s.expect(eq(o.st, q.getter(o.st, t, "CurrentPhase"), mkInt(pm.phase)), o.st, key+" phase", o.pos, "%s changes the phase", key)
				}
			}
		}
	}
	r.require("skip paths", 12)
	s.done()
	r.assumption("integers do not overflow; the rule sets are not changed while they are used")
}
