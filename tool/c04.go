package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = func(c *Ctx, r *Report) { checkObligations(c, r, false) }
	checks["C05"] = func(c *Ctx, r *Report) { checkObligations(c, r, true) }
}

// hostFields: exported fields a host (or the rule compiler) fills after the constructor;
// they are assumed to be set before the object is used. That the rule compiler does so is
// checked.
var hostFields = []string{repoMod + "/modsecurity.SecRule.Operator"}

func isBoundsKind(k string) bool {
	return strings.HasPrefix(k, "index") || strings.HasPrefix(k, "slice") || strings.HasPrefix(k, "make") || strings.Contains(k, "length")
}

func checkObligations(c *Ctx, r *Report, bounds bool) {
	r.method = "Path-partitioned abstract interpretation of the SSA form of every entry function of the library (exported functions and methods, functions used as values, and any function these do not reach), callees entered or summarised, loops solved by a fixpoint over inferred invariants. Domain: value numbering, nullness, dynamic types, linear inequalities over lengths and indices. Object invariants of the library's structs are inferred first by a Houdini fixpoint."
	if bounds {
		r.rule = "at every index, slice and make expression and every call of a library function that indexes its argument (utf8.EncodeRune, binary.Uint32, hex.Decode, Buffer.Grow), on every abstract path: 0 <= low <= high <= length (index < length) is entailed by the facts of the path"
	} else {
		r.rule = "at every dereference, call of a function value or interface method, map write, unchecked type assertion, division and panic, at every pointer put into an interface whose methods the library calls, and at calls of library functions that panic on a bad argument (regexp.MustCompile, strings.Repeat, Header.Set on a nil map), on every abstract path: the operand is non-nil (of the asserted type, non-zero; the panic unreachable) by the facts of the path and the inferred object invariants"
	}
	rounds := c.inferInvariants()
	r.count("invariant inference rounds", rounds)
	r.notes = append(r.notes, c.inv.list()...)
	for _, f := range hostFields {
		c.inv.nonnil[f] = true
	}
	c.sums = newSums(func() *Exec { return c.exec() })
	or := c.runObligations()
	r.count("entry functions analysed", len(or.roots))
	r.count("functions entered", len(or.fns))
	r.count("abstract paths", or.paths)
	r.count("abstract instructions executed", or.steps)
	r.require("entry functions analysed", 100)
	for _, o := range or.sorted() {
		if isBoundsKind(o.kind) != bounds {
			continue
		}
		if c.registration(o.fn) {
			r.count("instances in registration functions (not judged)", 1)
			continue
		}
		r.count("potentially panicking instructions", 1)
		if len(o.fails) == 0 {
			r.ok(1)
			if o.ok > 3 {
				r.sample("%s at %s (%s): shown on %d paths", o.kind, c.p.instrPos(o.instr), relName(o.fn), o.ok)
			}
			continue
		}
		r.violate(o.kind+" in "+relName(o.fn), c.p.instrPos(o.instr), "%s in %s: %s", o.kind, relName(o.fn), clip(o.fails[0], 600))
	}
	r.require("potentially panicking instructions", 40)
	for _, k := range sortedKeys(or.probs) {
		r.violate("undecided "+k, or.probs[k], "the analysis could not decide: %s", k)
	}
	if !bounds {
		c.checkCompiledOperator(r)
	}
	r.assumption("references to library types, functions, interfaces (errors, readers, directives) handed to exported functions by the host are non-nil; URLs, headers, maps, slices and untyped values may be nil")
	r.assumption("hosts build library objects with the library's constructors; SecRule.Operator is set before a rule is used (checked for rules compiled from SecLang)")
	r.assumption("standard library functions behave as documented (result is non-nil when the error is nil); integer arithmetic on lengths does not overflow")
	r.assumption("a value of type error does not hold a nil pointer")
	r.assumption("Register* functions are called by the host only during initialisation, with distinct tokens")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// registration: functions that write package-level registries; they run while the program
// initialises (their actual calls in the library's initialisers are executed abstractly).
func (c *Ctx) registration(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		if c.runsLater(fn) {
			return false
		}
		fn = fn.Parent()
	}
	if fn.Signature.Recv() != nil {
		return false
	}
	for _, g := range c.p.funcs {
		c.mod.scan(g)
		if g == fn || strings.HasPrefix(g.Name(), "init") {
			continue
		}
		for _, h := range c.mod.callees[g] {
			if h == fn {
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if u, ok := x.Map.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.Global); ok {
						return true
					}
				}
			case *ssa.Store:
				if _, ok := ssaRoot(x.Addr).(*ssa.Global); ok {
					return true
				}
			}
		}
	}
	return false
}

// checkCompiledOperator: rules that the compiler returns without error have an operator.
func (c *Ctx) checkCompiledOperator(r *Report) {
	for _, f := range hostFields {
		delete(c.inv.nonnil, f)
	}
	c.sums = newSums(func() *Exec { return c.exec() })
	di := c.p.iface("seclang", "DireFromSecLang")
	n := 0
	if di != nil {
		for _, t := range c.p.implementers(di) {
			fn := c.p.method(t, "FromSecLang")
			if fn == nil {
				continue
			}
			ex := c.exec()
			ex.splitMaps = true
			ex.auto = 24
			ex.enter = func(f *ssa.Function) bool { return c.mod.classSet(f)[hostFields[0]] }
			ex.noForms = true
			st, args := c.rootState(ex, fn)
			for _, o := range ex.run0(fn, args, st) {
				if o.panic || len(o.rets) != 2 {
					continue
				}
				if v, k := o.st.eval(mkEq(o.rets[1], mkNil(nil))); k && !v {
					continue
				}
				st := o.st.clone()
				if !st.assumeQuiet(mkEq(o.rets[1], mkNil(nil)), true) {
					continue
				}
				for a, v := range st.heap {
					if a.op == OpFieldAddr && freshRoot(addrRoot(a)) && ex.fieldKey(a) == hostFields[0] && !c.initObj(addrRoot(a)) {
						n++
						if !st.nonnil(v) {
							r.violate("operator", o.pos, "%s may return a rule without operator: %s", relName(fn), clip(st.factString(), 300))
						} else {
							r.ok(1)
						}
					}
				}
			}
		}
	}
	r.count("rule compiler outcomes with a rule", n)
	r.require("rule compiler outcomes with a rule", 1)
	for _, f := range hostFields {
		c.inv.nonnil[f] = true
	}
}
