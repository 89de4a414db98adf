package main

import (
	"sort"
	"strings"
)

func init() {
	checks["C01"] = checkShared
	checks["C02"] = checkHostData
}

const effectMethod = "Inclusion-based (Andersen) field-sensitive points-to and effect analysis of the SSA form of every function reachable from the processing interface (all exported methods of Transaction and Intervention, constructors of transactions, and every Fetch, Trans, Match, Do, Name, Value, Args and ActionGroup method of the library's variables, transformations, operators and actions). Memory handed in by the host is represented by symbolic objects (configuration, URL and headers, body bytes); interface calls go to every implementation, function values to every function of that signature that is used as a value; functions outside the library are modelled by a table of what they may write, keep and return, with 'may write everything it is given' for any that is not listed."

func effectCounts(r *Report, e *Effects) {
	r.count("root functions", len(e.roots))
	r.count("functions reached", len(e.reached))
	r.count("abstract objects", len(e.objs))
	r.count("transaction objects", len(e.transactions()))
	for k, p := range e.unres {
		r.violate("unsupported "+k, p, "instruction %s is not modelled", k)
	}
	r.require("root functions", 60)
	r.require("functions reached", 80)
	r.require("transaction objects", 1)
}

func locLabels(f *Eff, kinds ...objKind) string {
	m := map[string]bool{}
	for l := range f.locs {
		for _, k := range kinds {
			if l.o.kind == k {
				m[l.o.label] = true
			}
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func checkShared(c *Ctx, r *Report) {
	r.method = effectMethod
	r.rule = "no assignment, map update, append, copy, delete or external call in a reached function may write an object of the shared configuration (engine, limits, configuration, rule sets, rules, variables, transformations, operators, actions and everything these hold) or a package-level variable"
	e := c.processingEffects()
	effectCounts(r, e)
	for _, f := range e.sorted() {
		if f.kind == "call" && globalSetter(f.ext) {
			r.violate("global setter "+f.ext, c.p.instrPos(f.in), "%s (reached by %s) changes process-wide state through %s", relName(f.fn), e.pathTo(f.fn), f.ext)
			continue
		}
		if f.kind == "write" || f.kind == "send" {
			r.count("write sites", 1)
			k := f.kinds()
			if k[oShared] || k[oGlobal] {
				r.violate("write in "+relName(f.fn), c.p.instrPos(f.in), "%s in %s may write %s; call path %s", f.what, relName(f.fn), locLabels(f, oShared, oGlobal), e.pathTo(f.fn))
				continue
			}
			r.ok(1)
			if k[oAlloc] {
				r.count("write sites into objects the transaction owns", 1)
				r.sample("%s in %s writes only %s", f.what, relName(f.fn), clip(locLabels(f, oAlloc, oExt), 160))
			}
		}
	}
	r.require("write sites into objects the transaction owns", 25)
	r.assumption("functions of the standard library and of logrus behave as the model table says; regexp objects may be used concurrently (documented)")
	r.assumption("the host does not modify the engine, rule set or rules while transactions run, and registers no variables, operators, transformations or actions of its own that do")
	r.assumption("no use of unsafe or reflection based writes (any such call would be reported as a possible write)")
}

func globalSetter(name string) bool {
	for _, p := range []string{"github.com/sirupsen/logrus.Set", "github.com/sirupsen/logrus.AddHook", "log.Set", "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "math/rand.Seed", "runtime.GOMAXPROCS", "runtime/debug.Set", "mime.AddExtensionType", "net/http.Handle", "syscall.Umask"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func checkHostData(c *Ctx, r *Report) {
	r.method = effectMethod
	r.rule = "no assignment, map update, append, copy, delete or external call in a reached function may write the URL, the header maps and their value slices or the body bytes of the host; and no reference to the body bytes is stored in an object reachable from a transaction, from the configuration or from a package-level variable"
	e := c.processingEffects()
	effectCounts(r, e)
	for _, f := range e.sorted() {
		k := f.kinds()
		if k[oHost] || k[oBytes] {
			if f.kind == "write" || f.kind == "send" {
				r.violate("write in "+relName(f.fn), c.p.instrPos(f.in), "%s in %s may write %s; call path %s", f.what, relName(f.fn), locLabels(f, oHost, oBytes), e.pathTo(f.fn))
				continue
			}
			if f.kind == "call" {
				r.ok(1)
				r.count("calls given host data, all reading only", 1)
				r.sample("%s is given %s at %s and only reads it", f.ext, locLabels(f, oHost, oBytes), c.p.instrPos(f.in))
			}
		} else if f.kind == "write" {
			r.count("write sites", 1)
			r.ok(1)
		}
	}
	r.require("write sites", 25)
	r.require("calls given host data, all reading only", 5)
	holders := append(e.transactions(), e.shared, e.global)
	for o := range e.reachableFrom(holders) {
		r.count("objects reachable from transactions and configuration", 1)
		for p := range e.byObj[o] {
			for l := range e.pts[enode{o: o, path: p}] {
				if l.o == e.bytes {
					where := "analysis"
					if o.in != nil {
						where = c.p.instrPos(o.in)
					}
					r.violate("retained "+o.label, where, "body bytes of the host are kept in %s", o.label)
				}
			}
		}
		r.ok(1)
	}
	r.require("objects reachable from transactions and configuration", 8)
	r.assumption("functions of the standard library behave as the model table says (bytes.Buffer and os.File writes copy their argument)")
	r.assumption("logging hooks the host installs do not modify what is logged")
}
