package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Report collects what one check analysed and found.
type Report struct {
	id       string
	tier     string
	method   string
	rule     string
	counts   map[string]int
	notes    []string
	samples  []string
	assume   []string
	viol     []Violation
	known    []Violation
	seen     map[string]bool
	checked  int // rule instances decided
	deferred []func()
}

type Violation struct {
	key   string // stable identity (for known findings)
	where string // construct
	msg   string
}

func newReport(id, tier string) *Report {
	return &Report{id: id, tier: tier, counts: map[string]int{}, seen: map[string]bool{}}
}

func (r *Report) count(name string, n int) { r.counts[name] += n }
func (r *Report) sample(format string, a ...interface{}) {
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}
func (r *Report) assumption(s string) { r.assume = append(r.assume, s) }

// violate records that the rule fails at a construct.
func (r *Report) violate(key, where, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	k := key + "|" + where + "|" + msg
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.viol = append(r.viol, Violation{key, where, msg})
}

// ok counts a decided instance of the rule.
func (r *Report) ok(n int) { r.checked += n }

// require: the analysis must have had at least so many instances, else it is vacuous.
func (r *Report) require(name string, min int) {
	if r.counts[name] < min {
		r.violate("vacuous:"+name, "analysis", "only %d %s found, at least %d expected: the rule was not decided", r.counts[name], name, min)
	}
}

func readKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=ID key=KEY | text
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		i := strings.Index(rest, " | ")
		if i < 0 {
			continue
		}
		out[rest[:i]] = rest[i+3:]
	}
	return out
}

func (r *Report) finish(verif string, t0 time.Time) int {
	known := readKnown(filepath.Join(verif, "known-findings.txt"), r.id)
	var left []Violation
	used := map[string]bool{}
	for _, v := range r.viol {
		if _, ok := known[v.key]; ok {
			used[v.key] = true
			r.known = append(r.known, v)
			continue
		}
		left = append(left, v)
	}
	var ks []string
	for k := range used {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, known[k])
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0755)
	cov := map[string]interface{}{"explanation": r.method, "rule": r.rule, "rule_instances_decided": r.checked, "samples": r.samples}
	for k, v := range r.counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	var vs []string
	for _, v := range left {
		vs = append(vs, v.where+": "+v.msg)
	}
	if len(vs) > 0 {
		if len(vs) > 40 {
			vs = vs[:40]
		}
		cov["violation_list"] = vs
	}
	if r.assume == nil {
		r.assume = []string{}
	}
	doc := map[string]interface{}{"property": r.id, "tier": r.tier, "seed": 1, "level": "other", "coverage": cov, "assumptions": r.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(left)}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(ev, r.id+".json"), append(b, '\n'), 0644)
	if len(left) == 0 {
		fmt.Printf("OK property=%s instances=%d\n", r.id, r.checked)
		return 0
	}
	rp := filepath.Join(ev, r.id+".violation.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", r.id, r.rule)
	for _, v := range left {
		fmt.Fprintf(&sb, "%s: %s\n   (%s)\n", v.where, v.msg, v.key)
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	for i, v := range left {
		if i >= 20 {
			break
		}
		fmt.Printf("  %s: %s\n", v.where, v.msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}

var finishing sync.Mutex

const timeBudget = 800 * time.Second

// watchdog answers in time: a check that is not finished has not decided its property,
// and one that has found violations need not look for all of them.
func watchdog(r *Report, verif string, t0 time.Time, done chan bool) {
	var first time.Time
	known := readKnown(filepath.Join(verif, "known-findings.txt"), r.id)
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}
		vs := r.viol
		n := 0
		for _, v := range vs {
			if _, ok := known[v.key]; !ok {
				n++
			}
		}
		if n > 0 && first.IsZero() {
			first = time.Now()
		}
		late := time.Since(t0) > timeBudget
		if !late && (first.IsZero() || time.Since(first) < 90*time.Second) {
			continue
		}
		finishing.Lock()
		out := newReport(r.id, r.tier)
		out.method, out.rule, out.assume = r.method, r.rule, r.assume
		out.viol = append(out.viol, vs...)
		if late {
			out.violate("undecided time", "analysis", "the analysis was not finished after %v and the property is undecided", timeBudget)
		}
		os.Exit(out.finish(verif, t0))
	}
}

type checkFn func(c *Ctx, r *Report)

var checks = map[string]checkFn{}

func runCheck(id, tier, verif, repo string) int {
	t0 := time.Now()
	r := newReport(id, tier)
	f := checks[id]
	if f == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	c, err := newCtx(repo)
	if err != nil {
		r.violate("load", "build", "the program cannot be loaded: %v", err)
		return r.finish(verif, t0)
	}
	done := make(chan bool)
	go watchdog(r, verif, t0, done)
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				r.violate("internal", "analysis", "the analysis failed and the property is undecided: %v\n%s", p, st)
			}
		}()
		f(c, r)
	}()
	close(done)
	finishing.Lock() // the watchdog is too late now
	defer finishing.Unlock()
	r.count("functions in the library", len(c.p.funcs))
	return r.finish(verif, t0)
}
