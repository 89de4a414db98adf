package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// shape describes the object graph of a value up to the identity of fresh objects.
func (s *Spec) shape(st *State, t *Term) string {
	seen := map[*Term]int{}
	var walk func(t *Term, depth int) string
	var fields func(a *Term, typ types.Type, depth int) string
	fields = func(a *Term, typ types.Type, depth int) string {
		if u, ok := typ.Underlying().(*types.Struct); ok && !opaqueStruct(typ) {
			var out []string
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				out = append(out, f.Name()+":"+fields(mkFieldAddr(a, i, types.NewPointer(f.Type())), f.Type(), depth+1))
			}
			return "{" + strings.Join(out, " ") + "}"
		}
		return walk(st.load(a, typ), depth+1)
	}
	walk = func(t *Term, depth int) string {
		t = st.norm(t)
		if depth > 12 {
			return "…"
		}
		if t.isNil() {
			return "nil"
		}
		if v, k := st.eval(mkEq(t, mkNil(nil))); k && v {
			return "nil"
		}
		switch t.op {
		case OpIface:
			if _, ok := t.typ.Underlying().(*types.Pointer); !ok {
				return "iface<" + typeStr(t.typ) + ">" + walk(t.args[0], depth+1)
			}
			return walk(t.args[0], depth+1)
		case OpAlloc:
			if n, ok := seen[t]; ok {
				return fmt.Sprintf("^%d", n)
			}
			seen[t] = len(seen)
			if p, ok := t.typ.Underlying().(*types.Pointer); ok {
				return "&" + typeStr(p.Elem()) + fields(t, p.Elem(), depth)
			}
			if m := st.maps[t]; m != nil && m.exact {
				var out []string
				for _, e := range m.entries {
					out = append(out, walk(e.k, depth+1)+"="+walk(e.v, depth+1))
				}
				sort.Strings(out)
				return "map[" + strings.Join(out, " ") + "]"
			}
		}
		if t.typ != nil {
			if _, ok := t.typ.Underlying().(*types.Slice); ok {
				if l, ok := st.listOf(t); ok {
					if len(l) == 0 {
						return "nil"
					}
					var out []string
					for _, e := range l {
						out = append(out, walk(e, depth+1))
					}
					return "[" + strings.Join(out, " ") + "]"
				}
			}
		}
		switch t.op {
		case OpClosure:
			var out []string
			for _, a := range t.args {
				out = append(out, walk(a, depth+1))
			}
			return "closure " + relName(t.fn) + "(" + strings.Join(out, " ") + ")"
		case OpStruct:
			var out []string
			for _, a := range t.args {
				out = append(out, walk(a, depth+1))
			}
			return "{" + strings.Join(out, " ") + "}"
		}
		return st.canon(t).String()
	}
	return walk(t, 0)
}
