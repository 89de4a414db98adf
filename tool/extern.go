package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside the repository.

// purePkgs: package-level functions of these packages are functions of their arguments
// and modify nothing (exceptions in impureFns).
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "mime": true, "net/url": true, "path": true, "path/filepath": true, "net/textproto": true, "math": true, "math/bits": true, "unicode/utf16": true, "html": true, "errors": false}

var impureFns = map[string]bool{
	"unicode/utf8.EncodeRune": true, "unicode/utf8.AppendRune": false,
	"strings.NewReader": true, "strings.NewReplacer": true,
	"mime.AddExtensionType": true, "path/filepath.Walk": true, "path/filepath.Glob": true, "path/filepath.EvalSymlinks": true, "path/filepath.Abs": true, "path/filepath.WalkDir": true,
}

var pureFns = map[string]bool{
	"(net/http.Header).Get": true, "(net/http.Header).Values": true, "(net/textproto.MIMEHeader).Get": true,
	"(*net/url.URL).Query": true, "(*net/url.URL).String": true, "(*net/url.URL).RequestURI": true, "(*net/url.URL).EscapedPath": true, "(*net/url.URL).EscapedFragment": true, "(*net/url.URL).Hostname": true, "(*net/url.URL).Port": true, "(*net/url.URL).IsAbs": true,
	"(net/url.Values).Get": true, "(net/url.Values).Encode": true,
	"(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).FindString": true, "(*regexp.Regexp).FindStringIndex": true, "(*regexp.Regexp).String": true, "(*regexp.Regexp).FindStringSubmatch": true, "(*regexp.Regexp).Match": true,
	"regexp.Compile": true, "regexp.MatchString": true, "regexp.QuoteMeta": true, "regexp.MustCompile": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "net/http.StatusText": true, "net/http.CanonicalHeaderKey": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "errors.Is": true,
	"bytes.Equal": true, "bytes.IndexByte": true, "bytes.Index": true, "bytes.Contains": true, "bytes.TrimSpace": false,
	"(*os.File).Name": true,
	"(error).Error":   true,
}

// nonNilResult: the (single) result is never nil.
var nonNilResult = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true, "bytes.NewReader": true, "bufio.NewReader": true, "bufio.NewReaderSize": true, "strings.NewReader": true, "regexp.MustCompile": true, "mime/multipart.NewReader": true, "(*net/url.URL).Query": true, "strings.NewReplacer": true, "strings.Split": true,
}

// alwaysNilError: error results that are documented to be always nil.
var alwaysNilError = map[string]bool{
	"(*bytes.Buffer).Write": true, "(*bytes.Buffer).WriteString": true, "(*bytes.Buffer).WriteByte": true, "(*bytes.Buffer).WriteRune": true,
	"(*strings.Builder).Write": true, "(*strings.Builder).WriteString": true, "(*strings.Builder).WriteByte": true, "(*strings.Builder).WriteRune": true,
}

// readOnlyArgs: impure functions which do not modify memory reachable from their
// arguments other than their receiver's private state.
func readOnlyArgs(name string) bool {
	for _, p := range []string{"fmt.", "errors.", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus", "bytes.NewReader", "strings.NewRe", "bufio.NewReader", "log.", "(*os.File).Write", "io/ioutil.TempFile", "os."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func fullName(fn *ssa.Function) string { return fn.String() }

func isPureExternal(fn *ssa.Function) bool {
	n := fullName(fn)
	if v, ok := impureFns[n]; ok && v {
		return false
	}
	if v, ok := pureFns[n]; ok {
		return v
	}
	if fn.Signature.Recv() == nil && fn.Pkg != nil {
		return purePkgs[fn.Pkg.Pkg.Path()]
	}
	if fn.Signature.Recv() == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return purePkgs[fn.Object().Pkg().Path()]
	}
	return false
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return t != nil && types.Identical(t, errorType) }

// modelNonNil: values that are non-nil by a model, an invariant or a coupling.
func (ex *Exec) modelNonNil(s *State, t *Term) bool {
	switch t.op {
	case OpLoad:
		if f := ex.fieldKey(t.args[0]); f != "" {
			if ex.inv.nonnil[f] {
				return true
			}
			if t.n == 0 && t.args[0].args[0].op == OpSym {
				for _, ci := range ex.inv.cond[f] {
					fl := T.mk(Term{op: OpLoad, args: []*Term{mkFieldAddr(t.args[0].args[0], ci.fi, types.NewPointer(ci.ftyp))}, typ: ci.ftyp})
					if v, ok := s.facts[fl]; ok && v {
						return true
					}
				}
			}
		}
		if t.args[0].op == OpGlobal {
			g := t.args[0].g
			if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), repoMod) {
				return isErrorType(t.typ)
			}
			return ex.inv.nonnil["G:"+g.String()]
		}
		if t.args[0].op == OpIndexAddr {
			return ex.elemNonNil(t.typ)
		}
	case OpElem:
		if t.aux == "elem" {
			return ex.elemNonNil(t.typ)
		}
	case OpLookup:
		if ex.elemNonNil(t.typ) {
			if m := s.maps[t.args[0]]; m != nil && m.exact {
				for _, e := range m.entries {
					if !s.nonnil(e.v) {
						return false
					}
				}
			}
			if v, k := s.eval(T.mk(Term{op: OpHas, args: t.args, n: t.n, typ: tBool})); k && v {
				return true
			}
		}
	case OpCall, OpPure:
		if nonNilResult[t.aux] {
			return true
		}
		if fns, ok := ex.cands[t]; !ok || len(fns) == 0 {
			// constructors of other packages
			if i := strings.LastIndex(t.aux, "."); i >= 0 && strings.HasPrefix(t.aux[i+1:], "New") && !strings.HasPrefix(t.aux, "(") {
				return true
			}
		}
		return ex.retNonNil(t, 0)
	case OpExtract:
		c := t.args[0]
		if c.op != OpCall && c.op != OpPure {
			return false
		}
		if c.aux == "net/url.ParseQuery" && t.n == 0 {
			return true
		}
		if ex.retNonNil(c, int(t.n)) {
			return true
		}
		tup, ok := c.typ.(*types.Tuple)
		if !ok || tup.Len() < 2 {
			return false
		}
		last := tup.Len() - 1
		if isErrorType(tup.At(last).Type()) && int(t.n) != last {
			e := T.mk(Term{op: OpExtract, args: []*Term{c}, n: int64(last), typ: tup.At(last).Type()})
			if v, k := s.eval(mkEq(e, mkNil(nil))); k && v {
				return ex.coupled(c, int(t.n))
			}
		}
	case OpAssert:
		if v, k := s.eval(T.mk(Term{op: OpIs, args: t.args, typ: t.typ, aux: t.aux})); k && v {
			if _, ok := t.typ.Underlying().(*types.Interface); ok {
				return true
			}
			// a pointer stored in an interface: non-nil unless typed nils are put there
			return ex.assertNonNil(s, t)
		}
	}
	return false
}

// assertNonNil: values read back from an interface. SecLang directives only ever hold
// non-nil pointers of the library's own types; foreign types may hold nil pointers.
func (ex *Exec) assertNonNil(s *State, t *Term) bool {
	return isRepoType(t.typ)
}

// elements of slices and maps with library pointer or interface types are non-nil
// (obligation at every append and map update, assumption for host-built rules).
func (ex *Exec) elemNonNil(t types.Type) bool {
	if t == nil || ex.inv.elemBad[typeStr(t)] {
		return false
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return isRepoType(t) || strings.HasPrefix(typeStr(t), "*regexp.")
	}
	switch t.Underlying().(type) {
	case *types.Interface:
		return isRepoType(t)
	case *types.Signature:
		return true
	}
	return false
}

// freshResult: pure functions whose result is freshly allocated memory.
var freshResult = map[string]bool{"strings.Split": true, "strings.SplitN": true, "strings.Fields": true, "strings.SplitAfter": true, "strings.FieldsFunc": true}
