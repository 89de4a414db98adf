package main

import (
	"regexp"

	"golang.org/x/tools/go/ssa"
)

// extNeeds: what library functions that panic on a bad argument require of it. False: the
// call panics on every continuation.
func (ex *Exec) extNeeds(st *State, in ssa.Instruction, name string, args []*Term) bool {
	atLeast := func(i int, lo int64, kind string) bool {
		if i >= len(args) {
			return true
		}
		return ex.must(st, mkLE(toLin(args[i]).scale(-1).add(lin{k: lo}, 1)), kind, in)
	}
	longer := func(i int, n int64) bool {
		return ex.must(st, mkLE(toLin(mkLen(args[i])).scale(-1).add(lin{k: n}, 1)), "slice given to "+name+" may be too short: length", in)
	}
	switch name {
	case "regexp.MustCompile", "regexp.MustCompilePOSIX":
		if s, ok := st.norm(args[0]).strVal(); ok {
			_, err := regexp.Compile(s)
			if name != "regexp.MustCompile" {
				_, err = regexp.CompilePOSIX(s)
			}
			if err == nil {
				return true
			}
		}
		return ex.must(st, mkBool(false), "panic of "+name+" on a bad pattern", in)
	case "strings.Repeat", "bytes.Repeat":
		return atLeast(1, 0, "negative count of "+name)
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "(*bytes.Buffer).Truncate", "slices.Grow":
		return atLeast(1, 0, "index (size) given to "+name+" may be negative")
	case "(net/http.Header).Set", "(net/http.Header).Add", "(net/url.Values).Set", "(net/url.Values).Add", "(net/textproto.MIMEHeader).Set", "(net/textproto.MIMEHeader).Add":
		return ex.must(st, mkNot(mkEq(args[0], mkNil(nil))), "assignment to nil map", in)
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.littleEndian).Uint16":
		return longer(1, 2)
	case "(encoding/binary.bigEndian).Uint32", "(encoding/binary.littleEndian).Uint32":
		return longer(1, 4)
	case "(encoding/binary.bigEndian).Uint64", "(encoding/binary.littleEndian).Uint64":
		return longer(1, 8)
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.littleEndian).PutUint16":
		return longer(1, 2)
	case "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.littleEndian).PutUint32":
		return longer(1, 4)
	case "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.littleEndian).PutUint64":
		return longer(1, 8)
	case "unicode/utf8.EncodeRune":
		n := int64(3) // runes above U+FFFF are not distinguished
		for _, r := range []struct{ max, n int64 }{{0x7f, 1}, {0x7ff, 2}} {
			if v, ok := st.eval(mkLE(toLin(args[1]).add(lin{k: -r.max}, 1))); ok && v {
				n = r.n
				break
			}
		}
		return longer(0, n)
	case "encoding/hex.Decode":
		return ex.must(st, mkLE(toLin(mkLen(args[1])).add(toLin(mkLen(args[0])).scale(2), -1)), "slice given to "+name+" may be too short: length", in)
	case "encoding/hex.Encode":
		return ex.must(st, mkLE(toLin(mkLen(args[1])).scale(2).add(toLin(mkLen(args[0])), -1)), "slice given to "+name+" may be too short: length", in)
	}
	return true
}
