// Package checks holds the checks, one file per property group.
package checks

import (
	"bytes"
	"fmt"
	"strconv"

	"github.com/alxarch/njson"

	"verif/mc/core"
	"verif/mc/model"
)

func kindOf(t njson.Type) byte {
	switch t {
	case njson.TypeObject:
		return model.Object
	case njson.TypeArray:
		return model.Array
	case njson.TypeString:
		return model.String
	case njson.TypeNumber:
		return model.Number
	case njson.TypeBoolean:
		return model.Bool
	case njson.TypeNull:
		return model.Null
	case njson.TypeAnyValue:
		return model.Any
	}
	return model.Invalid
}

func typeOf(k byte) njson.Type {
	switch k {
	case model.Object:
		return njson.TypeObject
	case model.Array:
		return njson.TypeArray
	case model.String:
		return njson.TypeString
	case model.Number:
		return njson.TypeNumber
	case model.Bool:
		return njson.TypeBoolean
	case model.Null:
		return njson.TypeNull
	case model.Any:
		return njson.TypeAnyValue
	}
	return njson.TypeInvalid
}

// diffNode walks the whole tree below n and returns "" if it is exactly v.
// allJSON also serialises every node.
func diffNode(n njson.Node, v *model.Val, allJSON bool) string {
	if v == nil {
		if n.Type() != njson.TypeInvalid {
			return fmt.Sprintf("expected no value, have %v", n.Type())
		}
		return ""
	}
	if got := n.Type(); got != typeOf(v.Kind) {
		return fmt.Sprintf("kind %v, want %v (%s)", got, typeOf(v.Kind), clip(v.Compact()))
	}
	switch v.Kind {
	case model.Object, model.Array:
		it := n.Values()
		if it.Len() != len(v.Vals) {
			return fmt.Sprintf("%d members, want %d in %s", it.Len(), len(v.Vals), clip(v.Compact()))
		}
		i := 0
		for it.Next() {
			if i >= len(v.Vals) {
				return "iterator yields too many members"
			}
			if it.Index() != i {
				return fmt.Sprintf("iterator index %d, want %d", it.Index(), i)
			}
			if v.Kind == model.Object && it.Key() != v.Keys[i] {
				return fmt.Sprintf("member %d has key %q, want %q", i, it.Key(), v.Keys[i])
			}
			if d := diffNode(it.Value(), v.Vals[i], allJSON); d != "" {
				if v.Kind == model.Object {
					return "." + v.Keys[i] + ": " + d
				}
				return "[" + strconv.Itoa(i) + "]: " + d
			}
			i++
		}
		if i != len(v.Vals) {
			return fmt.Sprintf("iterator yields %d members, want %d", i, len(v.Vals))
		}
	default:
		if got := n.Raw(); got != v.Raw {
			return fmt.Sprintf("text %q, want %q", got, v.Raw)
		}
	}
	if allJSON {
		b, err := n.AppendJSON(nil)
		if err != nil {
			return "serialising fails: " + err.Error()
		}
		if want := v.Compact(); string(b) != want {
			return fmt.Sprintf("serialises as %q, want %q", clip(string(b)), clip(want))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "…(" + strconv.Itoa(len(s)) + " bytes)"
	}
	return s
}

// sameJSON fails unless n serialises to want.
func mustJSON(t *core.T, n njson.Node, want []byte, what string) {
	b, err := n.AppendJSON(nil)
	if err != nil {
		t.Failf("%s: serialising fails: %v", what, err)
	}
	if !bytes.Equal(b, want) {
		t.Failf("%s: serialises as %q, want %q", what, clip(string(b)), clip(string(want)))
	}
}

// words enumerates all words over toks that stay live for the reference parser, plus, for each, every
// one-token extension (dead ones included). tail is how many tokens may follow a completed value.
func words(toks []string, depth, tail int, emit func([]byte) bool) {
	ok := true
	var rec func(p []byte, depth, tail int)
	rec = func(p []byte, depth, tail int) {
		if depth == 0 || !ok {
			return
		}
		for _, tk := range toks {
			w := append(p[:len(p):len(p)], tk...)
			v, rest, err := model.Parse(string(w))
			if ok = emit(w); !ok {
				return
			}
			switch {
			case err != nil && !err.Incomplete:
			case err != nil:
				rec(w, depth-1, tail)
			case v.Kind == model.Number && rest == "":
				rec(w, depth-1, tail)
			default:
				if tail > 0 {
					rec(w, min(depth-1, tail), tail)
				}
			}
		}
	}
	rec(nil, depth, tail)
}

func count(enum func(emit func([]byte) bool)) int {
	n := 0
	enum(func([]byte) bool { n++; return true })
	return n
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func tier(t string, quick, thorough int) int {
	if t == "thorough" {
		return thorough
	}
	return quick
}

// around lists 2^k-1, 2^k and 2^k+1 for k from lo to hi, where sizes of buffers and short cuts tend to end.
func around(lo, hi int) (out []int) {
	for k := lo; k <= hi; k++ {
		out = append(out, 1<<k-1, 1<<k, 1<<k+1)
	}
	return
}
