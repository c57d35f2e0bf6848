// Package model holds the boring reference models.
package model

import "strings"

// Kinds of values.
const (
	Invalid byte = 0
	Object  byte = 'o'
	Array   byte = 'a'
	String  byte = 's'
	Number  byte = 'n'
	Bool    byte = 'b'
	Null    byte = 'z'
	Any     byte = '*' // only as the kind of an error
)

// Val is a JSON value with its text kept verbatim.
type Val struct {
	Kind byte
	Raw  string // scalars: text (strings: body between the quotes)
	Keys []string
	Vals []*Val
}

// Append writes the compact form.
func (v *Val) Append(b []byte) []byte {
	switch v.Kind {
	case Object:
		b = append(b, '{')
		for i, x := range v.Vals {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, '"')
			b = append(b, v.Keys[i]...)
			b = append(b, '"', ':')
			b = x.Append(b)
		}
		return append(b, '}')
	case Array:
		b = append(b, '[')
		for i, x := range v.Vals {
			if i > 0 {
				b = append(b, ',')
			}
			b = x.Append(b)
		}
		return append(b, ']')
	case String:
		b = append(b, '"')
		b = append(b, v.Raw...)
		return append(b, '"')
	}
	return append(b, v.Raw...)
}

// Compact is the compact form.
func (v *Val) Compact() string { return string(v.Append(nil)) }

// Size counts nodes.
func (v *Val) Size() int {
	n := 1
	for _, x := range v.Vals {
		n += x.Size()
	}
	return n
}

// Clone copies a tree.
func (v *Val) Clone() *Val {
	c := &Val{Kind: v.Kind, Raw: v.Raw}
	c.Keys = append([]string(nil), v.Keys...)
	for _, x := range v.Vals {
		c.Vals = append(c.Vals, x.Clone())
	}
	return c
}

// Get returns the first member with the key.
func (v *Val) Get(key string) *Val {
	if v == nil || v.Kind != Object {
		return nil
	}
	for i, k := range v.Keys {
		if k == key {
			return v.Vals[i]
		}
	}
	return nil
}

// At returns an array element.
func (v *Val) At(i int) *Val {
	if v == nil || v.Kind != Array || i < 0 || i >= len(v.Vals) {
		return nil
	}
	return v.Vals[i]
}

// Err is a parse failure of the reference parser.
type Err struct {
	Incomplete bool
	Pos        int // offset of the first offending token (only if !Incomplete)
	Kind       byte
}

// Parse is the reference for structural parsing: the inside of numbers and strings is not validated.
// It is a pushdown automaton written with an explicit stack of open containers.
func Parse(s string) (*Val, string, *Err) {
	type frame struct {
		v *Val
	}
	var stack []frame
	i := 0
	ws := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r') {
			i++
		}
	}
	const (
		wantValue = iota
		wantFirst // value or ']' right after '['
		wantKey   // key after ','
		wantFirstKey
		wantColon
		wantNext // ',' or closer
	)
	state := wantValue
	var done *Val
	top := func() *Val { return stack[len(stack)-1].v }
	place := func(v *Val) {
		if len(stack) == 0 {
			done = v
			return
		}
		t := top()
		t.Vals = append(t.Vals, v)
		if t.Kind == Array {
			t.Keys = append(t.Keys, "")
		}
		state = wantNext
	}
	pop := func() {
		v := top()
		stack = stack[:len(stack)-1]
		if len(stack) == 0 {
			done = v
			return
		}
		state = wantNext
	}
	push := func(kind byte) {
		v := &Val{Kind: kind}
		if len(stack) > 0 {
			t := top()
			t.Vals = append(t.Vals, v)
			if t.Kind == Array {
				t.Keys = append(t.Keys, "")
			}
		}
		stack = append(stack, frame{v})
		if kind == Array {
			state = wantFirst
		} else {
			state = wantFirstKey
		}
	}
	// quoted returns the body of the string starting at the quote s[i] and moves past it.
	quoted := func() (string, bool) {
		for j := i + 1; j < len(s); j++ {
			if s[j] == '\\' {
				j++
				continue
			}
			if s[j] == '"' {
				body := s[i+1 : j]
				i = j + 1
				return body, true
			}
		}
		return "", false
	}
	for done == nil {
		ws()
		if i >= len(s) {
			kind := Any
			switch state {
			case wantFirst, wantKey, wantFirstKey, wantColon, wantNext:
				kind = top().Kind
			}
			return nil, "", &Err{Incomplete: true, Kind: kind}
		}
		c := s[i]
		switch state {
		case wantFirst:
			if c == ']' {
				i++
				pop()
				continue
			}
			fallthrough
		case wantValue:
			switch {
			case c == '{':
				i++
				push(Object)
			case c == '[':
				i++
				push(Array)
			case c == '"':
				body, ok := quoted()
				if !ok {
					return nil, "", &Err{Incomplete: true, Kind: String}
				}
				place(&Val{Kind: String, Raw: body})
			case c == '-' || '0' <= c && c <= '9':
				j := i
				for j < len(s) && !strings.ContainsRune(" \t\r\n,]}", rune(s[j])) {
					j++
				}
				raw := s[i:j]
				i = j
				place(&Val{Kind: Number, Raw: raw})
			case c == 't' || c == 'f' || c == 'n':
				lit, kind := "true", Bool
				if c == 'f' {
					lit = "false"
				} else if c == 'n' {
					lit, kind = "null", Null
				}
				if strings.HasPrefix(s[i:], lit) {
					i += len(lit)
					place(&Val{Kind: kind, Raw: lit})
				} else if strings.HasPrefix(lit, s[i:]) {
					return nil, "", &Err{Incomplete: true, Kind: kind}
				} else {
					return nil, "", &Err{Pos: i, Kind: kind}
				}
			default:
				return nil, "", &Err{Pos: i, Kind: Any}
			}
		case wantFirstKey, wantKey:
			if c == '}' && state == wantFirstKey {
				i++
				pop()
				continue
			}
			if c != '"' {
				return nil, "", &Err{Pos: i, Kind: Object}
			}
			body, ok := quoted()
			if !ok {
				return nil, "", &Err{Incomplete: true, Kind: Object}
			}
			top().Keys = append(top().Keys, body)
			state = wantColon
		case wantColon:
			if c != ':' {
				return nil, "", &Err{Pos: i, Kind: Object}
			}
			i++
			state = wantValue
		case wantNext:
			t := top()
			switch {
			case c == ',':
				i++
				if t.Kind == Object {
					state = wantKey
				} else {
					state = wantValue
				}
			case c == '}' && t.Kind == Object, c == ']' && t.Kind == Array:
				i++
				pop()
			default:
				return nil, "", &Err{Pos: i, Kind: t.Kind}
			}
		}
	}
	return done, s[i:], nil
}
