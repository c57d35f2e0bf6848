package model

import (
	"unicode/utf16"
	"unicode/utf8"
)

// HexVal is the value of a hex digit or -1.
func HexVal(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func hex4(s string) (rune, bool) {
	if len(s) < 4 {
		return 0, false
	}
	r := rune(0)
	for i := 0; i < 4; i++ {
		h := HexVal(s[i])
		if h < 0 {
			return 0, false
		}
		r = r<<4 | rune(h)
	}
	return r, true
}

// Unescape decodes the body of a JSON string one escape at a time. Malformed escapes stay as they are.
func Unescape(s string) string {
	b := make([]byte, 0, len(s))
	for len(s) > 0 {
		if s[0] != '\\' {
			b = append(b, s[0])
			s = s[1:]
			continue
		}
		if len(s) == 1 {
			b = append(b, '\\')
			break
		}
		switch c := s[1]; c {
		case '"', '\\', '/':
			b = append(b, c)
			s = s[2:]
		case 'b':
			b = append(b, 8)
			s = s[2:]
		case 't':
			b = append(b, 9)
			s = s[2:]
		case 'n':
			b = append(b, 10)
			s = s[2:]
		case 'f':
			b = append(b, 12)
			s = s[2:]
		case 'r':
			b = append(b, 13)
			s = s[2:]
		case 'u':
			r, ok := hex4(s[2:])
			if !ok {
				b = append(b, '\\', 'u')
				s = s[2:]
				break
			}
			s = s[6:]
			if utf16.IsSurrogate(r) {
				full := rune(utf8.RuneError)
				if len(s) >= 6 && s[0] == '\\' && s[1] == 'u' {
					if r2, ok := hex4(s[2:]); ok && r < 0xdc00 && 0xdc00 <= r2 && r2 < 0xe000 {
						full = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
						s = s[6:]
					}
				}
				r = full
			}
			b = utf8.AppendRune(b, r)
		default:
			b = append(b, '\\', c)
			s = s[2:]
		}
	}
	return string(b)
}

// ValidBody checks that s is the body of a JSON string literal (RFC 8259, valid UTF-8).
func ValidBody(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c < 0x20 || c == '"':
			return false
		case c == '\\':
			i++
			if i >= len(s) {
				return false
			}
			switch s[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				if _, ok := hex4(s[i+1:]); !ok {
					return false
				}
				i += 4
			default:
				return false
			}
		}
	}
	return true
}

// ValidUTF8 replaces every invalid byte by U+FFFD.
func ValidUTF8(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	b := make([]byte, 0, len(s)+8)
	for _, r := range s {
		b = utf8.AppendRune(b, r)
	}
	return string(b)
}

// NumberRest scans a JSON number (leading zeros allowed when lenient) and tells if s is exactly one.
func IsNumber(s string, lenient bool) bool {
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	d := i
	for i < len(s) && '0' <= s[i] && s[i] <= '9' {
		i++
	}
	if i == d || (!lenient && s[d] == '0' && i > d+1) {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		d = i
		for i < len(s) && '0' <= s[i] && s[i] <= '9' {
			i++
		}
		if i == d {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		d = i
		for i < len(s) && '0' <= s[i] && s[i] <= '9' {
			i++
		}
		if i == d {
			return false
		}
	}
	return i == len(s)
}
