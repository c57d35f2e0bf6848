package checks

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/numjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C11", Level: "exhaustive", Families: c11, Quick: 120, Thorough: 800,
		Assumptions: []string{"strconv.ParseFloat is correctly rounded; for the halfway families the expected value is constructed from the binary expansion and strconv is only a second opinion.",
			"Numbers with leading zeros, which JSON forbids and the parser lets through, are read as decimal (the repository's own tests ask for it)."}})
	core.Register(&core.Property{ID: "C12", Level: "exhaustive", Families: c12, Quick: 120, Thorough: 800,
		Assumptions: []string{"math/big computes the mathematical value of a decimal number.",
			"A string node whose text is a number converts like that number (the unjson ',string'-like use); any other kind is refused."}})
	core.Register(&core.Property{ID: "C13", Level: "exhaustive", Families: c13, Quick: 120, Thorough: 800,
		Assumptions: []string{"encoding/json's notation is the reference notation; read-back is judged with strconv.ParseFloat."}})
	core.Register(&core.Property{ID: "C14", Level: "exhaustive", Families: c14, Quick: 120, Thorough: 800,
		Assumptions: []string{"encoding/json decoding into interface{} is the reference for texts it accepts; texts with leading zeros are left unspecified; invalid UTF-8 is not JSON."}})
}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

// floatOne checks one text against an expected value (NaN: not a number).
func floatOne(t *core.T, s string, want float64) {
	t.Steps(len(s))
	if got := numjson.ParseFloat(s); !sameFloat(got, want) {
		t.Failf("ParseFloat(%q) gives %v (%x), want %v (%x)", clip(s), got, math.Float64bits(got), want, math.Float64bits(want))
	}
}

// floatNode checks the same through a document.
func floatNode(t *core.T, s string, want float64) {
	d := njson.Document{}
	n := d.Array()
	n.Append(d.TextRaw(s))
	f, ok := n.Index(0).ToFloat()
	if ok != (want == want) || (ok && !sameFloat(f, want)) {
		t.Failf("ToFloat on text %q gives %v, %v; want %v", clip(s), f, ok, want)
	}
	p := njson.Document{}
	v, rest, err := p.Parse("[" + s + "]")
	if err == nil && rest == "" && v.Index(0).Type() == njson.TypeNumber && v.Index(0).Raw() == s {
		f, ok := v.Index(0).ToFloat()
		if ok != (want == want) || (ok && !sameFloat(f, want)) {
			t.Failf("ToFloat on the number %q gives %v, %v; want %v", clip(s), f, ok, want)
		}
		t.Runs(1)
	} else if want == want {
		t.Failf("the number %q is not parsed as an array element: %v, rest %q", clip(s), err, rest)
	}
	t.Runs(1)
}

func floatWant(s string) float64 {
	if !model.IsNumber(s, true) {
		return math.NaN()
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func floatCheck(t *core.T, c []byte) {
	s := string(c)
	w := floatWant(s)
	floatOne(t, s, w)
	floatNode(t, s, w)
	t.State(fmt.Sprintf("%x", math.Float64bits(w)))
}

var numAlpha = strings.Split("0 1 5 9 - + . e E x _ n", " ")

// numForms writes digits×10^exp in several notations.
func numForms(digits string, exp int, emit func(string) bool) bool {
	out := []string{fmt.Sprintf("%se%d", digits, exp)}
	if exp >= 0 {
		out = append(out, fmt.Sprintf("%sE+%d", digits, exp), fmt.Sprintf("%s.0e%03d", digits, exp))
		if exp < 40 {
			out = append(out, digits+strings.Repeat("0", exp), digits+strings.Repeat("0", exp)+".0", digits+strings.Repeat("0", exp)+".000e0")
		}
	}
	n := len(digits)
	for _, p := range []int{1, n / 2, n - 1} { // point inside
		if p > 0 && p < n {
			out = append(out, fmt.Sprintf("%s.%se%d", digits[:p], digits[p:], exp+n-p), fmt.Sprintf("%s.%s00E%+d", digits[:p], digits[p:], exp+n-p))
		}
	}
	out = append(out, fmt.Sprintf("0.%se%d", digits, exp+n), fmt.Sprintf("0.00%se%d", digits, exp+n+2), fmt.Sprintf("%s00e%d", digits, exp-2))
	if exp < 0 && exp > -40 {
		if -exp < n {
			out = append(out, digits[:n+exp]+"."+digits[n+exp:], digits[:n+exp]+"."+digits[n+exp:]+"00", digits[:n+exp]+"."+digits[n+exp:]+"e0")
		} else {
			out = append(out, "0."+strings.Repeat("0", -exp-n)+digits, "0."+strings.Repeat("0", -exp-n)+digits+"E-0")
		}
	}
	for _, s := range out {
		if !emit(s) || !emit("-"+s) {
			return false
		}
	}
	return true
}

func digitPatterns(n int) []string {
	cyc := strings.Repeat("1234567890", 12)
	m := map[string]bool{}
	var out []string
	add := func(s string) {
		if len(s) == n && !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	rep := strings.Repeat
	add(rep("9", n))
	add("1" + rep("0", n-1))
	add(rep("5", n))
	add(cyc[:n])
	add(cyc[8 : 8+n])
	if n > 1 {
		add("1" + rep("0", n-2) + "1")
		add(rep("9", n-1) + "5")
		add("1" + rep("0", n-2) + "5")
		add("7" + rep("3", n-2) + "8")
	}
	for _, big := range []string{"9007199254740991", "9007199254740993", "9007199254740995", "17976931348623157081452742373170435679807056752584499659891747680315726", "22250738585072014", "49406564584124654", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775809", "36028797018963969", "72057594037927937"} {
		if len(big) >= n {
			add(big[:n])
		} else {
			add(big + rep("0", n-len(big)))
			add(big + rep("0", n-len(big)-1) + "1")
		}
	}
	return out
}

// mantissas used at every binary exponent.
func mantissas(tr string) []uint64 {
	var out []uint64
	top := uint64(1) << 52
	add := func(m uint64) { out = append(out, top|m) }
	for d := uint64(0); d < uint64(tier(tr, 4, 16)); d++ {
		add(d)
		add(top - 1 - d)
	}
	for k := 0; k < 52; k++ {
		add(1 << k)
		if tr == "thorough" {
			add(1<<k - 1)
			add(top - 1<<k)
		}
	}
	add(0x5555555555555)
	add(0xAAAAAAAAAAAAA)
	add(0x123456789ABCD)
	return out
}

// halfCase: 8 bytes mantissa, 2 bytes exponent+2000
func halfCase(m uint64, e int) []byte {
	var b [10]byte
	binary.BigEndian.PutUint64(b[:], m)
	binary.BigEndian.PutUint16(b[8:], uint16(e+2000))
	return b[:]
}
func unHalf(c []byte) (uint64, int) {
	return binary.BigEndian.Uint64(c), int(binary.BigEndian.Uint16(c[8:])) - 2000
}

var big5, big10 = big.NewInt(5), big.NewInt(10)

// midpoint returns digits, exp with digits×10^exp exactly (2m+1)×2^(e-1).
func midpoint(m uint64, e int) (string, int) {
	x := new(big.Int).SetUint64(2*m + 1)
	e--
	if e >= 0 {
		return x.Lsh(x, uint(e)).String(), 0
	}
	x.Mul(x, new(big.Int).Exp(big5, big.NewInt(int64(-e)), nil))
	return x.String(), e
}

func decAdd(s string, d int64) string {
	x, _ := new(big.Int).SetString(s, 10)
	return x.Add(x, big.NewInt(d)).String()
}

func halfCheck(t *core.T, c []byte) {
	m, e := unHalf(c)
	lo := math.Ldexp(float64(m), e)
	hi := math.Ldexp(float64(m+1), e)
	mid := lo
	if m%2 == 1 {
		mid = hi
	}
	digits, exp := midpoint(m, e)
	forms := func(digits string, exp int, want float64) {
		n := len(digits)
		list := []string{
			fmt.Sprintf("%se%d", digits, exp),
			fmt.Sprintf("%s.%se%d", digits[:1], digits[1:]+"0", exp+n-1),
			fmt.Sprintf("0.%sE%+d", digits, exp+n),
		}
		if exp < 0 {
			if -exp < n {
				list = append(list, digits[:n+exp]+"."+digits[n+exp:])
			} else {
				list = append(list, "0."+strings.Repeat("0", -exp-n)+digits)
			}
		} else {
			list = append(list, digits+strings.Repeat("0", exp), digits+strings.Repeat("0", exp)+".0")
		}
		for _, s := range list {
			floatOne(t, s, want)
			floatOne(t, "-"+s, -want)
			t.Runs(2)
		}
		floatNode(t, list[0], want)
		if f, _ := strconv.ParseFloat(list[0], 64); !sameFloat(f, want) {
			t.Failf("reference: strconv reads %s as %v, the construction says %v", clip(list[0]), f, want)
		}
	}
	forms(digits, exp, mid)
	forms(decAdd(digits+"0", 1), exp-1, hi)
	forms(decAdd(digits+"0", -1), exp-1, lo)
	forms(digits+strings.Repeat("0", 30)+"1", exp-31, hi)
	t.State(fmt.Sprintf("%x", math.Float64bits(mid)))
}

func halfShow(c []byte) string {
	m, e := unHalf(c)
	return fmt.Sprintf("midpoint above %d×2^%d", m, e)
}

func halfEnum(tr string, emit func([]byte) bool) {
	for e := -1074; e <= 971; e++ {
		for _, m := range mantissas(tr) {
			if !emit(halfCase(m, e)) {
				return
			}
		}
	}
	// subnormals
	for k := 0; k < 52; k++ {
		for _, m := range []uint64{1 << k, 1<<k - 1, 1<<k + 1, 3 << k & (1<<52 - 1)} {
			if !emit(halfCase(m, -1074)) {
				return
			}
		}
	}
}

func emitS(emit func([]byte) bool) func(string) bool {
	return func(s string) bool { return emit([]byte(s)) }
}

func c11(tr string) []core.Family {
	return []core.Family{
		{Name: "words", Rule: fmt.Sprintf("all words of up to %d characters over 0 1 5 9 - + . e E x _ n", tier(tr, 6, 7)),
			Enum: func(emit func([]byte) bool) { flat(numAlpha, tier(tr, 4, 5), emit) }, Check: func(t *core.T, c []byte) {
				floatCheck(t, c)
				for _, a := range numAlpha {
					for _, b := range numAlpha {
						s := string(c) + a + b
						floatOne(t, s, floatWant(s))
						t.Runs(1)
					}
				}
			}},
		{Name: "bytes", Rule: "every byte value put in, before or after every position of 14 valid numbers",
			Enum: func(emit func([]byte) bool) {
				for _, s := range []string{"", "0", "7", "-1", "-", "12", "1.5", "-0.25", "1e5", "-1.5E+10", "3e-2", "123456789012345678901", "0.1234567890123456789", "1e400"} {
					for i := 0; i <= len(s); i++ {
						for b := 0; b < 256; b++ {
							if !emit([]byte(s[:i]+string([]byte{byte(b)})+s[i:])) || (i < len(s) && !emit([]byte(s[:i]+string([]byte{byte(b)})+s[i+1:]))) {
								return
							}
						}
					}
				}
			}, Check: floatCheck},
		{Name: "numbers", Rule: fmt.Sprintf("all JSON numbers of up to %d characters over 0 1 5 9", tier(tr, 8, 9)),
			Enum: func(emit func([]byte) bool) { numWords(tier(tr, 8, 9), emitS(emit)) },
			Check: func(t *core.T, c []byte) {
				s := string(c)
				floatOne(t, s, floatWant(s))
			}},
		{Name: "digits", Rule: fmt.Sprintf("about 16 digit patterns of every length 1..%d with every exponent -45..45 and the exponents at the limits of the double range, in up to 15 notations and both signs", tier(tr, 32, 48)),
			Enum: func(emit func([]byte) bool) {
				for n := 1; n <= tier(tr, 32, 48); n++ {
					for _, d := range digitPatterns(n) {
						if !emit([]byte(d)) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				d := string(c)
				try := func(exp int) {
					numForms(d, exp, func(s string) bool {
						floatOne(t, s, floatWant(s))
						t.Runs(1)
						return true
					})
				}
				for exp := -45; exp <= 45; exp++ {
					try(exp)
				}
				for _, base := range []int{-345, -324, -308, 290, 308} {
					for k := -len(d) - 4; k <= 6; k++ {
						try(base + k)
					}
				}
				for _, exp := range []int{-1 << 62, -99999999, -65536, -4096, -1000, 1000, 4096, 65536, 1048575, 1048576, 99999999, 1<<62 + 1} {
					try(exp)
				}
			}},
		{Name: "exponents", Rule: "exponent texts of 1 to 40 digits (leading zeros, overflow of 32 and 64 bits) after 12 mantissas including zeros",
			Enum: func(emit func([]byte) bool) {
				for _, m := range []string{"0", "-0", "0.0", "1", "-1", "1.5", "0.001", "10", "9007199254740993", "123456789012345678901234567890", "0." + strings.Repeat("0", 340) + "1", "1" + strings.Repeat("0", 400)} {
					for n := 0; n <= 40; n++ {
						for _, e := range []string{"0", "1", "5", "22", "23", "308", "309", "324", "330", "400", "9223372036854775807", "9223372036854775808", "18446744073709551616", "4294967296", "2147483648", "65536"} {
							for _, sg := range []string{"", "+", "-"} {
								if !emit([]byte(m+"e"+sg+strings.Repeat("0", n)+e)) || !emit([]byte(m+"E"+sg+e+strings.Repeat("0", n))) {
									return
								}
							}
						}
					}
				}
			}, Check: floatCheck},
		{Name: "halfway", Rule: fmt.Sprintf("the exact decimal midpoint between neighbouring doubles, one unit above and below it and above it after 30 zeros, for every binary exponent and %d mantissas, in four notations and both signs", len(mantissas(tr))),
			Enum: func(emit func([]byte) bool) { halfEnum(tr, emit) }, Check: halfCheck, Show: halfShow},
		{Name: "small", Rule: fmt.Sprintf("m×10^e for all m below %d and all e from -345 to 312", tier(tr, 300, 5000)),
			Enum: func(emit func([]byte) bool) {
				for m := 1; m < tier(tr, 300, 5000); m++ {
					if !emit([]byte(strconv.Itoa(m))) {
						return
					}
				}
			}, Check: func(t *core.T, c []byte) {
				for e := -345; e <= 312; e++ {
					s := string(c) + "e" + strconv.Itoa(e)
					floatOne(t, s, floatWant(s))
					if len(c) > 1 {
						s = string(c[:1]) + "." + string(c[1:]) + "e" + strconv.Itoa(e)
						floatOne(t, s, floatWant(s))
					}
					t.Runs(2)
				}
			}},
		{Name: "powers2", Rule: "2^k and 2^k±1..3 for k up to 1100, written out and with zero fractions and cancelling exponents",
			Enum: func(emit func([]byte) bool) {
				for k := 0; k < 1100; k++ {
					p := new(big.Int).Lsh(big.NewInt(1), uint(k))
					for d := int64(-3); d <= 3; d++ {
						s := new(big.Int).Add(p, big.NewInt(d)).String()
						for _, x := range []string{s, s + ".0", s + "e0", s + "00e-2", s + ".000e+00"} {
							if !emit([]byte(x)) {
								return
							}
						}
					}
				}
			}, Check: floatCheck},
	}
}

// ---------------------------------------------------------------- C12

// intWant returns the exact integer denoted by s, or nil.
func intWant(s string) *big.Int {
	if !model.IsNumber(s, true) {
		return nil
	}
	mant, exp := s, 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		mant = s[:i]
		e, ok := new(big.Int).SetString(strings.TrimPrefix(s[i+1:], "+"), 10)
		if !ok {
			panic(s)
		}
		if e.IsInt64() && e.Int64() > -1e6 && e.Int64() < 1e6 {
			exp = int(e.Int64())
		} else if e.Sign() > 0 {
			exp = 1e6
		} else {
			exp = -1e6
		}
	}
	neg := strings.HasPrefix(mant, "-")
	mant = strings.TrimPrefix(mant, "-")
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		exp -= len(mant) - i - 1
		mant = mant[:i] + mant[i+1:]
	}
	// move trailing zeros into the exponent
	x, _ := new(big.Int).SetString(mant, 10)
	if x.Sign() == 0 {
		return x
	}
	z := len(mant) - len(strings.TrimRight(mant, "0"))
	mant = mant[:len(mant)-z]
	exp += z
	if exp < 0 {
		return nil
	}
	if exp > 100 {
		return new(big.Int).Lsh(big.NewInt(1), 200) // out of every range
	}
	x, _ = new(big.Int).SetString(mant+strings.Repeat("0", exp), 10)
	if neg {
		x.Neg(x)
	}
	return x
}

func intOne(t *core.T, s string, nodes bool) {
	t.Steps(len(s))
	w := intWant(s)
	i, ok := numjson.ParseInt(s)
	wok := w != nil && w.IsInt64()
	if ok != wok || (ok && i != w.Int64()) {
		t.Failf("ParseInt(%q) gives %d, %v; the value is %v", clip(s), i, ok, w)
	}
	u, ok := numjson.ParseUint(s)
	uok := w != nil && w.IsUint64()
	if ok != uok || (ok && u != w.Uint64()) {
		t.Failf("ParseUint(%q) gives %d, %v; the value is %v", clip(s), u, ok, w)
	}
	t.Runs(1)
	if !nodes {
		return
	}
	t.State(fmt.Sprint(w))
	d := njson.Document{}
	n, rest, err := d.Parse("[" + s + "]")
	if err == nil && rest == "" && n.Index(0).Raw() == s && n.Index(0).Type() == njson.TypeNumber {
		v := n.Index(0)
		if i, ok := v.ToInt(); ok != wok || (ok && i != w.Int64()) {
			t.Failf("ToInt on the number %q gives %d, %v; the value is %v", clip(s), i, ok, w)
		}
		if u, ok := v.ToUint(); ok != uok || (ok && u != w.Uint64()) {
			t.Failf("ToUint on the number %q gives %d, %v; the value is %v", clip(s), u, ok, w)
		}
		t.Runs(2)
	} else if w != nil {
		t.Failf("the number %q is not parsed as an array element: %v", clip(s), err)
	}
	if w == nil && !model.IsNumber(s, true) {
		x := d.TextRaw(s)
		if i, ok := x.ToInt(); ok {
			t.Failf("ToInt on the string %q gives %d", clip(s), i)
		}
		if i, ok := x.ToUint(); ok {
			t.Failf("ToUint on the string %q gives %d", clip(s), i)
		}
	}
}

func intCheck(t *core.T, c []byte) { intOne(t, string(c), true) }

// intForms writes an integer in many notations.
func intForms(x *big.Int, emit func(string) bool) bool {
	s := x.String()
	sign := ""
	if s[0] == '-' {
		sign, s = "-", s[1:]
	}
	ok := true
	put := func(f string) { ok = ok && emit(sign+f) && emit(f) }
	put(s)
	for _, z := range []int{1, 2, 20} {
		put(s + "." + strings.Repeat("0", z))
		put(s + strings.Repeat("0", z) + "e-" + strconv.Itoa(z))
		put(s + strings.Repeat("0", z) + ".00E-0" + strconv.Itoa(z))
		put(s + strings.Repeat("0", z) + "e-" + strconv.Itoa(z+1))
		put(s + "." + strings.Repeat("0", z) + "1")
		put(s + "." + strings.Repeat("0", z) + "1e" + strconv.Itoa(z+1))
		put(s + "." + strings.Repeat("0", z) + "1e" + strconv.Itoa(z))
		put("0." + strings.Repeat("0", z) + s + "e" + strconv.Itoa(z+len(s)))
		put("0." + strings.Repeat("0", z) + s + "e" + strconv.Itoa(z+len(s)-1))
		put("0." + strings.Repeat("0", z) + s + "0e+" + strconv.Itoa(z+len(s)))
	}
	put(s + "e0")
	put(s + "E+000")
	put(s + "e-0")
	put("0" + s)
	for p := 1; p < len(s); p++ {
		put(s[:p] + "." + s[p:] + "e" + strconv.Itoa(len(s)-p))
		put(s[:p] + "." + s[p:] + "E+" + strconv.Itoa(len(s)-p+1))
		put(s[:p] + "." + s[p:] + "e" + strconv.Itoa(len(s)-p-1))
		put(s[:p] + "." + s[p:])
	}
	tr := strings.TrimRight(s, "0")
	if tr != "" && tr != s {
		put(tr + "e" + strconv.Itoa(len(s)-len(tr)))
		put(tr[:1] + "." + tr[1:] + "0e" + strconv.Itoa(len(s)-1))
	}
	return ok
}

func c12(tr string) []core.Family {
	return []core.Family{
		{Name: "words", Rule: fmt.Sprintf("all words of up to %d characters over 0 1 5 9 - + . e E x _ n", tier(tr, 6, 7)),
			Enum: func(emit func([]byte) bool) { flat(numAlpha, tier(tr, 5, 6), emit) }, Check: func(t *core.T, c []byte) {
				if len(c) < tier(tr, 5, 6) {
					intOne(t, string(c), true)
					return
				}
				intOne(t, string(c), false)
				for _, a := range numAlpha {
					intOne(t, string(c)+a, false)
				}
			}},
		{Name: "numbers", Rule: fmt.Sprintf("all JSON numbers of up to %d characters over 0 1 5 9", tier(tr, 8, 9)),
			Enum:  func(emit func([]byte) bool) { numWords(tier(tr, 8, 9), emitS(emit)) },
			Check: func(t *core.T, c []byte) { intOne(t, string(c), false) }},
		{Name: "limits", Rule: fmt.Sprintf("2^k+d (k up to 66), 10^k+d (k up to 21) and k×(2^63, 2^64) around the wrap-around points, |d| up to %d, in about 60 notations and both signs", tier(tr, 40, 400)),
			Enum: func(emit func([]byte) bool) {
				n := int64(tier(tr, 40, 400))
				var bases []*big.Int
				for k := uint(0); k <= 66; k++ {
					bases = append(bases, new(big.Int).Lsh(big.NewInt(1), k))
				}
				for k := int64(0); k <= 21; k++ {
					bases = append(bases, new(big.Int).Exp(big10, big.NewInt(k), nil))
				}
				for k := int64(2); k <= 20; k++ {
					bases = append(bases, new(big.Int).Mul(big.NewInt(k), new(big.Int).Lsh(big.NewInt(1), 64)))
				}
				for _, b := range bases {
					for d := -n; d <= n; d++ {
						x := new(big.Int).Add(b, big.NewInt(d))
						if !emit([]byte(x.String())) || !emit([]byte(x.Neg(x).String())) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				x, _ := new(big.Int).SetString(string(c), 10)
				full := false
				if x.BitLen() >= 63 || x.BitLen() < 4 {
					full = true
				}
				intForms(x, func(s string) bool { intOne(t, s, full); return true })
			}},
		{Name: "digits", Rule: "digit patterns of every length 1..40 with every exponent -45..45 and extreme exponents, in up to 15 notations and both signs",
			Enum: func(emit func([]byte) bool) {
				for n := 1; n <= 40; n++ {
					for _, d := range digitPatterns(n) {
						if !emit([]byte(d)) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				for exp := -45; exp <= 45; exp++ {
					numForms(string(c), exp, func(s string) bool { intOne(t, s, false); return true })
				}
				for _, exp := range []int{-1 << 62, -99999999, -65536, -300, 300, 65536, 99999999, 1 << 62} {
					numForms(string(c), exp, func(s string) bool { intOne(t, s, false); return true })
				}
			}},
		{Name: "zeros", Rule: "zero and one in every notation with up to 30 zeros and exponents of any size",
			Enum: func(emit func([]byte) bool) {
				for n := 0; n <= 30; n++ {
					z := strings.Repeat("0", n)
					for _, m := range []string{"0" + z, "0." + "0" + z, "1" + z, "0." + z + "1", "1." + z + "0", "10" + z + ".0"} {
						for _, e := range []string{"", "e0", "e1", "e-1", "e" + strconv.Itoa(n), "e-" + strconv.Itoa(n), "e" + strconv.Itoa(n+1), "e-" + strconv.Itoa(n+1), "e999", "e-999", "e9223372036854775808", "e-9223372036854775809", "E+000000000000000000000001", "e18446744073709551617", "e-18446744073709551617", "e4294967297", "e-4294967297"} {
							if !emit([]byte(m+e)) || !emit([]byte("-"+m+e)) {
								return
							}
						}
					}
				}
			}, Check: intCheck},
		{Name: "kinds", Rule: "every node of every document with up to N nodes over strings, literals and containers: conversion is refused by value and by missing handle; set integers read back",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 4, 5), []string{`""`, `"a"`, `"-"`, `"1x"`, `" 1"`, "true", "false", "null"}, []string{"", "1"}, emitS(emit))
			}, Check: func(t *core.T, c []byte) {
				d := njson.Document{}
				if _, _, err := d.Parse(string(c)); err != nil {
					t.Failf("parse: %v", err)
				}
				for id := uint(0); id < 10; id++ {
					n := d.Node(id)
					if i, ok := n.ToInt(); ok {
						t.Failf("node %d (%v %q) of %s converts to %d", id, n.Type(), n.Raw(), c, i)
					}
					if i, ok := n.ToUint(); ok {
						t.Failf("node %d (%v %q) of %s converts to unsigned %d", id, n.Type(), n.Raw(), c, i)
					}
					if f, ok := n.ToFloat(); ok {
						t.Failf("node %d (%v %q) of %s converts to %v", id, n.Type(), n.Raw(), c, f)
					}
					t.Runs(3)
				}
				if _, ok := (njson.Node{}).ToInt(); ok {
					t.Failf("the zero handle converts")
				}
				if _, ok := (njson.Node{}).ToUint(); ok {
					t.Failf("the zero handle converts")
				}
				t.StateBytes(c)
			}},
		{Name: "set", Rule: "integers at 2^k+d set on a node read back exactly",
			Enum: func(emit func([]byte) bool) {
				for k := uint(0); k < 64; k++ {
					for d := -3; d <= 3; d++ {
						if !emit([]byte(strconv.FormatUint(1<<k+uint64(d), 10))) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				u, _ := strconv.ParseUint(string(c), 10, 64)
				d := njson.Document{}
				n := d.Null()
				n.SetUint(u)
				if got, ok := n.ToUint(); !ok || got != u || n.Raw() != string(c) || n.Type() != njson.TypeNumber {
					t.Failf("SetUint(%d) gives %q, %d", u, n.Raw(), got)
				}
				i := int64(u)
				n.SetInt(i)
				if got, ok := n.ToInt(); !ok || got != i || n.Raw() != strconv.FormatInt(i, 10) {
					t.Failf("SetInt(%d) gives %q, %d", i, n.Raw(), got)
				}
				t.Runs(1)
			}},
	}
}

// ---------------------------------------------------------------- C13

func format64(t *core.T, f float64, full bool) {
	t.Steps(1)
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	want := string(b)
	got := numjson.FormatFloat(f, 64)
	if got != want {
		t.Failf("FormatFloat(%x) gives %q, want %q", math.Float64bits(f), got, want)
	}
	if back, err := strconv.ParseFloat(got, 64); err != nil || !sameFloat(back, f) || !model.IsNumber(got, false) {
		t.Failf("FormatFloat(%x) gives %q, which reads as %v", math.Float64bits(f), got, back)
	}
	if back := numjson.ParseFloat(got); !sameFloat(back, f) {
		t.Failf("FormatFloat(%x) gives %q, which the parser reads as %v", math.Float64bits(f), got, back)
	}
	if !full {
		return
	}
	t.State(want)
	buffers(t, fmt.Sprintf("appending %v", f), want, []int{0, 1, len(want) - 1, len(want), len(want) + 1, len(want) + 3, 40}, func(d []byte) []byte { return numjson.AppendFloat(d, f, 64) })
	d := njson.Document{}
	n := d.Number(f)
	if n.Raw() != want || n.Type() != njson.TypeNumber {
		t.Failf("Number(%v) holds %q (%v), want %q", f, n.Raw(), n.Type(), want)
	}
	m := d.Null()
	m.SetFloat(f)
	if m.Raw() != want || m.Type() != njson.TypeNumber {
		t.Failf("SetFloat(%v) holds %q (%v), want %q", f, m.Raw(), m.Type(), want)
	}
	if back, ok := m.ToFloat(); !ok || !sameFloat(back, f) {
		t.Failf("SetFloat(%v) reads back as %v, %v", f, back, ok)
	}
	mustJSON(t, n, []byte(want), "number")
	t.Runs(3)
}

func format32(t *core.T, x uint32, full bool) {
	f := math.Float32frombits(x)
	if f != f || math.IsInf(float64(f), 0) {
		return
	}
	t.Steps(1)
	var arr, arr2 [64]byte
	got := numjson.AppendFloat(arr[:0], float64(f), 32)
	want := std32(arr2[:0], f)
	if string(got) != string(want) {
		t.Failf("AppendFloat(float32 %08x) gives %q, want %q", x, got, want)
	}
	if !full {
		return
	}
	b, err := json.Marshal(f)
	if err != nil || string(b) != string(want) {
		t.Failf("reference: encoding/json writes float32 %08x as %s, the model as %s", x, b, want)
	}
	back, err := strconv.ParseFloat(string(got), 32)
	if err != nil || math.Float32bits(float32(back)) != x || !model.IsNumber(string(got), false) {
		t.Failf("AppendFloat(float32 %08x) gives %q, which reads as %v", x, got, back)
	}
	if back := float32(numjson.ParseFloat(string(got))); f != back && math.Abs(float64(f)) > 0 {
		// double rounding is the reader's business; it must still be a neighbour
		if math.Nextafter32(f, back) != back {
			t.Failf("AppendFloat(float32 %08x) gives %q, which the parser reads as %v", x, got, back)
		}
	}
	if s := numjson.FormatFloat(float64(f), 32); s != string(want) {
		t.Failf("FormatFloat(float32 %08x) gives %q, want %q", x, s, want)
	}
	buffers(t, fmt.Sprintf("appending float32 %v", f), string(want), []int{0, len(want), len(want) + 1, len(want) + 3}, func(d []byte) []byte { return numjson.AppendFloat(d, float64(f), 32) })
	t.State(string(want))
}

// std32 is encoding/json's notation for float32 (compared with it in the full families).
func std32(dst []byte, f float32) []byte {
	abs := f
	if abs < 0 {
		abs = -abs
	}
	if abs == 0 || (abs >= 1e-6 && abs < 1e21) {
		return strconv.AppendFloat(dst, float64(f), 'f', -1, 32)
	}
	n := len(dst)
	dst = strconv.AppendFloat(dst, float64(f), 'e', -1, 32)
	if i := strings.Index(string(dst[n:]), "e-0"); i >= 0 {
		dst = append(dst[:n+i+2], dst[n+i+3:]...)
	}
	return dst
}

func bits64(c []byte) float64 { return math.Float64frombits(binary.BigEndian.Uint64(c)) }
func put64(f float64) []byte  { return binary.BigEndian.AppendUint64(nil, math.Float64bits(f)) }
func show64(c []byte) string  { return fmt.Sprintf("%v (%x)", bits64(c), c) }
func ulps(f float64, n int) float64 {
	return math.Float64frombits(math.Float64bits(f) + uint64(int64(n)))
}

func c13(tr string) []core.Family {
	finite := func(emit func([]byte) bool) func(float64) bool {
		return func(f float64) bool {
			if f != f || math.IsInf(f, 0) {
				return true
			}
			return emit(put64(f)) && emit(put64(-f))
		}
	}
	chk := func(t *core.T, c []byte) { format64(t, bits64(c), true) }
	return []core.Family{
		{Name: "exponents", Rule: fmt.Sprintf("every binary exponent of a double (subnormals included) with %d mantissas, both signs", len(mantissas(tr))),
			Enum: func(emit func([]byte) bool) {
				put := finite(emit)
				for e := uint64(0); e < 2047; e++ {
					for _, m := range mantissas(tr) {
						if !put(math.Float64frombits(e<<52 | m&(1<<52-1))) {
							return
						}
					}
				}
			}, Check: chk, Show: show64},
		{Name: "tens", Rule: "every power of ten from 1e-330 to 1e308 and its neighbours up to 40 ulps, both signs; 10^k±small integers",
			Enum: func(emit func([]byte) bool) {
				put := finite(emit)
				for e := -330; e <= 308; e++ {
					for _, m := range []string{"1", "2", "5", "9", "9.999999", "1.0000001", "1.5"} {
						f, _ := strconv.ParseFloat(m+"e"+strconv.Itoa(e), 64)
						n := 3
						if m == "1" {
							n = 40
						}
						for k := -n; k <= n; k++ {
							if k < 0 && f == 0 {
								continue
							}
							if !put(ulps(f, k)) {
								return
							}
						}
					}
				}
			}, Check: chk, Show: show64},
		{Name: "decimals", Rule: fmt.Sprintf("m×10^e for all m below %d and e from -30 to 30", tier(tr, 1000, 20000)),
			Enum: func(emit func([]byte) bool) {
				for m := 0; m < tier(tr, 1000, 20000); m++ {
					if !emit(binary.BigEndian.AppendUint64(nil, uint64(m))) {
						return
					}
				}
			}, Check: func(t *core.T, c []byte) {
				m := binary.BigEndian.Uint64(c)
				for e := -30; e <= 30; e++ {
					f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", m, e), 64)
					format64(t, f, false)
					format64(t, -f, false)
					t.Runs(2)
				}
			}, Show: func(c []byte) string { return fmt.Sprint(binary.BigEndian.Uint64(c)) }},
		{Name: "float32", Rule: "float32 values: every sign and exponent with boundary mantissas (one or two bits, runs, ends)",
			Enum: func(emit func([]byte) bool) {
				for e := uint32(0); e < 512; e++ {
					ms := []uint32{0, 0x555555, 0x2AAAAA, 0x7fffff, 0x123456}
					for a := uint32(0); a < 23; a++ {
						ms = append(ms, 1<<a, 1<<a-1, 0x7fffff^1<<a)
						for b := a + 1; b < 23; b += uint32(tier(tr, 3, 1)) {
							ms = append(ms, 1<<a|1<<b)
						}
					}
					for _, m := range ms {
						if !emit(binary.BigEndian.AppendUint32(nil, e<<23|m)) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) { format32(t, binary.BigEndian.Uint32(c), true) },
			Show: func(c []byte) string { return fmt.Sprintf("float32 bits %x", c) }},
		{Name: "float32-all", Rule: tierS(tr, "every float32 whose lower 10 mantissa bits are one of 4 patterns, next to both thresholds every value", "every float32"),
			Enum: func(emit func([]byte) bool) {
				for hi := uint32(0); hi < 1<<21; hi++ {
					if !emit(binary.BigEndian.AppendUint32(nil, hi<<11)) {
						return
					}
				}
			}, Check: func(t *core.T, c []byte) {
				x := binary.BigEndian.Uint32(c)
				near := false
				for _, th := range []float32{1e-6, 1e21, 1e-7, 1e-5, 1e-9, 1e-10, 1e-38, 1e38} {
					b := math.Float32bits(th)
					d := int64(x&^(1<<31)) - int64(b)
					near = near || (d < 4096 && d > -8192)
				}
				if near || tr == "thorough" {
					for i := uint32(0); i < 2048; i++ {
						format32(t, x|i, false)
					}
					t.Runs(2047)
					return
				}
				for _, i := range []uint32{0, 1, 0x555, 0x7ff} {
					format32(t, x|i, false)
				}
				t.Runs(3)
			}, Show: func(c []byte) string { return fmt.Sprintf("float32 block %x", c) }},
		{Name: "bits32-of-double", Rule: "doubles that are not single-precision values written with 32 bits: read back as their nearest single",
			Enum: func(emit func([]byte) bool) {
				put := finite(emit)
				for e := uint64(1023 - 150); e < 1023+127; e++ {
					for _, m := range mantissas("quick") {
						if !put(math.Float64frombits(e<<52 | m&(1<<52-1))) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				f := bits64(c)
				t.Steps(1)
				s := numjson.FormatFloat(f, 32)
				// The notation is unspecified here, the value is not.
				back, err := strconv.ParseFloat(s, 32)
				if err != nil || !model.IsNumber(s, false) || !sameFloat(float64(float32(back)), float64(float32(f))) {
					t.Failf("FormatFloat(%v, 32) gives %q, which reads as %v, want %v", f, s, back, float32(f))
				}
			}, Show: show64},
	}
}

func tierS(t, a, b string) string {
	if t == "thorough" {
		return b
	}
	return a
}

// ---------------------------------------------------------------- C14

// ifaceOf is the reference conversion of a parsed tree; ok is false where a number is not convertible.
func ifaceOf(v *model.Val) (interface{}, bool) {
	switch v.Kind {
	case model.Object:
		m := map[string]interface{}{}
		for i, k := range v.Keys {
			x, ok := ifaceOf(v.Vals[i])
			if !ok {
				return nil, false
			}
			m[model.Unescape(k)] = x
		}
		return m, true
	case model.Array:
		a := []interface{}{}
		for _, x := range v.Vals {
			y, ok := ifaceOf(x)
			if !ok {
				return nil, false
			}
			a = append(a, y)
		}
		return a, true
	case model.String:
		return model.Unescape(v.Raw), true
	case model.Number:
		f := floatWant(v.Raw)
		return f, f == f && !math.IsInf(f, 0)
	case model.Bool:
		return v.Raw == "true", true
	}
	return nil, true
}

func genericNode(t *core.T, n njson.Node, v *model.Val, std bool) {
	want, ok := ifaceOf(v)
	got, gok := n.ToInterface()
	t.Runs(1)
	text := v.Compact()
	if gok != ok {
		t.Failf("%s converts with %v, want %v (%v)", clip(text), gok, ok, got)
	}
	if ok && !sameGeneric(got, want) {
		t.Failf("%s converts to %#v, want %#v", clip(text), got, want)
	}
	if std {
		var x interface{}
		err := json.Unmarshal([]byte(text), &x)
		if (err == nil) != ok {
			if ok && strings.Contains(err.Error(), "invalid character") {
				// text the standard decoder does not read (leading zeros, malformed strings)
			} else {
				t.Failf("reference: encoding/json on %s: %v, model %v", clip(text), err, ok)
			}
		} else if ok && !sameGeneric(x, want) {
			t.Failf("reference: encoding/json reads %s as %#v, the model as %#v", clip(text), x, want)
		}
	}
	for i := range v.Vals {
		it := n.Values()
		for j := 0; j <= i; j++ {
			it.Next()
		}
		genericNode(t, it.Value(), v.Vals[i], false)
	}
}

// sameGeneric is DeepEqual with exact floats (sign of zero).
func sameGeneric(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && sameFloat(x, y)
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameGeneric(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !sameGeneric(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func genericCheck(t *core.T, c []byte) {
	d := njson.Document{}
	v, rest, merr := model.Parse(string(c))
	n, _, err := d.Parse(string(c))
	if (merr != nil) != (err != nil) {
		t.Failf("%q: parse error %v, model %v", c, err, merr)
	}
	if err != nil {
		return
	}
	_ = rest
	t.Steps(len(c))
	t.State(v.Compact())
	if len(c) > 5000 {
		// Too deep for encoding/json, and too much to convert every node of.
		want, ok := ifaceOf(v)
		if got, gok := n.ToInterface(); gok != ok || (ok && !sameGeneric(got, want)) {
			t.Failf("%s converts to a different value", clip(string(c)))
		}
		return
	}
	genericNode(t, n, v, true)
	if x, ok := d.Node(1 << 20).ToInterface(); ok || x != nil {
		t.Failf("a missing value converts to %v", x)
	}
	if x, ok := (njson.Node{}).ToInterface(); ok || x != nil {
		t.Failf("the zero handle converts to %v", x)
	}
}

func c14(tr string) []core.Family {
	leaves := []string{`""`, `"\u0041\n"`, `-1.5e+3`, "true", "false", "null", "-0", "-"}
	return []core.Family{
		{Name: "trees", Rule: "every document with up to N nodes over 8 scalars (one not a number), [] and {} and 4 keys, of which two decode to the same text and one is empty; every node of it",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 4, 5), leaves, []string{"", "A", `\u0041`, `\"`}, emitS(emit))
			}, Check: genericCheck},
		{Name: "shapes", Rule: "every tree shape with up to N nodes over 1 scalar, [] and {} and 2 keys",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 7, 8), []string{`"v"`}, []string{"k", "l"}, emitS(emit))
			}, Check: genericCheck},
		{Name: "strings", Rule: "every string body of up to N pieces as value and as key",
			Enum: func(emit func([]byte) bool) {
				var ps []string
				for _, p := range unescPieces {
					if p != "\xff" && p != "\n" && p != `\` {
						ps = append(ps, p)
					}
				}
				bodies(ps, tier(tr, 2, 3), func(s string) bool {
					if !model.ValidBody(s) {
						return true
					}
					return emit([]byte(`{"a":["`+s+`"],"`+s+`":"`+s+`"}`)) && emit([]byte(`["`+s+`"]`))
				})
			}, Check: genericCheck},
		{Name: "numbers", Rule: "every word of up to N characters over 0 1 5 9 - + . e E that the parser takes as a number, alone and inside arrays and objects",
			Enum: func(emit func([]byte) bool) {
				flat(strings.Split("0 1 5 9 - + . e E", " "), tier(tr, 5, 6), func(b []byte) bool {
					s := string(b)
					for _, cx := range []string{"%", "[%]", `{"a":%}`, `[1,{"a":[%,2]}]`} {
						if !emit([]byte(strings.ReplaceAll(cx, "%", s))) {
							return false
						}
					}
					return true
				})
			}, Check: genericCheck},
		{Name: "range", Rule: "numbers at the limits of the double range, next to other members, before and after them",
			Enum: func(emit func([]byte) bool) {
				for e := 300; e <= 330; e++ {
					for _, m := range []string{"1", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "1.8", "9.99", "0.000001", "0", "-1", "-9", "1000000"} {
						for _, cx := range []string{"%", "[%]", "[1,%]", "[%,1]", `{"a":%,"b":1}`, `{"b":1,"a":%}`, `[[%]]`, `{"a":{"b":[%]}}`, `{"a":%,"a":1}`, `{"a":1,"a":%}`} {
							if !emit([]byte(strings.ReplaceAll(cx, "%", m+"e"+strconv.Itoa(e)))) || !emit([]byte(strings.ReplaceAll(cx, "%", m+"e-"+strconv.Itoa(e)))) {
								return
							}
						}
					}
				}
			}, Check: genericCheck},
		{Name: "sizes", Rule: "arrays and objects of every size up to 300 and nestings up to 300",
			Enum:  func(emit func([]byte) bool) { shapeSizes("quick", emit) },
			Check: func(t *core.T, c []byte) { genericCheck(t, []byte(shapeText(c))) }, Show: shapeShow},
	}
}
