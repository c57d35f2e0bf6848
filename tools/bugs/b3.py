exec(open('/verif/tools/bugs/common.py').read())
bug("C04-root","C04","a recycled document where the node of a nested value was a free-standing value before, and that nested value is then inserted a second time","parsing over a recycled node keeps its old 'free-standing' mark, so inserting the value again shares it instead of copying",
[("document.go","""func (n *node) set(inf info, raw string) {
	n.info = inf
""","""func (n *node) set(inf info, raw string) {
	n.info = inf | n.info.Flags()
""")],prog('''	d := njson.Document{}
	d.Parse(`1`)
	d.Parse(`2`)
	d.Reset()
	n, _, _ := d.Parse(`[[1]]`)
	n.Append(n.Index(0))
	n.Index(0).Index(0).SetInt(9)
	b, _ := n.AppendJSON(nil)
	if string(b) != "[[9],[1]]" {
		fail(string(b))
	}'''))
bug("C04-copy","C04","a value copied into a document whose recycled node held members before","copying a container into recycled storage keeps the old members of the node in front of the new ones",
[("document.go","""	values := cp.values[:cap(cp.values)]
	*cp = node{
		raw: n.raw,""","""	values := cp.values
	*cp = node{
		raw: n.raw,"""),("document.go","""			values = appendV(values, v.key, d.ncopy(other, n), numV)
			numV++
		}
	}
	d.nodes[id].values = values[:numV]
	return id
}

// func""","""			values = append(values, V{d.ncopy(other, n), v.key})
			numV++
		}
	}
	if numV == 0 {
		values = values[:0]
	}
	d.nodes[id].values = values
	return id
}

// func""")],prog('''	d := njson.Document{}
	d.Parse(`[0,[1,2,3],4]`)
	d.Reset()
	src := njson.Document{}
	e, _, _ := src.Parse(`[7]`)
	a := d.Array()
	d.Null()
	a.Append(e)
	b, err := a.AppendJSON(nil)
	if err != nil || string(b) != "[[7]]" {
		d2 := njson.Document{}
		a := d2.Array()
		d2.Null()
		a.Append(e)
		b2, _ := a.AppendJSON(nil)
		fail(string(b), err, "fresh:", string(b2))
	}
	d = njson.Document{}
	d.Parse(`[[5,6]]`)
	d.Reset()
	a = d.Array()
	a.Append(e)
	b, err = a.AppendJSON(nil)
	if err != nil || string(b) != "[[7]]" {
		fail(string(b), err)
	}'''))
bug("C06-del","C06","two keys of equal length above 16 bytes that share their first 16 bytes","Del compares only the first 16 bytes of long keys of equal length and deletes the wrong member",
[("node.go","""		for i := range n.values {
			if n.values[i].key == key {
				if j := len(n.values) - 1; 0 <= j && j < len(n.values) {""","""		for i := range n.values {
			if len(n.values[i].key) == len(key) && (n.values[i].key == key || len(key) > 16 && n.values[i].key[:16] == key[:16]) {
				if j := len(n.values) - 1; 0 <= j && j < len(n.values) {""")],prog('''	d := njson.Document{}
	n, _, _ := d.Parse(`{"abcdefghijklmnopq":1,"abcdefghijklmnopr":2}`)
	n.Del("abcdefghijklmnopr")
	b, _ := n.AppendJSON(nil)
	if string(b) != `{"abcdefghijklmnopq":1}` {
		fail(string(b))
	}'''))
bug("C07-adopt","C07","inserting the same free-standing scalar twice and then changing one of the places","a scalar that was moved into a container still counts as free-standing, so inserting it again shares it between two places",
[("document.go","""			n.info &^= infRoot
			return id""","""			if len(n.values) > 0 || n.info.IsArray() || n.info.IsObject() {
				n.info &^= infRoot
			}
			return id""")],prog('''	d := njson.Document{}
	a, _, _ := d.Parse(`[]`)
	x := d.Number(1)
	a.Append(x)
	a.Append(x)
	a.Index(0).SetInt(2)
	b, _ := a.AppendJSON(nil)
	if string(b) != `[2,1]` {
		fail(string(b))
	}'''))
bug("C07-stale","C07","setting a new member from another document while the storage of the document is full","Set adds the member to the node as it was before the storage moved, so the member is lost",
[("node.go","""			// copyOrAdopt might grow nodes array invalidating nn pointer
			nn = &n.doc.nodes[n.id]
			var v *V""","""			if nn.values == nil {
				nn = &n.doc.nodes[n.id]
			}
			var v *V""")],prog('''	for size := 1; size < 200; size++ {
		d := njson.Document{}
		o, _, _ := d.Parse(`{"a":1}`)
		src := njson.Document{}
		v, _, _ := src.Parse(`[1,[2,3],4]`)
		for i := 0; i < size; i++ {
			o.Set(fmt.Sprint("k", i), v)
		}
		if it := o.Values(); it.Len() != size+1 {
			fail("lost members:", it.Len(), "of", size+1)
		}
	}'''))
bug("C09-html","C09","HTML escaping into a buffer of text where '<', '>' or '&' directly follows an escaped control character","with HTML escaping an HTML character after a control character is written as is",
[("strjson/escape.go","""			dst = escapeByte(dst, c)
		} else {""","""			if dst = escapeByte(dst, c); c < ' ' && i+1 < uint(len(s)) && s[i] > '9' && s[i] < 'A' {
				// digit-like, nothing to escape
				dst = append(dst, s[i])
				i++
			}
		} else {""")],prog(r'''	if s := strjson.AppendEscaped(nil, "\x01<b>", true); string(s) != `\u0001\u003cb\u003e` {
		fail(fmt.Sprintf("%q", s))
	}''',('github.com/alxarch/njson/strjson',)))
bug("C10-edge","C10","the escape of exactly U+0080","Unescape writes a single raw byte for \\u0080",
[("strjson/unescape.go","""		if r1 < utf8.RuneSelf {
			c = byte(r1)
			i += 4
			goto unescapeByte
		}
		i += 5
		if utf16.IsSurrogate(r1) {
			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' && isHex(ss[7:11]) {
				r2 := rune(fromHex(ss[7])) << 12
				r2 |= rune(fromHex(ss[8])) << 8
				r2 |= rune(fromHex(ss[9])) << 4
				r2 |= rune(fromHex(ss[10]))
				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
					i += 6
				}
			} else {
				r1 = utf8.RuneError
			}
		}
		if 0""","""		if r1 <= utf8.RuneSelf {
			c = byte(r1)
			i += 4
			goto unescapeByte
		}
		i += 5
		if utf16.IsSurrogate(r1) {
			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' && isHex(ss[7:11]) {
				r2 := rune(fromHex(ss[7])) << 12
				r2 |= rune(fromHex(ss[8])) << 8
				r2 |= rune(fromHex(ss[9])) << 4
				r2 |= rune(fromHex(ss[10]))
				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
					i += 6
				}
			} else {
				r1 = utf8.RuneError
			}
		}
		if 0""")],prog(r'''	if s := string(strjson.AppendUnescaped(nil, `a\u0080`)); s != "a\u0080" {
		fail(fmt.Sprintf("%q", s))
	}''',('github.com/alxarch/njson/strjson',)))
bug("C10-room","C10","a broken unicode escape decoded into a buffer without room","the buffer is sized as if every unicode escape shrank, so text with broken ones is cut",
[("strjson/unescape.go","""	if n = offset + len(s); cap(dst) < n {
		buf = make""","""	if n = offset + len(s) - 3*strings.Count(s, "\\\\u"); cap(dst) < n {
		buf = make""")],prog(r'''	if s := string(strjson.AppendUnescaped(nil, `ab\uzzzz rest`)); s != `ab\uzzzz rest` {
		fail(fmt.Sprintf("%q", s))
	}''',('github.com/alxarch/njson/strjson',)))
bug("C11-long","C11","an integer of 20 digits that does not fit 64 bits","integers of 20 digits are accumulated in 64 bits and wrap",
[("numjson/numjson.go","""	if 0 < j && j <= 18 {""","""	if 0 < j && j <= 20 {""")],prog('''	if f := numjson.ParseFloat("20000000000000000000"); f != 2e19 {
		fail(f)
	}''',('github.com/alxarch/njson/numjson',)))
bug("C14-bad","C14","a member whose number has no value, inside an object","a member that cannot be converted becomes nil instead of failing the conversion",
[("document.go","""		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
		if !ok {""","""		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
		if n := d.get(v.id); !ok && !n.info.IsNumber() {""")],prog('''	d := njson.Document{}
	n, _, _ := d.Parse(`{"a":1e999}`)
	if x, ok := n.ToInterface(); ok {
		fail(x)
	}'''))
