from common import *
bug('C05-rev16','C05','65536 resets of one document between taking and using a handle','The revision of a document has 16 bits and comes round, so that old handles are live again.',
[('document.go','''	rev   uint // document revision''','''	rev   uint16 // document revision'''),('node.go','''	rev uint
''','''	rev uint16
''')],prog('''	var d njson.Document
	n, _, err := d.Parse(`"secret"`)
	if err != nil { fail(err) }
	for i := 0; i < 70000; i++ {
		d.Reset()
		d.Parse("[1]")
		if n.Type() != njson.TypeInvalid { fail("a handle is live again after reset", i+1, n.Type()) }
	}
'''))
bug('C09-large','C09','a string whose first 4096 bytes need no escape and whose later ones do','A long string is taken as plain when nothing needs an escape in its first 4096 bytes.',
[('strjson/escape.go','''	for pos = i; i < uint(len(s)); i++ {
		c = s[i]
		e = toJSON(c)
		if e == utf8.RuneSelf {
			continue
		}
		if e == 0xff {
			r, size = utf8.DecodeRuneInString(s[i:])
			switch r {
			case utf8.RuneError, uLineSeparator, uParagraphSeparator:
				if size == 0 {
					continue
				}
				if 0 <= pos && pos < i {
					b.WriteString(''','''	for pos = i; i < uint(len(s)); i++ {
		if pos == 0 && i == 4096 {
			break // plain text
		}
		c = s[i]
		e = toJSON(c)
		if e == utf8.RuneSelf {
			continue
		}
		if e == 0xff {
			r, size = utf8.DecodeRuneInString(s[i:])
			switch r {
			case utf8.RuneError, uLineSeparator, uParagraphSeparator:
				if size == 0 {
					continue
				}
				if 0 <= pos && pos < i {
					b.WriteString(''')],prog('''	s := strings.Repeat("x", 5000) + "\\"\\n"
	e := strjson.Escaped(s, false, true)
	var got string
	if err := json.Unmarshal([]byte(e), &got); err != nil || got != s { fail("not read back:", err) }
''',('encoding/json','strings','github.com/alxarch/njson/strjson')))
bug('C21-evict','C21','more than 256 types in one cache','The encoders of a cache are thrown away when there are more than 256, so that types get another one than before.',
[('unjson/cache.go','''	c.encoders[typ] = enc
''','''	if len(c.encoders) > 256 {
		c.encoders = make(map[reflect.Type]Encoder)
	}
	c.encoders[typ] = enc
''')],prog('''	var c unjson.Cache
	first, err := c.Encoder(reflect.TypeOf(0))
	if err != nil { fail(err) }
	for i := 0; i < 400; i++ {
		if _, err := c.Encoder(reflect.ArrayOf(i, reflect.TypeOf(0))); err != nil { fail(err) }
	}
	if again, err := c.Encoder(reflect.TypeOf(0)); err != nil || again != first { fail("another encoder", err) }
''',('reflect','github.com/alxarch/njson/unjson')))
bug('C08-back','C08','a member name twice in an object with more than 32 members, the second one close to the end','Large objects are searched from both ends, so that of two members with one name the later may be found.',
[('node.go','''		for i := range nn.values {
			if key == nn.values[i].key {
				n.id = nn.values[i].id
				return n
			}
		}
	}
	n.id = maxUint
	return n
}

// Index gets''','''		for i, j := 0, len(nn.values)-1; i <= j; i++ {
			if key == nn.values[i].key {
				n.id = nn.values[i].id
				return n
			}
			if len(nn.values) <= 32 {
				continue
			}
			if key == nn.values[j].key {
				n.id = nn.values[j].id
				return n
			}
			j--
		}
	}
	n.id = maxUint
	return n
}

// Index gets''')],prog('''	var b strings.Builder
	for i := 0; i < 40; i++ {
		fmt.Fprintf(&b, `"k%d":%d,`, i, i)
	}
	var d njson.Document
	n, _, err := d.Parse("{" + b.String() + `"k10":"again","end":0}`)
	if err != nil { fail(err) }
	if a, b := n.Get("k10").Raw(), n.Lookup("k10").Raw(); a != b || a != "10" { fail("by key", a, "by path", b) }
''',('strings','github.com/alxarch/njson')))
