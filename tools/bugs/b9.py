from common import *
bug('C12-plus','C12','a string whose text is an integer with a plus sign','ToInt takes a short cut for short texts that accepts a plus sign, so that texts that are not JSON numbers convert.',
[('node.go','''		return numjson.ParseInt(n.raw)
''','''		if len(n.raw) < 10 {
			if i, err := strconv.Atoi(n.raw); err == nil {
				return int64(i), true
			}
		}
		return numjson.ParseInt(n.raw)
''')],prog('''	d := njson.Blank()
	n, _, err := d.Parse(`["+5","5",-7]`)
	if err != nil { fail(err) }
	if i, ok := n.Index(2).ToInt(); !ok || i != -7 { fail("-7", i, ok) }
	if i, ok := n.Index(1).ToInt(); ok && i != 5 { fail("5", i, ok) }
	if i, ok := n.Index(0).ToInt(); ok { fail("a text that is not a number converts to", i) }
'''))
bug('C12-setuint','C12','an unsigned integer above the largest int64','SetUint writes integers from 2^63 on in scientific notation with the digits of a float64, so that they do not read back exactly.',
[('node.go','''		n.reset(vNumber|n.info.Flags(), strconv.FormatUint(u, 10), n.values[:0])
''','''		s := strconv.FormatInt(int64(u), 10)
		if int64(u) < 0 {
			s = numjson.FormatFloat(float64(u), 64)
		}
		n.reset(vNumber|n.info.Flags(), s, n.values[:0])
''')],prog('''	d := njson.Blank()
	n := d.Null()
	for _, u := range []uint64{0, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<63 + 1} {
		n.SetUint(u)
		if v, ok := n.ToUint(); !ok || v != u { fail(u, "reads back as", v, ok) }
	}
'''))
