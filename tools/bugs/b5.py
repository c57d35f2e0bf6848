exec(open('/verif/tools/bugs/common.py').read())
U=('github.com/alxarch/njson/unjson',)
R=('reflect','sync','github.com/alxarch/njson/unjson')
CONC=r'''
	for round := 0; round < 4000; round++ {
		typ := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("F%d", round), Type: reflect.TypeOf(0)}, {Name: "X", Type: reflect.TypeOf([]map[string][]string{})}})
		var c unjson.Cache
		const N = 8
		var got [N+1]interface{}
		var wg sync.WaitGroup
		start := make(chan int)
		for i := 0; i < N; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); <-start; got[i], _ = c.%s }(i)
		}
		close(start)
		wg.Wait()
		got[N], _ = c.%s
		for i := range got {
			if got[i] != got[N] {
				fail("a request got another codec than the others")
			}
		}
	}'''
bug("C21-lastwins","C21","two goroutines asking for the first time for the encoder of one type, one being suspended between building and storing","the encoder stored last replaces the one already handed out to another goroutine",
[("unjson/cache.go",r'''	c.mu.Lock()
	if e := c.encoders[typ]; e != nil {
		c.mu.Unlock()
		return e, nil
	}
	if c.encoders == nil {
		c.encoders = make(map[reflect.Type]Encoder)
	}
''',r'''	c.mu.Lock()
	if c.encoders == nil {
		c.encoders = make(map[reflect.Type]Encoder)
	}
''')],prog(CONC.replace('%s','Encoder(typ)'),R))
bug("C21-lazy","C21","two goroutines whose requests for different types are the first ones of a cache","the decoder table is created before the lock is taken, so a goroutine can replace the table that already holds another's decoder",
[("unjson/cache.go",r'''	c.mu.Lock()
	if d := c.decoders[typ]; d != nil {
		c.mu.Unlock()
		return d, nil
	}
	if c.decoders == nil {
		c.decoders = make(map[reflect.Type]Decoder)
	}
	c.decoders[typ] = dec
	c.mu.Unlock()
''',r'''	decoders := c.decoders
	if decoders == nil {
		decoders = make(map[reflect.Type]Decoder)
	}
	c.mu.Lock()
	if d := decoders[typ]; d != nil {
		c.mu.Unlock()
		return d, nil
	}
	decoders[typ] = dec
	c.decoders = decoders
	c.mu.Unlock()
''')],prog(CONC.replace('%s','Decoder(reflect.PtrTo(typ))').replace('got[i], _ = c.','if i > 3 { c.Decoder(reflect.PtrTo(reflect.SliceOf(typ))) }; got[i], _ = c.'),R),race=True)
bug("C21-hold","C21","a goroutine that asks for the decoder of a type that cannot be decoded, then any request that has to store a codec","an error while building a decoder leaves the cache locked",
[("unjson/cache.go",r'''	dec, err = NewTypeDecoder(typ, c.Tag)
	if err != nil {
		return nil, err
	}
	c.mu.Lock()
	if d := c.decoders[typ]; d != nil {
		c.mu.Unlock()
		return d, nil
	}
''',r'''	c.mu.Lock()
	if d := c.decoders[typ]; d != nil {
		c.mu.Unlock()
		return d, nil
	}
	dec, err = NewTypeDecoder(typ, c.Tag)
	if err != nil {
		if typ.Kind() != reflect.Ptr || typ.Elem().Kind() != reflect.Slice {
			c.mu.Unlock()
		}
		return nil, err
	}
''')],prog(r'''	type bad []chan int
	done := make(chan int)
	go func() {
		var c unjson.Cache
		c.Decoder(reflect.TypeOf(&bad{}))
		c.Decoder(reflect.TypeOf(new(int)))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("locked")
	}''',('reflect','time')+U))
bug("C22-putfirst","C22","two goroutines that print at the same time, one being suspended before it writes","the buffer is returned to the pool before its bytes are written, so the other goroutine's output can take their place",
[("node.go",r'''	if b, err = a.AppendJSON(b[:0]); err == nil {
		n, err = w.Write(b)
	}
	bufferpool.Put(b)
	return
''',r'''	b, err = a.AppendJSON(b[:0])
	bufferpool.Put(b)
	if err == nil {
		n, err = w.Write(b)
	}
	return
''')],prog(r'''	var d njson.Document
	n, _, _ := d.Parse(`["outer"]`)
	m, _, _ := d.Parse(`["inner, and longer"]`)
	for i := 0; i < 200; i++ {
		var got string
		n.PrintJSON(writer(func(b []byte) {
			m.PrintJSON(writer(func(b []byte) {}))
			got = string(b)
		}))
		if got != `["outer"]` {
			fail(got)
		}
	}
}

type writer func(b []byte)

func (w writer) Write(b []byte) (int, error) {
	w(b)
	return len(b), nil'''))
bug("C22-twice","C22","a call of Unmarshal with malformed text, then two users of documents at the same time","the borrowed document is returned twice when the text does not parse, so that two later users get the same one",
[("unjson/unjson.go",r'''	p := njson.Blank()
''',r'''	p := njson.Blank()
	defer func() {
		if n := p.Node(0); n.Type() == njson.TypeInvalid && err != nil {
			p.Close()
		}
	}()
''')],prog(r'''	for i := 0; i < 100; i++ {
		var x interface{}
		unjson.Unmarshal([]byte("{\"a\":"), &x)
		unjson.Unmarshal([]byte(""), &x)
		a, b, c := njson.Blank(), njson.Blank(), njson.Blank()
		if a == b || b == c || a == c {
			fail("one document for two users")
		}
	}''',('github.com/alxarch/njson',)+U))
bug("C22-dirty","C22","a document that is returned to a pool of its own after it has grown beyond 64 nodes","a large document is not reset when it is returned and the next holder finds the earlier contents",
[("document.go",r'''	d.Reset()
	pool.docs.Put(d)
''',r'''	if cap(d.nodes) > minNumNodes {
		// large documents get a new start
		d.nodes = d.nodes[:len(d.nodes):len(d.nodes)]
	} else {
		d.Reset()
	}
	pool.docs.Put(d)
''')],prog(r'''	for i := 0; i < 100; i++ {
		d := njson.Blank()
		n, _, _ := d.Parse("[" + strings.Repeat("1,", 100) + "1]")
		d.Close()
		d = njson.Blank()
		if d.Node(1).Type() != njson.TypeInvalid || n.Type() != njson.TypeInvalid {
			fail("old contents")
		}
	}''',('strings','github.com/alxarch/njson')))
