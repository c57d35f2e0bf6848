"""Rewrites planted bugs whose patch only adds lines so that they change lines of the original repository.
Run after b1.py ... b11.py."""
import subprocess,shutil,os,json
E={
'C09-large':('strjson/escape.go',[('''	for pos = i; i < uint(len(s)); i++ {
		c = s[i]
''','''	for pos = i; i < uint(len(s)) && (pos != 0 || i != 4096); i++ {
		c = s[i]
''')]),
'C12-plus':('node.go',[('''func (n Node) ToInt() (int64, bool) {
	if n := n.get(); n != nil {
		return numjson.ParseInt(n.raw)
	}
	return 0, false
}''','''func (n Node) ToInt() (int64, bool) {
	if n := n.get(); n == nil {
		return 0, false
	} else if i, err := strconv.Atoi(n.raw); err == nil && len(n.raw) < 10 {
		return int64(i), true
	} else {
		return numjson.ParseInt(n.raw)
	}
}''')]),
'C19-dash':('unjson/options.go',[('''			name = name[:i]
''','''			if name = name[:i]; name == "-" {
				name = ""
			}
''')]),
'C21-evict':('unjson/cache.go',[('''	if c.encoders == nil {
''','''	if c.encoders == nil || len(c.encoders) > 256 {
''')]),
'C22-twice':('unjson/unjson.go',[('''	n, tail, err := p.Parse(s)
	if err == nil {
		if strings.Trim(tail, " \\t\\r\\n") == "" {
			err = d.Decode(x, n)
''','''	n, tail, err := p.Parse(s)
	if err != nil {
		p.Close()
	} else {
		if strings.Trim(tail, " \\t\\r\\n") == "" {
			err = d.Decode(x, n)
''')]),
'C24-partial':('unjson/stream.go',[('''	if err != nil {
		return
	}
	e.buffer = append''','''	if n := len(e.buffer); err != nil {
		if n >= 1024 {
			// Keep the large buffer for the values to come
			_, _ = e.w.Write(append(e.buffer, '\\n'))
		}
		return
	}
	e.buffer = append''')]),
'C24-split':('unjson/stream.go',[('''	e.buffer = append(e.buffer, '\\n')
	_, err = e.w.Write(e.buffer)
	return
''','''	if len(e.buffer) < cap(e.buffer) || len(e.buffer) == 0 {
		e.buffer = append(e.buffer, '\\n')
		_, err = e.w.Write(e.buffer)
	} else if _, err = e.w.Write(e.buffer); err == nil {
		// Avoid growing the buffer for a single byte
		_, err = e.w.Write([]byte{'\\n'})
	}
	return
''')]),
'C26-path':('internal/generator/unmarshal.go',[('''			if p, ok := t.(*types.Pointer); ok {
				r := g.Code("r%s", path[:i+1])
''','''			if p, ok := t.(*types.Pointer); ok && len(code.Code) == 0 {
				r := g.Code("r%s", path[:i+1])
''')]),
'C27-many':('types.go',[('''		if t&tt != 0 {
			types = append(types, tt)
''','''		// Long masks are runs of types
		n, low := bits.OnesCount(uint(t)), bits.TrailingZeros(uint(t))
		if n > 3 && low <= int(i) && int(i) < low+n || n <= 3 && t&tt != 0 {
			types = append(types, tt)
''')]),
}
W='/tmp/origwork'
for b,(f,ed) in E.items():
    shutil.rmtree(W,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',W])
    s=open(f'{W}/{f}').read()
    for o,n in ed:
        assert s.count(o)==1 or b=='C09-large',(b,s.count(o)); s=s.replace(o,n,1)
    open(f'{W}/{f}','w').write(s)
    d=subprocess.check_output(['git','-C',W,'diff'],text=True)
    open(f'/verif/seeded/{b}/patch.diff','w').write(d)
shutil.rmtree(W,ignore_errors=True)
