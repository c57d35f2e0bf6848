import sys; sys.path.insert(0,'/verif/tools')
from mkbug import bug
bug("C01-keyquote","C01","an object key whose closing quote follows an escaped backslash","the key scanner looks only one byte back for an escape",
[("parser.go","""			case delimEscape:
				i++
			}
		}
		// end of input reached""","""			case delimEscape:
				// skip every escaped character up to the next one that matters
				for i++; i+1 < uint(len(key)) && key[i] == delimEscape; i++ {
				}
			}
		}
		// end of input reached""")],'''
package main

import (
	"fmt"
	"os"

	"github.com/alxarch/njson"
)

func main() {
	d := njson.Document{}
	s := `{"a\\\\\\\\":{"b":1},"c":2}`
	n, _, err := d.Parse(s)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	b, _ := n.AppendJSON(nil)
	if string(b) != s {
		fmt.Println(string(b))
		os.Exit(1)
	}
}
''')
bug("C02-publish","C02","a document that holds a value, then a parse that fails after creating nodes, then reading by id or building","a failed parse leaves its partial nodes in the document",
[("parser.go","""	pos := p.parseValue(s, 0)
	switch p.err.(type) {
	case nil:
		d.nodes = p.nodes[:p.n]
""","""	pos := p.parseValue(s, 0)
	if len(d.nodes) == 0 || p.err == nil {
		// keep the storage we grew
		d.nodes = p.nodes[:p.n]
	}
	switch p.err.(type) {
	case nil:
""")],'''
package main

import (
	"fmt"
	"os"

	"github.com/alxarch/njson"
)

func main() {
	d := njson.Document{}
	_, _, err := d.Parse(`[1,2,x]`)
	if err == nil {
		os.Exit(1)
	}
	// the document still holds nothing: the next value is its root
	n, _, _ := d.Parse(`{"a":1}`)
	b, err := d.AppendJSON(nil)
	if err != nil || string(b) != `{"a":1}` || n.ID() != 0 {
		fmt.Println(string(b), err, n.ID())
		os.Exit(1)
	}
}
''')
bug("C02-errpos","C02","a syntax error after the comma of a nested object that follows whitespace","error offset is reported without the skipped whitespace",
[("parser.go","""			// Skip space after ','
			for pos++; pos < uint(len(s)); pos++ {
				c = s[pos]
				if c == delimString {
					goto readKey
				}
				if bytemapIsSpace[c] == 0 {
					return p.abort(pos, TypeObject, c, delimString)
				}
			}
			return p.eof(TypeObject, pos)""","""			// Skip space after ','
			i = pos + 1
			for pos++; pos < uint(len(s)); pos++ {
				c = s[pos]
				if c == delimString {
					goto readKey
				}
				if bytemapIsSpace[c] == 0 {
					return p.abort(i, TypeObject, c, delimString)
				}
			}
			return p.eof(TypeObject, pos)""")],'''
package main

import (
	"fmt"
	"os"

	"github.com/alxarch/njson"
)

func main() {
	d := njson.Document{}
	_, _, err := d.Parse(`{"a":1,  x}`)
	e, ok := err.(*njson.ParseError)
	if !ok || e.Pos() != 9 {
		fmt.Println(err)
		os.Exit(1)
	}
}
''')
bug("C03-tail","C03","a value followed by whitespace and then another value","whitespace skipped after the root is dropped from the rest, and a rest of one byte disappears",
[("parser.go","""		if pos < uint(len(s)) {
			return Node{id, d.rev, d}, s[pos:], nil
		}""","""		if pos+1 < uint(len(s)) {
			return Node{id, d.rev, d}, s[pos:], nil
		}""")],'''
package main

import (
	"fmt"
	"os"

	"github.com/alxarch/njson"
)

func main() {
	d := njson.Document{}
	_, tail, err := d.Parse(`[1]2`)
	if err != nil || tail != "2" {
		fmt.Printf("%q %v\\n", tail, err)
		os.Exit(1)
	}
}
''')
bug("C03-eofkey","C03","a text cut inside an object key or right after it","input handed back after a cut inside an object key is not the whole input",
[("parser.go","""	case UnexpectedEOF:
		// Return input as is. Caller can append more data and re-parse.
		return Node{}, s, p.err""","""	case UnexpectedEOF:
		// Return input as is. Caller can append more data and re-parse.
		return Node{}, strings.TrimLeft(s, " \\t\\r\\n"), p.err""")],'''
package main

import (
	"fmt"
	"os"

	"github.com/alxarch/njson"
)

func main() {
	d := njson.Document{}
	s := "\\n {\\"ab"
	_, tail, err := d.Parse(s)
	if _, ok := err.(njson.UnexpectedEOF); !ok || tail != s {
		fmt.Printf("%q %v\\n", tail, err)
		os.Exit(1)
	}
}
''')
