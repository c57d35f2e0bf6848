from common import *
bug('C04-leaf','C04','a document that was reset, a null created where a container was, and a Strip on it','Null keeps the member list of whatever was in its place before the reset; Strip follows it into unrelated values.',
[('document.go','''	n.reset(vNull|infRoot, strNull, n.values[:0])
''','''	n.reset(vNull|infRoot, strNull, n.values)
''')],prog('''	var d njson.Document
	if _, _, err := d.Parse(`[1,2]`); err != nil { fail(err) }
	d.Reset()
	x := d.Null()
	o := d.Object()
	o.Set("a", d.True())
	o.Set("b", d.False())
	x.Strip("a")
	if b, err := o.AppendJSON(nil); err != nil || string(b) != `{"a":true,"b":false}` { fail("an unrelated object became", string(b), err) }
'''))
bug('C20-emptyitem','C20','a tag with an empty item before omitempty','The list of tag options is cut at an empty item: what follows two commas in a row is ignored.',
[('unjson/options.go','''		if 0 <= i && i < len(tag) {
			hint = tag[:i]
			tag = tag[i:]
''','''		if 0 < i && i < len(tag) {
			hint = tag[:i]
			tag = tag[i:]
''')],'''
package main

import (
	"fmt"
	"os"

	"github.com/alxarch/njson/unjson"
)

func main() {
	b, err := unjson.Marshal(struct {
		A int    `json:"a,,omitempty"`
		B string `json:"b,omitempty,"`
		C int    `json:"c"`
	}{})
	if err != nil || string(b) != `{"c":0}` {
		fmt.Println(string(b), err)
		os.Exit(1)
	}
}
''')
