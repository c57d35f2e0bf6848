from b7 import GEN,gbug,gmain
CLI=GEN+'''cd "$T"
'''
A='internal/generator/append.go'; U='internal/generator/unmarshal.go'; G='internal/generator/generator.go'; O='internal/generator/options.go'; M='cmd/njson/njson.go'
gbug('C29-trunc','C29','an earlier output that is longer than the new one','The output file is opened without truncating it, so that the end of a longer earlier output stays in it.',
[(M,'''		f, err := os.Create(filename)
		defer f.Close()
		if err != nil {
			logger.Fatalf("Failed to open file %q for writing: %s", filename, err)
		}
		out = f
		// if t''','''		f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0666)
		defer f.Close()
		if err != nil {
			logger.Fatalf("Failed to open file %q for writing: %s", filename, err)
		}
		out = f
		// if t''')],'''
package main

type A struct{ X int }

type B struct{ Y string }
''',None,sh=CLI+'''"$T/njson" -p types -w main || exit 1
"$T/njson" -p types -w main A || exit 1
"$T/njson" -p types main A | grep -v 'Code generated' > want
grep -v 'Code generated' types/main_njson.go | cmp - want || exit 1
''')
gbug('C29-testname','C29','a package with _test in the middle of its name','The output for every package with _test in its name goes to a test file.',
[(G,'''	name = g.Name()
	if strings.HasSuffix(name, "_test") {
		name = strings.TrimSuffix(name, "_test")
''','''	name = g.Name()
	if strings.Contains(name, "_test") {
		name = strings.TrimSuffix(name, "_test")
''')],'''
package my_tests

type A struct{ X int }
''',None,sh=CLI+'''"$T/njson" -p types -w my_tests || exit 1
[ -f types/my_tests_njson.go ] || exit 1
''')
gbug('C29-match','C29','a name filter that matches only a part of the field names','The -match flag has to match the whole name of a field instead of a part of it.',
[(M,'''		rx, err := regexp.Compile(*matchFieldNames)
''','''		rx, err := regexp.Compile("^(?:" + *matchFieldNames + ")$")
''')],'''
package main

type A struct {
	Foo    int
	FooBar int
	Baz    int
}
''',None,sh=CLI+'''"$T/njson" -p types -match Foo main > out || exit 1
grep -q FooBar out || exit 1
grep -q Baz out && exit 1
exit 0
''')
gbug('C29-own','C29','a source file whose first comment mentions that something is generated by njson','Files whose first comment has the words generated by njson anywhere are taken for earlier output and left out.',
[(G,'''	return len(f.Comments) > 0 && strings.HasPrefix(f.Comments[0].Text(), "Code generated by njson")
''','''	return len(f.Comments) > 0 && strings.Contains(f.Comments[0].Text(), "generated by njson")
''')],'''
// Package main has types whose methods are generated by njson.
package main

type A struct{ X int }
''',None,sh=CLI+'''"$T/njson" -p types main > out || exit 1
grep -q AppendJSON out || exit 1
''')
