#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("C01","Parsing and re-serialising preserves every valid JSON text",
 "Every RFC 8259 JSON text parses without error into a tree with the same kinds, the same array order, and the same object members in the same order (duplicates included), with number, string and key text kept byte for byte. Serialising the root, or any node of the tree, gives exactly the text of that value with the whitespace between tokens removed.",
 ["inputs"],"All valid JSON texts: every nesting shape, whitespace placement, escape position, literal, number form, container size and nesting depth.",
 "The tests parse about a dozen fixed documents; the space of nestings, escapes next to quotes, whitespace positions and container sizes around the growth steps is not touched.",
 ["parser.go","bytemaps.go","document.go"],[("recursive descent over value/array/object","parser.go parseValue/parseArray/parseObject"),("closing-quote search with backslash look-behind","parser.go readString"),("doubling growth of nodes and member slices","parser.go node/appendV"),("serialiser","document.go appendJSON")],
 observe=["Document.Parse","Node.AppendJSON","Node.Values/Key/Raw/Type"])
p("C02","Malformed text is rejected, classified and located correctly",
 "For every byte string, parsing never panics and succeeds only if the text starts with a structurally well-formed value (balanced brackets, quoted keys, commas and colons in place, literals spelled exactly; the inside of strings and numbers is checked on conversion, not here). Otherwise it fails: as 'unexpected end' exactly when appending bytes could still complete the value, and as a syntax error carrying the offset of the first offending token (and the kind of value being read) in every other case. A failed parse leaves every value already in the document readable and unchanged.",
 ["inputs"],"All byte strings (all 256 byte values, all prefixes and all one-token corruptions of valid texts), on fresh and on already filled documents.",
 "Tests try a few broken texts and compare messages; they do not enumerate byte/position combinations nor check the document after the failure.",
 ["parser.go","error.go"],[("abort with position","parser.go abort"),("end-of-input detection","parser.go eof"),("nodes published only on success","parser.go Parse")],
 observe=["Document.Parse error type, Pos(), Type()"])
p("C03","Parsing consumes exactly one value and returns the exact rest",
 "A successful parse consumes one value and returns precisely the bytes after it, so a concatenation of values is read back value by value, each with the tree it has on its own. When a text ends too early the input is handed back unchanged, and parsing it again once the missing bytes are appended gives the same result as if they had been there from the start, for every place the text can be cut.",
 ["inputs","fault_sequences"],"All concatenations of values with all separators, and every split point of every text.",
 "One test checks a tail; no test cuts documents at every byte or chains values in one document.",
 ["parser.go"],[("tail slicing","parser.go Parse"),("position bookkeeping after each token","parser.go parseValue")],observe=["Document.Parse tail"])
p("C04","Reusing a document never shows in results",
 "The tree obtained by parsing or building in a document depends only on that input, never on what the document held before: after any history of successful and failed parses, insertions, edits, resets and trips through the pool it equals the one a brand-new document gives. Values obtained earlier from the same document since its last reset stay exactly as they were.",
 ["histories"],"All histories of parse / failed parse / build / edit / reset / pool operations over documents of all sizes relative to the retained storage.",
 "Reuse bugs need a particular earlier size or content; tests mostly use fresh documents.",
 ["document.go","parser.go"],[("storage kept across Reset","document.go Reset, node.reset"),("recycled member slices","parser.go parseArray/parseObject, document.go ncopy"),("pool","document.go Pool")],
 state=[("spare nodes","nodes beyond the live ones, with stale member slices","document.go Document.nodes")])
p("C05","Handles from before a reset are inert",
 "Once a document is reset or closed, every handle obtained earlier (and every handle that never referred to a value) behaves as 'no value': it has the invalid type, no text, no members and no document, conversions, lookups and serialisation report failure, decoding through it fails, and inserting it anywhere changes nothing. No operation through it reads or changes the values the document holds afterwards, however the document is refilled.",
 ["histories"],"All histories obtaining handles, resetting/closing, refilling, then applying every operation through every old handle.",
 "The tests check a couple of operations on one stale handle; the check has to be present in each of ~40 methods and hold after refills.",
 ["node.go","document.go"],[("revision comparison","node.go Node.get, Node.Document"),("revision bump","document.go Reset")])
p("C06","Editing a document behaves like editing a plain tree",
 "Any sequence of edits (set, append, replace, slice, remove, delete, strip a key, overwrite with a scalar) has exactly the effect it has on an ordinary tree of ordered arrays and objects: only the addressed value changes, out-of-range, wrong-kind or invalid-operand edits change nothing, and every later read and serialisation reflects it. Given finite numbers and properly escaped raw text, the document always serialises without error to valid JSON equal to that tree (deletion may move the last member into the gap).",
 ["histories"],"All edit histories up to a depth over all node kinds, positions and operands, starting from parsed and built documents.",
 "Unit tests do one or two edits on one document; interactions (slice then append, remove then set, append of several values while storage grows) are combinatorial.",
 ["node.go","document.go"],[("edits on member slices","node.go Set/Append/Slice/Replace/Remove/Strip/Del"),("in-place scalar overwrite","node.go Set*")])
p("C07","Inserted values never alias, loop or cross documents",
 "Inserting a value puts that value's current content at that place: a free-standing value of the same document is moved there (its handle keeps denoting it), while one that already sits somewhere, is a document's root, or belongs to another document is inserted as an independent copy, so later edits, resets or reuse of either side never show in the other. No sequence of insertions (a value into itself, into its descendants, into siblings, or the same value twice) can make a document endless, share one value between two places, or corrupt other values.",
 ["histories"],"All histories of insertions and edits over several values and two documents, with every node as source and as destination.",
 "Needs multi-step histories with particular ownership states; tests cover a single insertion.",
 ["document.go","node.go"],[("copy-or-adopt decision","document.go copyOrAdopt"),("orphan flag","types.go infRoot")])
p("C08","All read paths agree and reading is pure",
 "Access by key, by index, by path, by iterator, by generic conversion and by serialisation all describe the same tree, for every node of every document, including duplicate keys, empty keys, missing members and out-of-range positions. Reading never changes a document, so any number of goroutines may read one document at the same time without data races and get the same answers.",
 ["inputs","schedules"],"All documents up to a size, all paths up to a length, all pairs of concurrent read operations.",
 "Tests check single lookups; nothing runs readers concurrently or cross-checks the access paths.",
 ["node.go","document.go"],[("path lookup","document.go lookup"),("iterator","node.go IterV"),("accessors","node.go Get/Index")])
p("C09","String escaping is lossless, safe and consistent",
 "For every string, the escaped form is valid inside a JSON string literal (no raw quote, backslash, control character or line/paragraph separator, always valid UTF-8), and a standards-conforming JSON decoder reads it back as the original string with each invalid UTF-8 byte replaced by U+FFFD. With HTML escaping on, the output also contains no raw '<', '>' or '&'; the string-building and the buffer-appending form and the string constructors and setters of documents give the same bytes, and appending never disturbs what was in the buffer.",
 ["inputs"],"All byte strings: all single bytes, all code points, all invalid UTF-8 forms in all neighbourhoods; all buffer capacities.",
 "Tests use a few strings; per-byte and per-code-point tables cannot be sampled.",
 ["strjson/escape.go","strjson/bytemaps.go"],[("byte class table","strjson/bytemaps.go"),("run copying around escapes","strjson/escape.go")])
p("C10","String unescaping decodes every escape correctly",
 "For every valid JSON string body, unescaping gives the string a standards-conforming decoder gives: two-character escapes, \\u escapes in either hex case, surrogate pairs combined, unpaired surrogates replaced by U+FFFD without swallowing what follows. Malformed escapes are kept as they are, the result never is longer than the input, and the three forms (into a buffer, appending, to a string) agree and never write outside the space they were given.",
 ["inputs"],"All string bodies: all 65536 \\u escapes, all surrogate/escape neighbourhoods, all truncations, all buffer capacities.",
 "Tests decode a handful of strings.",
 ["strjson/unescape.go","strjson/bytemaps.go"],[("escape state machine, duplicated in two functions","strjson/unescape.go Unescape/Unescaped")])
p("C11","Number parsing returns the nearest float for every number",
 "For every JSON number, converting it to a float gives the correctly rounded IEEE-754 double (sign of zero included, infinity on overflow), the same value the standard library gives. Text that is not a number (empty, lone sign, stray or missing digits, several signs, trailing bytes) converts to NaN and is reported as not convertible.",
 ["inputs"],"All number texts: all digit counts, fraction and exponent forms, values near rounding boundaries, and all malformed texts.",
 "Rounding errors appear only for particular digit/exponent combinations; tests use a few values.",
 ["numjson/numjson.go","node.go"],[("fast path and fallback selection","numjson/numjson.go ParseFloat")])
p("C12","Integer conversion is exact or refused",
 "Converting a number to a signed or unsigned 64-bit integer yields exactly the mathematical value whenever the text denotes an integer in range (written plainly, with a zero fraction, or with an exponent), including values above 2^53 and both range limits, and is refused otherwise. Other values (strings that are not numbers, null, booleans, containers, missing values) are refused rather than converted.",
 ["inputs"],"All integer texts near powers of two and ten, range limits, and all equivalent notations.",
 "Only small integers are tested; precision is lost above 2^53.",
 ["numjson/numjson.go","node.go"],[("integer parsing","numjson/numjson.go ParseInt/ParseUint"),("node conversions","node.go ToInt/ToUint")])
p("C13","Formatted floats read back as the same number",
 "Every finite float is written as a valid JSON number, in the same notation the standard library's JSON encoder uses, that reads back as exactly the same double (or the same single-precision value when 32 bits were asked for). Appending never disturbs what was in the buffer, and numbers created or set in a document carry that text.",
 ["inputs"],"All exponents with boundary mantissas, both widths, both signs, all buffer states.",
 "Two or three values are tested.",
 ["numjson/format.go","document.go","node.go"],[("notation switch and exponent clean-up","numjson/format.go AppendFloat")])
p("C14","Generic conversion equals the standard library's",
 "Converting any valid JSON text to a generic Go value through the tree gives what the standard JSON decoder gives: same maps with decoded keys (last duplicate wins), slices, decoded strings, floats, booleans and nil. Values holding text that is not a number where a number is expected, or a number beyond the range of a double, are reported as not convertible instead of giving a wrong value.",
 ["inputs"],"All valid JSON texts up to a size, with escapes in keys and strings at every position.",
 "Tests convert one or two documents without escapes.",
 ["document.go","node.go"],[("recursive conversion","document.go toInterface*")])
p("C15","Bridges to standard unmarshalers and printing deliver exact bytes",
 "A value that unmarshals itself from JSON receives exactly the serialised bytes of the node (or nothing, with an error, for a missing value), and one that unmarshals itself from text receives exactly the decoded string, for string nodes only; their errors come back unchanged. Printing writes exactly the serialised bytes once, reports the writer's count and error, writes nothing when serialisation fails, and no internal buffer is visible to two users at once, whatever happens in the callbacks.",
 ["inputs","fault_sequences","schedules"],"All node kinds, callbacks that fail, nest, re-enter or panic, writers that fail or write short.",
 "No test nests or fails callbacks or writers.",
 ["node.go"],[("shared buffer pool","node.go bufferpool"),("empty-container shortcuts","node.go WrapUnmarshalJSON")])
p("C16","Marshalling produces what the standard encoder would",
 "For every supported Go value the encoder succeeds and its output is valid JSON denoting the same value the standard encoder's output denotes (nil slices are written as empty arrays, byte slices as arrays of numbers; object order may differ), numbers keeping full precision for their width, and appended after whatever the output buffer held. Nil pointers and nil interfaces anywhere become null, types that marshal themselves (as JSON, as appenders or as text, by value or by pointer) are used wherever the standard encoder would use them, unsupported values and failing marshalers give an error, and nothing panics.",
 ["inputs","programs"],"All Go types from a type grammar up to a depth, with boundary values for each.",
 "Tests marshal a few structs; kind x nesting x nil x marshaler combinations are untouched.",
 ["unjson/encode.go","unjson/unjson.go","unjson/codec.go"],[("per-kind encoders","unjson/encode.go newEncoder"),("top-level dispatch","unjson/encode.go newTypeEncoder")])
p("C17","Unmarshalling stores what the standard decoder would, or fails",
 "For every Go type and every JSON text, decoding either stores the value the standard decoder would store (null gives the zero value, nil or an empty slice, byte slices are arrays of numbers, a key must match a field name exactly, numbers with a zero fraction are accepted for integers) or returns an error. A kind mismatch, a number that does not fit the target, text that does not parse, trailing text, a failing custom unmarshaler or an unusable target is always reported, also deep inside slices, arrays, maps and pointers, and never panics; members without a matching field are ignored.",
 ["inputs","programs"],"All types from a type grammar crossed with all JSON texts up to a size, into zero and into already filled targets.",
 "Tests decode a few matching inputs; mismatches inside containers and width limits are not tried.",
 ["unjson/decode.go","unjson/codec.go","unjson/unjson.go"],[("per-kind decoders","unjson/decode.go newDecoder"),("struct decode","unjson/codec.go decode")])
p("C18","Encode then decode returns an equal value",
 "For every value of every supported type, decoding what was encoded gives an equal value (a nil slice comes back empty; a nil map or pointer comes back nil), for the default and for custom tags and options. Encoding the decoded value again gives the same JSON.",
 ["inputs","programs"],"All types from the grammar with boundary values, with every tag/option combination.",
 "Tests round-trip a handful of values without special characters in keys or extreme numbers.",
 ["unjson/encode.go","unjson/decode.go","unjson/codec.go"],[("matching encoder/decoder pairs","unjson/codec.go merge")])
p("C19","Struct fields map to members by one rule in both directions",
 "The member name of a field comes from its tag or its Go name, unexported and '-' fields are neither written nor read, fields of embedded structs (by value or pointer, at any depth) appear as members of the outer object, and of several fields with one name only the shallowest is used. Each member name is written at most once, reading and writing use the same fields, and decoding allocates embedded pointers it needs while encoding skips the fields of nil ones.",
 ["programs","inputs"],"All struct types with up to a few fields, tags and embedding levels, including recursive types.",
 "One or two embedding layouts are tested.",
 ["unjson/codec.go","unjson/options.go"],[("field collection","unjson/codec.go merge"),("field path walk","unjson/codec.go fieldByIndex, decode")])
p("C20","Omission and encoding options do exactly what they say",
 "A field is left out exactly when it is marked (or the options force it) to be omitted when empty and its value is empty: by its own emptiness method, of the configured name, when it has one, otherwise by the standard rules, an array being empty when all its elements are, a struct when all its members are omitted, and a pointer to a self-judging value also when nil. The custom tag, html, raw, NaN and infinity options affect exactly the values they cover, for every kind of value they are applied to, and leave all others as they are.",
 ["configurations","inputs"],"All option combinations crossed with all field kinds, hint combinations and empty/non-empty values.",
 "Two tests touch omitempty; options are barely exercised.",
 ["unjson/omit.go","unjson/options.go","unjson/codec.go","unjson/encode.go"],[("omiter selection","unjson/omit.go newOmiter"),("tag hints","unjson/options.go parseHints"),("cache key with hints","unjson/cache.go cacheKey")])
p("C21","Codec caches are correct under concurrency",
 "Any number of goroutines may marshal, unmarshal and ask one cache for encoders and decoders at the same time: there is no data race or deadlock, each request gets a codec that behaves as when asked alone, and once one has been handed out for a type every later request gets that same one. A type that cannot be handled fails for every caller, every time, without affecting other types.",
 ["schedules"],"All interleavings (up to a preemption bound) of a few goroutines requesting the same and different, plain and recursive types.",
 "No test uses a cache from two goroutines; the double-checked path needs a particular interleaving.",
 ["unjson/cache.go","unjson/codec.go"],[("read lock, build, re-check under write lock","unjson/cache.go Decoder/Encoder")],
 hook="none: the sync package is replaced through a build overlay")
p("C22","Pooled documents are never shared or dirty",
 "A document taken from a pool is empty and is held by nobody else, under any interleaving of goroutines that take, fill and return documents and whatever the pool keeps or drops; the package-level decoding functions, which borrow from it, give each caller exactly its own result and never keep or return a document twice. Handles left over from an earlier holder never see the next holder's data.",
 ["schedules","histories"],"All interleavings (up to a preemption bound) of take/fill/return, including every choice of which pooled object is handed out.",
 "No concurrent test exists; a doubly returned or unreset document shows only under a particular hand-out order.",
 ["document.go","unjson/unjson.go"],[("reset on return","document.go Pool.Put"),("borrow and return","unjson/unjson.go UnmarshalFromString")],
 hook="none: the sync package is replaced through a build overlay")
p("C23","The line decoder yields exactly the stream's values",
 "Reading a newline-delimited stream yields the values of its lines, one per call and in order, independent of how the reader splits the bytes and of line length, line ending style, or a missing final newline, then reports end of stream. A malformed line, a line with more than one value, a value that does not fit, or a reader error is reported by the call that meets it; memory for earlier lines is reused and a value decoded earlier never changes afterwards.",
 ["inputs","fault_sequences"],"All streams of a few lines crossed with all chunkings, line lengths around the internal buffer sizes, and reader faults at every point.",
 "No test covers the decoder beyond one example.",
 ["unjson/stream.go"],[("prefix assembly and parse","unjson/stream.go Decode")])
p("C24","The line encoder writes one intact line per value or nothing",
 "Each successful call writes the value's JSON followed by one newline as one write, so that the stream read back line by line gives the values in order; a value that cannot be encoded writes nothing and leaves the stream usable for the next value. A writer's error is returned by the call that met it and never causes earlier bytes to be written again or later lines to contain leftovers.",
 ["histories","fault_sequences"],"All sequences of a few encodable, unencodable and self-marshalling values crossed with all writer fault patterns.",
 "No test covers the encoder beyond one example.",
 ["unjson/stream.go"],[("buffer reuse","unjson/stream.go Encode")])
p("C25","Generated code is deterministic",
 "Running the code generator on the same package with the same settings always produces byte-identical output (but for the time stamp in the header comment), with fields handled in declaration order and imports in one fixed order, independent of the run. The order in which types are requested affects only the order of the generated methods.",
 ["programs","schedules"],"All iteration orders of every map the generator walks, over a family of packages.",
 "The generator test is itself excluded as flaky; map iteration order is random per run.",
 ["internal/generator/append.go","internal/generator/unmarshal.go","internal/generator/generator.go"],[("emission order of fields and imports","internal/generator/*.go")],
 hook="none: map ranges are rewritten through a build overlay")
p("C26","Generated methods compile and agree with the reflective codec",
 "For every supported type definition (structs with tagged, embedded and nested fields, pointers, slices, string-keyed maps, named types, types with their own marshal or unmarshal methods, recursive types) the generated append and unmarshal methods compile. The append method writes valid JSON with the same members, values and order as the reflective encoder, and fails where it fails; the unmarshal method stores what the reflective decoder stores and fails where it fails, for fresh and for already filled targets (JSON null at the top leaves the target as it is; nil and empty slices count as equal; durations are also read from texts, as time.ParseDuration reads them; `raw` strings are passed through unescaped). The tag key, case conversion, emptiness, name filter, only-tagged and method name options have the same documented effect on both methods; types that are not supported are refused with an error and nothing is written.",
 ["programs","inputs","configurations"],"All type definitions from a grammar of fields, tags and nesting, crossed with values and inputs.",
 "One generated file is tested with one value.",
 ["internal/generator/append.go","internal/generator/unmarshal.go","internal/generator/options.go","cmd/njson/njson.go"],[("code templates per kind","internal/generator/append.go, unmarshal.go")])
p("C27","Type masks and type errors describe exactly the value met",
 "A combination of value kinds lists exactly the kinds it contains and membership tests agree with that list for every combination. Every type error names the kind met and the kinds wanted, and every value reports exactly one kind.",
 ["inputs"],"All 256 kind masks and all (met, wanted) pairs.",
 "Tests check a few masks.",
 ["types.go","error.go"],[("bit decomposition","types.go Types"),("error text","error.go typeError")])
p("C28","The test helpers pass exactly when the behaviour is right",
 "The published test helpers succeed exactly when the method under test produces the expected JSON, value or error, and fail on every deviation: wrong bytes, wrong value, missing or unexpected or different error, missing method, or unparsable input. Every way of giving the expectation (JSON source, value, error value, text, pattern, function or flag) is honoured.",
 ["inputs","configurations"],"All combinations of expectation kind and method behaviour.",
 "The helpers have no tests of their own; a helper that always passes would go unnoticed.",
 ["njsontest/t.go","njsontest/option.go"],[("comparison","njsontest/t.go"),("error matching","njsontest/option.go Error")])
p("C29","The command generates what its arguments and flags ask for, and nothing else",
 "For every package directory, list of type names and patterns, and setting of its flags the command generates exactly the requested methods (append, unmarshal, or both when neither or both are asked for) of exactly the structs that match any of the given names or patterns (all when none are given), with the output that the equivalent library options give. The formatted source goes to standard output or, with -w, to the one file named after the package (in the place of test files for test packages), leaving every other file alone, and a second run with its own output in place gives the same output. A command line that cannot be carried out (bad pattern or flag, no such package, no matching type, sources that do not parse, types that are not supported) ends with a message, a non-zero status, no output and no changed file.",
 ["programs","configurations"],"All combinations of packages, type patterns, method choices, output modes, places and flag settings from enumerated lists.",
 "The command has no tests.",
 ["cmd/njson/njson.go","internal/generator/generator.go","internal/generator/options.go"],[("flags to options, type filter, output","cmd/njson/njson.go main"),("struct list, file name, printing","internal/generator/generator.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    assert n<=3,(x['id'],n)
print(len(P))
