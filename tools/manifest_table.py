NA={}
c("C01","exhaustive enumeration of valid texts from a grammar model, replayed on the real parser","Every document within the stated sizes is parsed by the real code and compared node by node with an explicit-stack reference automaton; sizes beyond the families are extrapolated.")
c("C02","explicit-state exploration of a pushdown model of the grammar, every live prefix and every extension replayed on the real parser","Complete for all words up to the depth over the byte classes and tokens; error kind, offset, and earlier content of the document are compared.")
c("C03","exhaustive enumeration of value sequences and of every cut point, replayed against the pushdown model","All concatenations up to the bound and all cut points of all enumerated documents.")
c("C06","explicit-state exploration of edit histories on a tree model, every history replayed on real documents","All histories up to the depth over the operation alphabet and start states; sizes of payloads are fixed.")
c("C07","explicit-state exploration of insertion histories over several documents with an ownership model, replayed on real documents","All histories up to the depth; every tree in every document compared after every step.")
c("C09","exhaustive enumeration of input strings (all of length <=3, all code points, words over boundary bytes) against a reference codec","Longer inputs are covered by position sweeps only.")
c("C10","exhaustive enumeration of string bodies (words over escapes and fragments, all surrogate pairs) against a reference decoder","Longer inputs are covered by position sweeps only.")
c("C11","exhaustive enumeration of words of the number grammar and of exact halfway decimals for every binary exponent, replayed on the real parser","Mantissas at each exponent are boundary patterns; strconv and exact construction agree on the expected value.")
c("C12","exhaustive enumeration of number words and of integers around every power of 2 and 10 in all notations against exact arithmetic","Integers away from the enumerated boundaries are extrapolated.")
c("C13","exhaustive enumeration of floats (every exponent x boundary mantissas; thorough: every float32) against encoding/json and read-back","Doubles between the enumerated mantissas are extrapolated.")
c("C14","exhaustive enumeration of documents from a grammar model, converted by the real code and by the reference model (itself compared with encoding/json)","All documents within the stated sizes.")
c("C04","explicit-state exploration of use histories of one recycled document (parse, fail, edit, reset, pool), each history replayed and compared with fresh storage","All histories up to the depth over shapes that cover growing, shrinking and failing parses.")
c("C05","explicit-state exploration of lifecycle histories, every handle ever issued probed after every step against a liveness model","All histories up to the depth; the revision counter is driven through its enumerated distances, wrap-around at 2^32/2^64 is not reached.")
c("C08","exhaustive enumeration of document histories, every read operation compared with the model and with the state before it; all pairs of readers under the race detector","Any write by a reader is a race with the other reader in every schedule, so one schedule per pair decides; operations are those of the API.")
c("C15","exhaustive enumeration of documents x callbacks x fault points (writer failing at each byte, nested library calls) replayed on the real bridge","Depth of nesting and documents bounded as stated.")
c("C16","exhaustive enumeration of Go types (grammar to depth 3 plus a zoo of self-marshalling, recursive and named types) x boundary values, each encoded by the real code and by a reference encoder model that is itself compared with encoding/json","Types are enumerated to nesting depth 3 (sizes to 140/600); scalars take boundary values; acyclic values only.")
c("C17","exhaustive enumeration of Go types x JSON texts x entry points x initial targets, replayed against a reference decoder model that is itself compared with encoding/json","Types to nesting depth 3; texts are aimed at the type (every boundary token and kind at every place, cut and extended at every byte).")
c("C18","exhaustive enumeration of Go types x boundary values x option sets, each sent to JSON and back and to JSON again by the real code","Types to nesting depth 3; types whose own methods do not invert each other are left out.")
c("C19","exhaustive enumeration of struct types (own and embedded fields by value and pointer, three levels, tags) built by reflection plus declared ones, x nil patterns x objects over all member names, against a model of the field rule that is itself compared with encoding/json","Up to two embedded structs per level and three levels.")
c("C20","exhaustive enumeration of option sets x tag hints x field types x values against a model of the omission and encoding rules","Types in up to two containers; all 96 option combinations are met, number options and omission options in separate families.")
c("C21","stateless exploration of the real code under a controlled scheduler (synchronisation replaced by an overlay): all interleavings of small multi-threaded programs of codec requests, with the race detector on","Programs of up to 3 (thorough 4) threads; interleavings complete per program or up to the preemption bound the evidence counts; data races between synchronisation points are decided by the race detector.")
c("C22","stateless exploration of the real code under a controlled scheduler with every choice of pooled object explored: all interleavings of small programs of library calls that use the pools, with the race detector on","Programs of up to 3 threads; which pooled buffer or document a thread gets is a choice that is enumerated.")
c("C23","exhaustive enumeration of streams (token words, line sequences, line lengths around the buffer sizes) x divisions into reads x reader faults, replayed on the real decoder against a line model","Streams of up to 5 tokens or 3 lines, plus pairs of long lines.")
c("C24","exhaustive enumeration of histories of encodings x writer faults, replayed on the real encoder against a model of the lines","Histories of up to 3 (thorough 4) calls.")
c("C27","exhaustive enumeration of all 256 kind masks, of all ways to make a node x all wanted masks, and of decoding targets x values","Complete for masks; documents up to the stated number of tokens.")
c("C28","exhaustive enumeration of method behaviours x expectation kinds x option orders, each run inside a real test and compared with a verdict model","In the quick check at most three unusual choices at a time for the decoding helper.")

c("C25","exhaustive exploration of map iteration orders (every range over a map in the generator and its metadata library becomes a choice point) over an enumerated family of packages, all outputs compared","Per package all orders with a bounded number of steps off the sorted order (the evidence counts how many packages had all orders explored, and up to which bound the others); packages of up to 3 types and 6 fields.")
c("C26","exhaustive enumeration of type definitions and generator options: each generated for, compiled and run on enumerated values, documents and filled targets, against the reflective codec of a twin type","Types to nesting depth 3 and up to 3 fields of a kind; the reference codec is itself decided by C16 to C20.")
c("C29","exhaustive enumeration of packages x type patterns x methods x output modes x places and of flag settings: the command is run as a process on each and its output, status and directory compared with a model and with the library","The command is built from the working tree and run in a scratch directory with the packages it knows installed in a scratch GOPATH; quick runs a covering subset of the same space.")
