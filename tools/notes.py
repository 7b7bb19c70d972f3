# Hand-written notes for DESIGN.md: what each check compares with, and what it deliberately does not judge.
ORACLE = {
"C01": "A sequential reference model: a map from path to name with the rules of the property, stepped in lock step with the real import set. After every operation the answers, all lookups and the printed block are compared; histories are deduplicated by the state of the model only for counting, never for pruning.",
"C02": "Linearizability by brute force: every order of the same calls that respects real time is run on the real code sequentially; the concurrent history's answers and final contents must equal one of them. Every schedule also runs under the race detector (the scheduler's hand-offs carry no happens-before edge the detector can see, because they go through a pipe outside its knowledge).",
"C03": "`csvref`-style reference decoder in the check: columns looked up by name in a list, cells decoded by `numref` and by hand-written decoders of the own cell types.",
"C04": "A reference reader over the same scripted record source, which says for every event what value or which error (file, row, column number and name) is due.",
"C05": "As C02. The process-wide registries are reset between executions through bridge functions laid into the packages by overlay, so that first use is raced in every execution.",
"C06": "A reference registry (map of type to generation) and, for each lookup, the behaviour of the coder found: it is identified by what it encodes and decodes, not by its address.",
"C07": "`numref`: a big-number parser written from the documented grammar of each type, shares nothing with strconv.",
"C08": "`numref` and `timeref`: own calendar arithmetic, own layout matcher, own zone rules for the zones in the list.",
"C09": "The generated file is parsed by jhump/protoreflect's parser and compared with the mapping field by field; comments are compared as word sequences.",
"C10": "`convrun`: a reference converter working on dynamic messages. The converters under test are generated by the current generator, compiled in the scratch directory and run in bulk.",
"C11": "A reference that decides for each type whether all values of the column have it, by `numref`/`timeref`, and takes the first type of the documented order.",
"C12": "Independent parse of both .proto files, comparison with the mapping; the end-to-end part runs the compiled converter on the very examples and compares with the typed values `numref`/`timeref` read from the cells.",
"C13": "The library called directly for the same example, and a scripted file reader that records what was asked of it.",
"C14": "A reference that says which files are to be written with which contents in which order, given which of them fails; recorded calls are compared, and in the part with real directories the directory's contents.",
"C15": "A reference parser written from the documented path grammar and a structural comparison of the message.",
"C16": "A value tree built beside the message, in which the reference walks.",
"C17": "A reference reader written from the documentation and the tests of the form reader (comments, strings with escapes, numbers, symbols), with positions counted in runes and bytes.",
"C18": "A reference file set: a list of files with base, size and line offsets; every query is answered by linear search.",
"C19": "As C02.",
"C20": "RFC 3986 section 5.2 as pseudo-code, written out in `iriref`.",
"C21": "`iriref`: a recursive recognizer of the RFC 3987 grammar, by hand, without regular expressions.",
"C22": "`ntref`: an N-Triples reader and writer by hand from the W3C grammar.",
"C23": "`ntref`.",
"C24": "`rdfref`: a translator from XML trees (encoding/xml tokens) to triples, written from the productions of the RDF/XML recommendation, and graph isomorphism by refinement and search.",
"C25": "`rdfref`.",
"C26": "`rdfref` on what is left after the cut or edit; an error is due exactly if it refuses.",
"C27": "A model built from the trees in memory (never from text): for each path of names the attributes, children, counts and values; types decided by `numref`.",
"C28": "A reference that appends to a log the calls it would make; both logs and the wrapped first error are compared.",
"C29": "Element types by name, elements by proto.Equal or ==.",
"C30": "net/http's file server over an in-memory file system of exactly the six files, asked the same request.",
"C31": "The service in memory with scripted file functions, asked for the same request.",
"C32": "A model of the page's boxes that asks the service in memory, with the documented defaults filled in by hand.",
"C33": "A reference that finds the import path among the elements of a runfile's path, and the files below the scratch directory before the run.",
"C34": "The release procedure written down as a list of commands, cut at the failing one; additions and copies count as sets. The stand-ins are the check's own binary under other names; nothing else is on the program's PATH, so that a wrong command can do no harm.",
"C35": "The entries the manifest was made from, and the documents; the generated file is parsed and type-checked with go/types, so that any way to write the same constants is accepted. The repository's own list is compared with a second, token-by-token reading of the manifest.",
}
TIMES = {
 "C01": "quick about 5 s.",
 "C02": "quick about 19 s.",
 "C03": "quick about 33 s.",
 "C04": "quick about 10 s.",
 "C05": "quick about 9 s.",
 "C06": "quick about 25 s.",
 "C07": "quick about 12 s.",
 "C08": "quick about 13 s.",
 "C09": "quick about 14 s.",
 "C10": "quick about 25 s.",
 "C11": "quick about 12 s.",
 "C12": "quick about 24 s.",
 "C13": "quick about 39 s.",
 "C14": "quick about 27 s.",
 "C15": "quick about 15 s.",
 "C16": "quick about 34 s.",
 "C17": "quick about 46 s.",
 "C18": "quick about 11 s.",
 "C19": "quick about 15 s.",
 "C20": "quick about 22 s.",
 "C21": "quick about 33 s.",
 "C22": "quick about 31 s.",
 "C23": "quick about 48 s.",
 "C24": "quick about 22 s.",
 "C25": "quick about 40 s.",
 "C26": "quick about 11 s.",
 "C27": "quick about 20 s.",
 "C28": "quick about 9 s.",
 "C29": "quick about 54 s.",
 "C30": "quick about 9 s.",
 "C31": "quick about 12 s.",
 "C32": "quick about 30 s.",
 "C33": "quick about 9 s.",
 "C34": "quick about 16 s.",
 "C35": "quick about 22 s."
}
