# The properties and their checks. tools/gen.py turns this into properties.jsonl and MANIFEST.json.
ALL = []


def P(id, title, statement, over, text, why, files, mechanism, observe, technique=None, level=None, note=None, na=None):
    ALL.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None},
        "check": None if technique is None else {"technique": technique, "level": level, "level_note": note},
        "na": na,
    })


P("C01", "Import registration gives stable, unique, usable package names",
  "Across any history of registrations in one set of imports, registering a path again without an alias returns the import handed out before, every import can be found by its path and by its name, and no two paths ever share a name (other than the blank one). A request for a name that belongs to another path is refused and leaves the set unchanged. The name of a plain import is a usable Go identifier: the assumed package name of its path (for x_go_proto: xpb), made unique by the first free number from 2 if it is taken; and each import prints as the Go import spec of its path, with its name exactly if that differs from the assumed one or was asked for.",
  ["histories", "inputs"], "every sequence of plain and aliased registrations over colliding import paths and names, with default and custom assumed names; every path of up to three elements over a list",
  "The tests run a handful of fixed registrations; collisions arise only from particular orders of registrations of paths that share a last element, carry version suffixes or ask for a taken alias.",
  ["codegen/codegen_imports.go"],
  [("alias generation until unused", "codegen/codegen_imports.go: Register, RegisterAliased, suggestAliases"), ("assumed names", "codegen/codegen_imports.go: GoToolsAssumedPackageName"), ("lookup", "codegen/codegen_imports.go: FindByImportPath, FindByPackageName")],
  ["return values of Register, RegisterAliased, FindByImportPath, FindByPackageName and GoFragment"],
  "explicit enumeration of every operation history up to a depth on the real code, in lock step with a sequential reference model", "model_checking",
  "Exhaustive for histories of up to 4 (quick) or 5 (thorough) operations over 4 to 6 paths and up to 4 aliases per configuration, and for up to 4990 names taken (the code gives up after 5000). Aliases that are no identifiers are the caller's business; path elements like v-1 are not specified.")

P("C02", "Concurrent use of one import set behaves as some sequential order",
  "When several goroutines register and look up imports on the same set at once, no data race occurs and every call returns what it would return in some one-at-a-time order of the same calls consistent with real time. In particular no two paths end up with the same local name (other than the blank one), one path never gets two imports from plain registrations, and no registration is lost.",
  ["schedules"], "every interleaving of 2-3 goroutines registering and finding colliding paths, up to a preemption bound",
  "No test uses an import set from more than one goroutine; a check-then-act window needs a switch between two particular statements.",
  ["codegen/codegen_imports.go"],
  [("mutex over registration", "codegen/codegen_imports.go: Imports.registering"), ("read/write lock over the maps", "codegen/codegen_imports.go: Imports.lock")],
  ["return values and final contents of an import set under a controlled scheduler"],
  "stateless model checking of the real code under a controlled scheduler (preemption-bounded, all schedules) with a linearizability oracle and the race detector on every schedule", "model_checking",
  "All schedules at statement granularity of the listed harnesses with up to 2 preemptions; the oracle is the real code run sequentially. Trusts the race detector for interleavings inside a statement.")

P("C03", "CSV rows decode into exactly the values under their header's columns",
  "For every header that names each required column once, in any order and with any extra columns, each row decodes to a value whose fields are exactly the decodings of the cells under the columns bound to them; fields not bound to a column stay zero and extra columns have no effect; a cell's decoder is told the row, with its number, header and values, that the cell belongs to. A header lacking a required column is refused with an error naming it. Reading rows one by one, reading all at once and parsing a single row give the same values in file order.",
  ["inputs", "programs"], "every header up to a length over a column alphabet, every row over a cell alphabet, for row types of each shape (tagged, untagged, skipped, reordered, shared columns, own cell types)",
  "The tests use one or two headers in the struct's own order; wrong column-to-field binding shows only for particular permutations, extra columns or tags.",
  ["csvcoder/csvcoder_file.go", "csvcoder/csvcoder_row.go", "csvcoder/csvcoder_cell.go"],
  [("column index by header name", "csvcoder/csvcoder_file.go: NewFileParser"), ("struct tag to column mapping", "csvcoder/csvcoder_row.go: parseRowStruct")],
  ["FileParser.Read, FileParser.ReadAll, ParseRow"],
  "exhaustive enumeration of headers and rows up to bounds, run on the real decoder and compared with an independent reference decoder", "model_checking",
  "Exhaustive over headers of up to 4 (quick) or 5 columns from an alphabet of 8 names and cells from an alphabet of 12 values, 9 row types. Values outside the alphabet are left to C07.")

P("C04", "CSV decode errors name the right place and leave other rows intact",
  "A row that fails to decode, or that the record source fails to deliver, yields an error that starts with the file name and the row's number and shows the text of a bad cell or the name of a column without one; every other row before and after still decodes to its own value and keeps its own number. Reading everything at once delivers exactly the rows before the first error, stops at the first error the callback returns and passes that error on, and reaching the end of the input is not an error.",
  ["fault_sequences", "inputs"], "every sequence of good rows, bad cells, short and long rows and source errors up to a bound, under every failing position of the callback",
  "The tests decode one bad cell; wrong numbering and poisoned state need a fault at a particular position followed by further rows.",
  ["csvcoder/csvcoder_file.go", "csvcoder/csvcoder_positions.go", "csvcoder/csvcoder_row.go"],
  [("row counting", "csvcoder/csvcoder_file.go: Read"), ("position of the failing cell", "csvcoder/csvcoder_positions.go")],
  ["errors and values returned by Read, ReadAll and their callback"],
  "exhaustive fault enumeration: every event sequence of a scripted record source up to a length, every failing callback position, against a reference reader", "fault_enumeration",
  "Exhaustive up to the sequence length reported in the evidence; faults are those of the scripted source, not of the operating system.")

P("C05", "Concurrent CSV decoding behaves as some sequential order",
  "Any number of goroutines may parse cells and rows, register row types and open file parsers at once, including on first use of a row type: there is no data race, no deadlock, and every call returns what it would in some one-at-a-time order of the same calls.",
  ["schedules"], "every interleaving of 2-3 goroutines on shared row types, fresh and warmed up, up to a preemption bound",
  "No test decodes from two goroutines; races in lazily built process-wide registries need first uses to overlap.",
  ["csvcoder/csvcoder_row.go", "csvcoder/csvcoder_cell.go", "textcoder/textcoder.go"],
  [("process-wide registries behind locks", "csvcoder/csvcoder_row.go, csvcoder/csvcoder_cell.go, textcoder/textcoder.go")],
  ["results of ParseCell, ParseRow, SafeRegisterRowStruct and NewFileParser under a controlled scheduler"],
  "stateless model checking of the real code under a controlled scheduler (preemption-bounded, all schedules) with a linearizability oracle and the race detector on every schedule", "model_checking",
  "All schedules at statement granularity of the listed harnesses within the preemption bound in the evidence. Explicit coder registration is assumed to happen before the concurrent part, as documented.")

P("C06", "Text coder lookup follows the documented precedence for every type",
  "For every type and every history of registrations, the encoder and decoder found for a type are the ones explicitly registered for it, else the type's own text methods, else those registered for its underlying basic type, and otherwise none is found and use gives an error; a refused registration leaves the registry unchanged, a later registration replaces an earlier one, and a lookup never depends on which other lookups came before. Marshal and unmarshal through a registry call exactly that coder, pass it the caller's context, and report its error; contexts carrying values are never altered by deriving new ones.",
  ["histories", "programs"], "every history of registrations and refused registrations up to a depth, over types of each class, with all lookups interleaved",
  "The tests register one coder and look it up; precedence and cache effects depend on the class of the type and on the order of operations.",
  ["textcoder/textcoder.go", "textcoder/textcoder_builtins.go"],
  [("registry maps and fallback to text methods", "textcoder/textcoder.go: Registry.GetEncoder/GetDecoder"), ("context values", "textcoder/textcoder.go: Context")],
  ["which registered function runs, and with which context, on each Marshal and Unmarshal"],
  "explicit enumeration of every registration history up to a depth on the real registry, compared with a reference model of the precedence rules", "model_checking",
  "Exhaustive for histories of depth 4 (quick) or more (thorough) over 7 types; behaviour of each coder is identified by the value it produces.")

P("C07", "Basic text coders accept exactly their type's values and round-trip",
  "For every basic type (signed and unsigned integers of every width, floats, bool, string) and every named type over one, a text decodes if and only if it spells a value of that type in range in decimal (for bool: one of true, false, 1, 0, on, off, yes, no in any case; for string: anything), and it decodes to exactly that value (the nearest one for floats); otherwise an error is returned, and nothing is silently truncated or wrapped. Encoding any integer, bool or string and decoding the text again yields the same value; a float comes back to six decimal places.",
  ["inputs"], "every text up to a length over an adversarial alphabet, every integer near each power of two, every 8 and 16 bit value",
  "The tests decode a few round numbers; wrap-around and precision loss show only at the edges of each width.",
  ["textcoder/textcoder_builtins.go"],
  [("bit width taken from the type", "textcoder/textcoder_builtins.go: parsers and formatters")],
  ["Unmarshal and Marshal on the default registry"],
  "exhaustive enumeration of texts and boundary values up to bounds against an independent big-number oracle", "exploration",
  "Exhaustive over the stated alphabets and lengths; longer texts are covered only at the enumerated boundaries.")

P("C08", "Conversion parsers accept exactly what they document, with exact values",
  "The run-time parsers used by generated converters (32 and 64 bit integers, floats and doubles, timestamps, durations) accept a text if and only if it spells a value of that type in the required form, give exactly that value (nearest for floats), and otherwise return an error; nothing wraps, truncates or panics. A timestamp is read by its layout in the given zone unless the text carries its own offset; a duration is the text followed by the column's unit suffix, if it has one.",
  ["inputs"], "every text up to a length over an adversarial alphabet, integers near every power of two, every layout x zone x day x time and single-character corruptions of each",
  "The tests parse a few values; day and month limits, daylight-saving gaps, width limits and unit suffixes show only at particular texts.",
  ["csvtoprotoparse/csvtoprotoparse.go"],
  [("time layout and zone", "csvtoprotoparse: ParseTimestamp"), ("numbers", "csvtoprotoparse: ParseInt32, ParseInt64, ParseFloat, ParseDouble")],
  ["return values of the csvtoprotoparse functions"],
  "exhaustive enumeration of texts, layouts, zones and calendar values up to bounds on the real parsers against independent number and calendar oracles", "model_checking",
  "Exhaustive over the alphabets, layouts and calendar ranges in the evidence; the calendar, zone and number oracles are written independently of the code.")

P("C09", "A generated .proto file is valid and says exactly what its mapping says",
  "For every valid mapping, the generated .proto file parses as proto3 and declares exactly one message of the mapping's name in its package, with one field per column that is not ignored and per extra field: same name, type, tag and label, in mapping order, each preceded by its comment. Exactly the needed imports appear, each once. Ignored columns leave no field, and long or multi-line comments never leak into code or lose words.",
  ["inputs", "programs"], "every sequence of column mappings up to a length over an alphabet of types, imports, comments, tags and ignored flags",
  "The tests compare two fixed outputs; wrapping of comments, import sets and ignored columns interact only in particular mappings.",
  ["csvtoproto/csvtoproto_go_codegen.go", "csvtoproto/csvtoproto.go", "codegen/codegen_imports.go"],
  [("field and comment printing", "csvtoproto: GenerateCode"), ("import collection", "codegen/codegen_imports.go")],
  ["the .proto text returned by csvtoproto.GenerateCode, parsed by an independent parser"],
  "exhaustive enumeration of mappings up to bounds; each generated file is parsed by an independent proto parser and compared field by field with the mapping", "model_checking",
  "Exhaustive for sequences of columns up to the bound in the evidence over its alphabet; trusts jhump/protoreflect's parser.")

P("C10", "Generated converters turn each CSV row into the mapped message",
  "For every valid mapping the generated Go code compiles against the message protoc generates from the generated .proto file, and the converter, run on any CSV file whose header has all mapped columns, in any order and with extra ones, gives for each row the message whose fields are exactly the parsed cells; a row with a bad cell gives an error (for a cell that cannot be read, telling the row's number and showing the cell) without affecting other rows, and a header lacking a mapped column is refused. Row hooks run in the order they were added, on each converted row's message, with the errors so far, and the first error is the row's; a mapping with a column of another type than those known, or without Go package, is refused.",
  ["programs", "inputs"], "every pair of field types, naming shapes, layouts, zones and suffixes; for each, every header order and row sequence over a cell alphabet",
  "The tests check generated text against a golden file and one example; that the code compiles and converts correctly depends on each combination of type, name and column.",
  ["csvtoproto/csvtoproto_go_codegen.go", "csvtoproto/csvtoproto.go", "csvtoprotoparse/csvtoprotoparse.go"],
  [("converter template", "csvtoproto: generated NewReader/Read code"), ("Go names of fields", "csvtoproto: go name computation")],
  ["results of the compiled generated converter on each CSV file"],
  "exhaustive enumeration of mappings and CSV files up to bounds: each converter is generated, compiled and run, and its whole output compared with a reference converter", "model_checking",
  "Exhaustive over the mapping list and the CSV files of the evidence. Trusts protoc, protoc-gen-go and the Go compiler.")

P("C11", "Type inference is sound, most specific and independent of row order",
  "For every sample of rows, each column gets the first of these types that all its values fit: a timestamp, of the first known layout that reads every value, else a 64-bit integer, else a float, else a string, as for blanks. Every sampled value can be converted by the type chosen for its column; the result depends neither on the order of the data rows nor on what the caller does later with the slices it passed; and rows of the wrong length, missing headers and empty samples are refused with an error rather than guessed at.",
  ["inputs", "histories"], "every column of values up to a length over an alphabet of near misses of each type, under every order, and every two-column table of a smaller one",
  "The tests infer from a few fixed files; a value that breaks a candidate type may come first, last or between, and near misses differ by one character.",
  ["recordinfer/recordinfer.go", "csvinfer/csvinfer.go"],
  [("narrowing of candidate types by each value", "recordinfer: column inference"), ("row feeding", "csvinfer: InferProto")],
  ["the mapping inferred from rows and from CSV text"],
  "exhaustive enumeration of sample columns and tables up to bounds, under every row order, against a reference inference", "model_checking",
  "Exhaustive for columns of up to the length in the evidence over an alphabet of values; trusts time.ParseInLocation for single layouts.")

P("C12", "An inferred mapping is well formed and converts the sample it came from",
  "For every header, inference gives one column mapping per column, in order, naming the column verbatim, with distinct valid lower snake-case field names close to the column names, distinct positive tags, a comment that counts the sample's values and shows the five most common, and the requested message and package names. The direct .proto rendering and the generated one agree with it and are valid, the text form of the mapping reads back equal, and the converter generated from it compiles and converts every row of the sample without error to the sample's values.",
  ["inputs", "programs"], "every header up to a length over column names of every shape, each over columns of every inferred type, and a list of samples carried through the whole pipeline under every row order",
  "The tests infer one or two tidy files; odd, empty, duplicate-looking or digit-leading column names reach the generator only in combination.",
  ["recordinfer/recordinfer.go", "csvinfer/csvinfer.go", "csvtoproto/csvtoproto_go_codegen.go"],
  [("field naming and tags", "recordinfer: Mapping, Code"), ("formatted mapping", "recordinfer: FormattedMapping")],
  ["the mapping, its text form, the generated files and the compiled converter's results"],
  "exhaustive enumeration of headers and column types up to bounds against a reference mapping, and a compiled end-to-end run of each pipeline in a list", "model_checking",
  "Exhaustive for headers up to the length in the evidence; the compiled pipelines are a fixed list, each run under every row order.")

P("C13", "Infer answers with exactly what inference finds in the one given example",
  "An Infer request with exactly one example input, given inline or as a path, gets the mapping that inference gives for that content under the requested names and time zone; a path is read exactly once, with the caller's context, and inline content causes no read. Requests with no, several or empty inputs or an unknown time zone are refused as invalid without reading anything; a failed read is reported as not found, permission denied or unknown together with path and cause. No request is altered and no answer depends on earlier requests.",
  ["inputs", "fault_sequences", "histories"], "every request over lists of inputs, names and zones under every outcome of the file reader, and every history of requests up to a depth",
  "The tests infer from one inline example; the reader is never called and its failures never injected.",
  ["service/service_infer.go", "service/service.go"],
  [("selection of the example and mapping of errors", "service/service_infer.go: Infer, fileErrToStatusErr")],
  ["responses, status codes and the calls made to the supplied file reader"],
  "exhaustive enumeration of requests, reader outcomes and request histories up to bounds on the real service with a recording fake file system", "model_checking",
  "Exhaustive over the request lists and histories of the depth in the evidence. The mapping itself is decided by C11 and C12.")

P("C14", "GenerateCode writes exactly the requested files at the requested places",
  "A GenerateCode request writes exactly the outputs it asks for, each once, at workspace/directory/file name (the default workspace and documented default names where none is given), with exactly the contents and relative paths the response reports. A request that is refused (no usable mapping, absolute directory or file name) writes nothing; when a write fails, no further file is written and the error tells kind, path and cause. The xtoproto command leaves just these files on disk, replacing older ones entirely, touches nothing else, and exits non-zero on any failure.",
  ["fault_sequences", "inputs", "histories"], "every request over lists of workspaces, directories, names, outputs and mappings with a failure at every write; every short history; the command over real directories with an obstacle at every place",
  "The tests use a writer that always succeeds and ignore the file contents and full paths.",
  ["service/service_generate_code.go", "cmd/xtoproto/xtoproto.go"],
  [("output path computation", "service/service_generate_code.go: protoPath, converterGoPath, pathFromParts"), ("writing files", "cmd/xtoproto/xtoproto.go: writeFile")],
  ["calls to the supplied file writer; files left on disk and exit code of the command"],
  "exhaustive fault enumeration on the real service with a recording file writer that fails at each write in turn, and on the real command over enumerated directory states", "fault_enumeration",
  "Exhaustive over the lists in the evidence. Directories containing '..' that leave the workspace are not specified and not enumerated.")

P("C15", "Wire paths survive printing and parsing, and only the language is parsed",
  "Every well-formed wire path (positive field numbers, optional names, list offsets, map keys of every kind at any value, self references, any length) prints to a text that parses back to exactly that path. A text parses if and only if it is in the path language, to the path it spells: numbers out of their type's range, malformed string literals, stray characters and unknown key types are refused with an error, and nothing panics or drops an element.",
  ["inputs"], "every path up to a length over elements with every slot kind at the edges of its range, paths of up to a thousand elements, and every text up to a length over path and string-literal tokens",
  "The tests print and parse a few one- and two-element paths; each slot kind, escape and length behaves on its own.",
  ["wirepath/wirepath.go", "wirepath/wirepath_from_string.go", "wirepath/wirepath_protostrings.go"],
  [("element regular expression and slot parsing", "wirepath/wirepath_from_string.go: parsePathElem, setSlotBasedOnMapKeyLiteral"), ("printing", "wirepath/wirepath.go: debugString")],
  ["WirePath.String, ParseString, MustParse, FromProto"],
  "exhaustive enumeration of paths and texts up to bounds on the real code against a reference parser", "model_checking",
  "Exhaustive over the alphabets and lengths in the evidence. Trailing slashes, explicit plus signs, leading zeros of field numbers and octal escapes other than those the tests fix are not specified.")

P("C16", "A wire path reads exactly the value at its place, or reports an error",
  "For every message and wire path, reading the path gives the value found by following its fields, list offsets and map keys in order: unset fields give their defaults, a missing map entry at the end gives no value, and field names in the path have no effect. Where there is no such place (unknown field, offset outside the list, key of another type, slot on a value without slots, child of something that is not a message or of a missing entry) an error is returned. It never panics and changes neither message nor path.",
  ["inputs"], "every path up to a length over fields, self references and slots inside, at and past every edge, in messages of every shape of a dynamic and a generated type",
  "The tests evaluate a dozen paths; panics and wrong elements need a particular slot on a particular kind of field at some depth.",
  ["wirepath/wirepath.go"],
  [("evaluation element by element", "wirepath/wirepath.go: getValue"), ("error text built from the message", "wirepath/wirepath.go: debugString, extractPrettyPathElem")],
  ["value and error returned by GetValue"],
  "exhaustive enumeration of paths over messages up to bounds on the real evaluator against a reference evaluator", "model_checking",
  "Exhaustive over the paths and messages in the evidence. A key of the right Go type under another wire encoding may give the value or an error.")

P("C17", "The s-expression reader reads exactly the forms of its grammar",
  "For every text, reading forms one after another yields exactly the forms its grammar defines: nested lists, quoted forms, strings with all Go escapes, integers and decimals by exact value, symbols of any other characters; blanks and both kinds of comment separate forms. Every form carries its exact text span and position, and with a custom factory the forms, blanks and comments tile the text. Malformed text (unbalanced parentheses, unterminated or invalid strings) gives an error naming file, row and column, never a silent end of file; the end is reported, repeatedly, as io.EOF only.",
  ["inputs"], "every text up to a length over the characters that matter to the reader and over longer pieces, every string literal over escapes, every number spelling over digits and number letters, and deep nesting",
  "The tests read some dozens of texts; what a character means depends on what stands before it, and the interplay of comments, quotes and escapes is combinatorial.",
  ["sexpr/sexpr.go", "sexpr/sexpr_factory.go", "sexpr/sexpr_sourcefile.go"],
  [("tokenizing and nesting", "sexpr/sexpr.go: FormReader"), ("spans and positions", "sexpr/sexpr_sourcefile.go")],
  ["forms, values, spans and errors of ReadForm; calls to a custom form factory"],
  "exhaustive enumeration of texts up to bounds on the real reader against a reference reader", "model_checking",
  "Exhaustive over the alphabets and lengths in the evidence. Not specified and not judged: unterminated block comments, quotes inside a token, integers beyond 64 bits, digits like 08, underscores and hexadecimal in floats, and backslash-newline in strings.")

P("C18", "Text positions are what the history of files and lines says",
  "In a file set, files take disjoint ranges in the order they were added, and after any history of adding files and adding, merging and setting lines, every position belongs to exactly the file whose range holds it, with the offset, line and column its line table says; positions in no file give none. Pos and Offset, and Position and PosForLineColumn, are inverse to each other; places outside the file or past the end of their line have no position; overlapping or negative files, bad line tables and bad line numbers are refused and change nothing. Positions print in their documented forms.",
  ["histories", "inputs"], "every history up to a depth of file and line operations, asking for everything after each; every content and line table up to a size; every sequence of three lookups in sets of up to four files",
  "The tests walk a few fixed files in ascending order; a stale lookup cache or a wrong boundary needs a particular order of lookups and line changes.",
  ["textpos/textpos_from_go_token.go", "textpos/textpos.go"],
  [("file lookup with cache", "textpos/textpos_from_go_token.go: file, searchFiles"), ("line table", "textpos/textpos_from_go_token.go: AddLine, MergeLine, SetLines, SetLinesForContent, PosForLineColumn")],
  ["everything the exported methods of FileSet, File, Position, Line, Column and LineColumn answer"],
  "exhaustive enumeration of operation histories up to bounds on the real code, replayed on a reference model and compared after every operation", "model_checking",
  "Exhaustive over histories of the depth in the evidence. Contents of another length than their file are not specified.")

P("C19", "Concurrent use of a file set gives what some sequential use would give",
  "A file set and its files may be used from several goroutines at once: every concurrent mix of adding files, looking up files and positions, iterating, and adding, merging and setting lines is free of data races and deadlocks, and what each call returns and what the set holds afterwards is what some one-after-another order of the same calls gives. Files added concurrently never overlap, and no lookup sees half of a change.",
  ["schedules"], "every schedule of two or three threads with a bounded number of preemptions at statement granularity, for every pair of operations",
  "The one concurrency test runs a fixed mix once; lost updates and stale caches need a switch between two particular statements.",
  ["textpos/textpos_from_go_token.go"],
  [("locking of the set and its cache", "textpos/textpos_from_go_token.go: FileSet"), ("locking of the line table", "textpos/textpos_from_go_token.go: File")],
  ["results of the concurrent calls, the final file set, data race reports"],
  "stateless model checking of the real code under a controlled scheduler (all schedules up to a preemption bound), with the race detector and a linearizability check against sequential runs", "model_checking",
  "Exhaustive for schedules with up to the number of preemptions in the evidence; two to three threads of one or two operations.")

P("C20", "IRI references resolve against a base exactly as RFC 3986 says",
  "For every absolute base IRI and every non-empty valid IRI reference, resolving gives exactly the IRI of RFC 3986 section 5.2: an absolute reference stands for itself with dot segments removed, a network reference keeps the base's scheme, a relative one keeps the base's whole authority (user, host and port, even empty ones), paths are merged and their dot segments removed, an absent path keeps the base's path and, without a query of its own, the base's query, and the fragment is the reference's. Absent and empty parts are told apart. The result is a valid IRI.",
  ["inputs"], "every base made of all shapes of authority, path, query and fragment, with every valid reference up to a length over tokens of references",
  "The tests resolve six references; components interact, and rootless paths, ports, empty authorities and dot segments at the edges are never tried.",
  ["rdf/iri/iri_resolve.go", "rdf/iri/iri.go"],
  [("choice of components", "rdf/iri/iri_resolve.go: resolveReference"), ("merging and dot segments", "rdf/iri/iri_resolve.go: resolvePath"), ("splitting and joining", "rdf/iri/iri.go: parts, toIRI")],
  ["IRI.ResolveReference"],
  "exhaustive enumeration of bases and references up to bounds on the real code against a reference implementation of the RFC", "model_checking",
  "Exhaustive over the lists and token sequences in the evidence. The empty reference (whose fragment the existing tests fix against the RFC) and results without authority whose path starts with // (for which the RFC's own result is ambiguous) are not judged.")

P("C21", "Exactly the IRIs of RFC 3987 are accepted, and normalized without changing them",
  "A text is accepted as an IRI (absolute or relative reference) if and only if RFC 3987 derives it and its percent-encoded octets spell UTF-8, and is then returned unchanged. Normalizing percent-encoding replaces exactly the escapes of characters that need none by the characters and writes the others in upper case; text with escapes that are not UTF-8 stays as it is. The result is again valid, and normalizing it once more changes nothing.",
  ["inputs"], "every text up to a length over delimiters and characters of each class, every Unicode character in every component, every shape of IP address, every one- and two-octet escape sequence and the edges of longer ones",
  "The tests parse eight texts; the grammar has a dozen character classes, each with its own place and edges.",
  ["rdf/iri/iri.go"],
  [("regular expressions of the grammar", "rdf/iri/iri.go: Parse"), ("normalization", "rdf/iri/iri.go: normalizePercentEncoding")],
  ["iri.Parse, IRI.Check, IRI.NormalizePercentEncoding"],
  "exhaustive enumeration of texts, characters and escapes up to bounds on the real code against a hand-written recognizer", "model_checking",
  "Exhaustive over the alphabets and lengths in the evidence. An upper-case V of a future address version is not judged.")

P("C22", "RDF triples survive printing as N-Triples and reading back",
  "Every triple of IRIs (in normalized form), blank nodes with valid labels and literals (any Unicode text, plain, typed or language-tagged) prints as exactly one line of N-Triples, which reads back, by the grammar and by this package, as the same triple; printing it again gives the same line. The parts of a triple are told apart by exactly one of IRI, blank node, literal. Two terms or triples are equal if and only if all their parts are, and then, and only then, print the same.",
  ["inputs"], "every triple over lists of terms, every literal text up to a length over characters that need escaping, every label and language tag up to a length, every Unicode character in each kind of term, and every pair of terms",
  "The tests print and read back two triples; escaping and label rules differ by character and position.",
  ["rdf/ntriples/ntriples.go"],
  [("printing of literals", "rdf/ntriples/ntriples.go: LiteralString, canonicalStringLiteral"), ("terms and equality", "rdf/ntriples/ntriples.go: Subject, Object, LiteralsEqual")],
  ["Triple.String, LiteralString, ParseLine, ParseLiteral and the equality functions"],
  "exhaustive enumeration of triples up to bounds on the real code, read back by it and by a reference reader", "model_checking",
  "Exhaustive over the lists, alphabets and lengths in the evidence. Invalid UTF-8 and IRIs with characters no IRI may hold are not specified.")

P("C23", "Exactly the lines of N-Triples are read, each as the triple it spells",
  "A line is read as a triple if and only if the N-Triples grammar derives it (with any blanks between the terms and a comment after it; relative but not empty IRIs are taken as they are), and gives exactly the terms it spells: escapes replaced by their characters, percent-encoding normalized, plain literals typed xsd:string and tagged ones rdf:langString. Escapes that are no Unicode character or that an IRI may not hold are refused. Comment lines give their text, blank lines nothing, anything else an error; reading many lines keeps the order of the triples and names the first bad line by number.",
  ["inputs"], "every line over lists of good and broken terms, blanks and tails; every term text up to a length in each place; every Unicode character in each place; every line within two edits of valid lines; every document of up to a number of lines",
  "The tests read one line and ten literals; where a term ends and which characters it may hold is decided by large regular expressions.",
  ["rdf/ntriples/ntriples.go"],
  [("regular expressions of the terms", "rdf/ntriples/ntriples.go: pnCharsBase, blankNodeLabel, literalRegexp, iriref"), ("line structure", "rdf/ntriples/ntriples.go: ParseLine, ParseLines")],
  ["ParseLine, ParseLines, ParseLiteral"],
  "exhaustive enumeration of lines up to bounds on the real reader against a reference reader", "model_checking",
  "Exhaustive over the lists, alphabets and lengths in the evidence. Invalid UTF-8 and line breaks inside a comment are not specified.")

P("C24", "RDF/XML documents give exactly the graph of the RDF/XML recommendation",
  "For every well-formed XML document, the parser gives exactly the triples that the RDF/XML recommendation derives from it, up to the names of blank nodes: for typed and untyped nodes, property attributes, all kinds of property elements (literals, resources, empty ones, parseType Resource, Collection and Literal), containers, lists and reification, at any nesting; in the same way for several nodes under rdf:RDF and for a single node as root. A document the grammar does not derive (forbidden names, attributes that exclude one another, text or elements in the wrong place, bad IDs and IRIs) is refused with an error.",
  ["inputs"], "every document tree within bounds: every element name, attribute set of up to three attributes, and content for node and property elements, in every context, and every pair of property elements two levels deep",
  "The W3C tests hold one small document per feature; features interact (an attribute of one form inside another, a second child, a nested list).",
  ["rdf/rdfxml/rdfxml.go", "rdf/rdfxml/rdfxml_xmlname.go"],
  [("node elements", "rdf/rdfxml/rdfxml.go: readNodeElemUsingSubject"), ("property elements", "rdf/rdfxml/rdfxml.go: readPropertyElemInternal, readSequencePropertyElem"), ("attribute rules", "rdf/rdfxml/rdfxml.go: parseEmptyPropertyElementAttributes, parseLiteralPropertyElementAttributes, rdfAttributes")],
  ["triples and error of Parser.ReadAllTriples"],
  "exhaustive enumeration of document trees up to bounds on the real parser against a reference translator of the grammar, comparing graphs by isomorphism", "model_checking",
  "Exhaustive over the names, attribute sets, contents and depths in the evidence. XML literals are compared by what they read back to. Not specified: rdf:datatype on an empty property element, xml:lang within XML literals.")

P("C25", "RDF/XML bases, languages, IDs and blank node names apply in their scope",
  "xml:base and xml:lang hold for exactly the element that carries them and what lies within, the innermost one winning, a relative xml:base taken against the one around it; references, IDs and datatypes are resolved and literals tagged accordingly, and what follows the element is not affected. An rdf:ID is refused if it is no XML name or is used twice under one base, and only then. rdf:nodeID names one node throughout a document, and nodes without a name are all different, from each other and from the named ones, whatever names are chosen.",
  ["inputs"], "every choice of xml:base or xml:lang at five nested elements with users inside, beside and after each; every sequence of IDs under every choice of bases; every sequence of named and unnamed blank nodes; every name up to a length and every Unicode character in a name",
  "The W3C tests set one base or language in a document; a wrong scope shows only where one is nested in, or comes after, another.",
  ["rdf/rdfxml/rdfxml.go", "rdf/iri/iri_resolve.go"],
  [("stacks of bases and languages", "rdf/rdfxml/rdfxml.go: pushBaseURI, popBaseURI, pushLang, popLang, handleGenericStartElem"), ("IDs", "rdf/rdfxml/rdfxml.go: resolveID"), ("generated names", "rdf/rdfxml/rdfxml.go: generateBlankNodeID")],
  ["triples and error of Parser.ReadAllTriples"],
  "exhaustive enumeration of documents up to bounds on the real parser against a reference translator, comparing graphs by isomorphism", "model_checking",
  "Exhaustive over the nestings, values and names in the evidence.")

P("C26", "Broken RDF/XML and failing sources give an error, never part of a graph",
  "A document that is cut off, in which tags, texts or comments were lost, repeated, exchanged or replaced, or whose source fails, gives an error, unless what is left is itself a correct document, which then gives exactly its own graph: never a crash, an endless loop, or a nil error with triples missing. An error of the source is passed on, so that errors.Is finds it.",
  ["inputs", "fault_sequences"], "every cut at every byte and every one or two edits of the pieces of documents that use every production, and a source that fails or ends after every number of tokens",
  "The tests read whole files from memory; what each production does with an end or an error in the middle of it is never tried.",
  ["rdf/rdfxml/rdfxml.go"],
  [("error returns of every production", "rdf/rdfxml/rdfxml.go: readRootOrNodeElem, readNodeElemsAndEndElement, readPropertyElems, readNextChildOfPropertyElement, readElementContents")],
  ["triples and error of Parser.ReadAllTriples"],
  "exhaustive fault injection: every cut, every edit of up to two pieces and every failing read on the real parser, against a reference translator", "model_checking",
  "Exhaustive over the documents and edits in the evidence.")

P("C27", "A proto inferred from XML is valid and says exactly what the examples hold",
  "For every sequence of example elements the inferred file is a valid protobuf file with one message for each path of elements that hold attributes or children, and in it one field for each attribute and child ever seen there, under distinct valid names that name the XML name they stand for: repeated exactly if a parent held the child more than once, and of the narrowest type that holds all values seen. The example comments show the most frequent values with their counts, the same in every run, and only if asked for; comments, instructions and other tokens without meaning change nothing. A document cut off or broken, or a source that fails, gives an error.",
  ["inputs", "fault_sequences"], "every tree of elements, attributes and texts up to bounds, every multiset of values, every name up to a length and every pair of names, noise in every place, every cut and every failing token",
  "The tests infer from two documents; names that collide or are no identifiers and values that just miss a type need particular examples.",
  ["xmlinfer/xmlinfer.go", "xmlinfer/xmlinfer_string_fields.go"],
  [("collection of examples by path", "xmlinfer/xmlinfer.go: consumeElementTokens"), ("names", "xmlinfer/xmlinfer.go: xmlToFieldName, addFieldWithUniqueName"), ("types of values", "xmlinfer/xmlinfer_string_fields.go: inferFieldTypeFromExampleStrings")],
  ["result and error of xmlinfer.Infer, ProtoFile"],
  "exhaustive enumeration of examples and faults up to bounds on the real code, whose file is parsed and compared with a model of the examples", "model_checking",
  "Exhaustive over the alphabets and bounds in the evidence; protoc checks the cases about names. Integers are decimal. Not specified: text beside attributes or children, and the float spellings only Go reads (hexadecimal, underscores, inf).")

P("C28", "Copying records delivers every record, finishes once and hides no error",
  "Copying gives the writer every record of the source once and in order, and then finishes every writer exactly once; a group of writers passes each record to each of its writers in order up to the first that fails. If anything fails, whatever it is and in whatever order, copying stops there, later records are not read, the file is closed exactly once if it was opened, and the error returned wraps the first failure and, where a record could not be written, names its number. Without a failure there is no error.",
  ["fault_sequences", "histories"], "every tree of up to three writers, each failing at any record or at its end, with every number of records and every failure to open, read, parse and close the file",
  "No test copies anything.",
  ["protocp/protocp.go", "protocp/protocp_writers.go"],
  [("copy loop", "protocp/protocp.go: Copy"), ("closing", "protocp/protocp.go: CopyFile"), ("groups of writers", "protocp/protocp_writers.go: addRow, finalize")],
  ["calls made on readers, writers and files, and the error returned"],
  "exhaustive fault enumeration: every combination of faults up to bounds on the real code, the recorded calls and error against a reference", "fault_enumeration",
  "Exhaustive within the bounds in the evidence; readers, writers and files are scripted, so faults of a real disk appear only as the errors they give.")

P("C29", "Reflected lists compare with lists and slices by element type and elements",
  "Compared with this option, a reflected list equals another list or a slice if and only if both have elements of the same type, as many, and equal one by one in order; with the option to ignore element types, messages of different types compare by their fields alone. This holds for every scalar kind, enums, generated and dynamic messages, set and unset fields, bare values and values inside others, in either order; a difference is shown exactly if there is one, and nothing crashes.",
  ["inputs"], "every pair of values from lists and slices of every kind with every sequence of up to a number of elements",
  "The tests compare a dozen pairs, nearly all of one message type; most pairs of kinds are never compared.",
  ["internal/protoreflectcmp/protoreflectcmp.go"],
  [("analysis of both values", "internal/protoreflectcmp/protoreflectcmp.go: analyzeValue"), ("normal form", "internal/protoreflectcmp/protoreflectcmp.go: makeSliceOfElementType")],
  ["cmp.Equal and cmp.Diff with protoreflectcmp.Transform"],
  "exhaustive enumeration of pairs of values up to bounds on the real code against a reference equality", "model_checking",
  "Exhaustive over the lists of values in the evidence. Two slices, slices of named enum types and nil elements are not judged.")

P("C30", "The web server serves exactly the playground's files and nothing else",
  "For every request, whatever its path, method and headers, the server answers as a file server over exactly the playground's six static files does, with the contents they have on disk; no other file of the disk can be fetched by any spelling of a path. A file that is missing gives an error for that file and leaves the others served. In the mode that writes the files out, the directory then holds exact copies of all of them, or the program fails visibly; so it does if it cannot listen.",
  ["inputs", "configurations"], "every request path up to a number of pieces, with slashes, dots and escapes in every place; every set of missing files; every state of the output directory",
  "No test runs the server; path tricks must be tried one by one.",
  ["cmd/xtoproto_web/xtoproto_web.go"],
  [("table of files", "cmd/xtoproto_web/xtoproto_web.go: staticFiles, Open"), ("listing", "cmd/xtoproto_web/xtoproto_web.go: Readdir, Stat"), ("writing out", "cmd/xtoproto_web/xtoproto_web.go: outputGithubPagesFiles")],
  ["HTTP answers of the running server, its exit status and the files it writes"],
  "exhaustive enumeration of requests and disk states up to bounds against the running server, compared with a reference file server", "model_checking",
  "Exhaustive over the pieces and states in the evidence, run over the loopback network. The listing while playground.wasm is missing is not judged.")

P("C31", "The command writes exactly the files its service answers with, or fails visibly",
  "Run on a CSV file, or with a request from the build system, the command writes exactly the files, at the places and with the contents, that the service answers with for the same request, prints the answers, and exits with status 0. If the file cannot be read, the request is broken, nothing can be inferred, or a file cannot be written in full, it exits with another status and says why on standard error.",
  ["inputs", "fault_sequences", "configurations"], "every CSV text up to a number of pieces; every combination of states of the input, the workspace and each output; every combination of request file, JSON, output path and workspace",
  "No test runs the command.",
  ["cmd/xtoproto/xtoproto.go", "service/service.go"],
  [("infer, then generate", "cmd/xtoproto/xtoproto.go: run"), ("request of the build system", "cmd/xtoproto/xtoproto.go: runConverterCodeGen"), ("writing of files", "cmd/xtoproto/xtoproto.go: writeFile")],
  ["exit status, output and files of the built command"],
  "exhaustive enumeration of inputs and file-system states up to bounds on the built command, against the service asked in memory", "model_checking",
  "Exhaustive over the pieces and states in the evidence. The service itself is judged by C11 to C14. Flags that have no effect, and output paths that end in a slash or hold .., are not specified.")

P("C32", "The playground shows what the service answers, whatever was typed before",
  "After any sequence of inputs into its boxes, and whenever its program becomes ready, the playground shows the error, or the .proto and Go code with their names, that the service answers to the CSV and to the two requests as they stand, with the playground's defaults for whatever they leave out. A box left empty is filled with the request that was answered; text that was typed is never changed; after an error the code shown before stays. The program behind it answers every such request and never ends.",
  ["inputs", "histories", "schedules"], "every sequence of inputs of good, broken, empty and non-ASCII texts into the three boxes up to a length, every combination of texts, and every place at which the program becomes ready or inputs follow one another at once",
  "No test runs the playground; a default merged wrongly or state kept from an earlier input needs particular requests in particular order.",
  ["playground/playground.go", "playground/index.html"],
  [("defaults and merging", "playground/playground.go: handleJSRequest, unmarshalJSONMerge"), ("entry point", "playground/playground.go: registerJSEntryPoints"), ("page", "playground/index.html: update")],
  ["boxes, code, names and errors on the page, and the program's JSON answers"],
  "exhaustive enumeration of input histories and schedules up to bounds, on the real page scripts and the real WebAssembly program, against a model that asks the service in memory", "model_checking",
  "Exhaustive over the texts and lengths in the evidence. The document around the scripts is a small stand-in run by Node, not a browser; highlighting by Prism is not looked at, and time zones, which the WebAssembly program cannot load in a browser, only as errors.")

P("C33", "The release's Go files are exactly the generated ones below the import path",
  "For every set of runfiles, the program that collects the generated Go files (releasing/generate_pb_go_files) writes exactly the .go files whose path holds the import path it is given as a run of whole elements, each with its exact contents at the rest of its path below the output directory. It changes no other file, neither there nor elsewhere. If a file it has to copy cannot be read or written, it exits with an error and a message.",
  ["configurations", "inputs", "fault_sequences"], "every runfile path of a prefix, an import path and a rest; every set of such files up to a size; every state of a source and of its place; every way to name the output directory; many files of which any one fails",
  "The program has no tests; wrong places, left-over contents and swallowed errors need particular paths, old files or one failing copy among many concurrent ones.",
  ["releasing/generate_pb_go_files/generate_pb_go_files.go"],
  [("place of a runfile", "releasing/generate_pb_go_files/generate_pb_go_files.go: destination"), ("concurrent copies and their errors", "releasing/generate_pb_go_files/generate_pb_go_files.go: run, maybeCopy")],
  ["files and exit status of the built program"],
  "exhaustive enumeration of runfile sets, destinations and faults, each run with the built program and compared with a reference", "model_checking",
  "Exhaustive over the listed path elements, sets of up to 4 (quick) or 5 of 12 files, 7 states of the place and 3 of the source; up to 1100 (5000) files at once. The schedule of the concurrent copies is the operating system's, they touch different files. Runfiles that share a place, directories named like Go files and import paths that begin within a path element are not specified.")

P("C34", "A release goes step by step and stops at the first step that fails",
  "The release program (releasing/make_release) does nothing without a tag, nor in a workspace with uncommitted changes. Otherwise it makes the release branch from main, generates the .pb.go files, adds and commits exactly those below proto, tags that commit, builds the site into the staging directory, fetches and checks out the pages branch and copies exactly the staged files into the workspace, in this order, all in the workspace and with the names it was given. The first step that fails is the last one it runs, and it then exits with an error and a message, so that nothing is tagged, checked out or copied after a failure.",
  ["fault_sequences", "configurations"], "every combination of flags, workspace and staging states and generated and staged files, without a fault and with each single command failing in each way",
  "The program has no tests and cannot be tried on the real repository; a step that runs although one before it failed shows only when just that command fails.",
  ["releasing/make_release/make_release.go"],
  [("steps and their errors", "releasing/make_release/make_release.go: run"), ("failing commands", "releasing/make_release/make_release.go: runCmd")],
  ["commands run by the built program, recorded by stand-ins, and its exit status"],
  "exhaustive fault enumeration: every command of the procedure failing in each way, in every scenario, on the built program with recording stand-ins for git, bazel and cp", "fault_enumeration",
  "Exhaustive over the listed scenarios with at most one failing command. The order of additions among themselves, and of copies, is free. Files left in the staging directory before the run, and names beginning with a dot, are not specified.")

P("C35", "The test-case generator writes exactly the approved cases of its manifest",
  "For every manifest and every set of documents, the program that turns the W3C's RDF/XML tests into Go (rdf/rdfxml/generate_test_cases) writes a Go file that compiles and lists, in the order of the manifest, exactly the positive and the negative parser tests whose status is APPROVED, each with its name, the exact bytes of its documents (found beside the manifest by their URL), the URL of its input document and, for a negative one, its description. If the manifest or a document of an approved test cannot be read, or the file cannot be written, it exits with an error and a message, and a file it has not begun to write stays as it was.",
  ["configurations", "inputs", "fault_sequences"], "every sequence of manifest entries of all kinds and statuses up to a length; every byte and every text of characters that need quoting up to a length; every state of each file; the manifest cut after every byte",
  "The program has no tests; a text quoted wrongly, a case left out or taken from a test that is not approved, or a document silently missing, weakens the tests made from it without any of them failing.",
  ["rdf/rdfxml/generate_test_cases/generate_test_cases.go", "rdf/rdfxml/rdftestcases/rdftestcases.go"],
  [("choice of cases", "rdf/rdfxml/generate_test_cases/generate_test_cases.go: loadCases"), ("documents", "rdf/rdfxml/generate_test_cases/generate_test_cases.go: loadTestFile"), ("quoting", "rdf/rdfxml/generate_test_cases/generate_test_cases.go: generateCode")],
  ["files and exit status of the built program"],
  "exhaustive enumeration of manifests, texts and faults, each run with the built program and its output type-checked and compared with a reference", "model_checking",
  "Exhaustive over sequences of up to 3 (quick) or 4 of 10 entries, 14 statuses, all bytes, texts of up to 2 (3) of 16 pieces, and one (all) unreadable files with 6 states of the output. Entries with two documents of a kind, and documents outside the manifest's directory, are not specified. The list checked into the repository is compared with the manifest there, but for the URLs of its negative cases, which it was made without.")
