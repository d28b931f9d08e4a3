#!/usr/bin/env python3
# Source of properties.jsonl: run from /verif to regenerate it.
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
R="schema/ridl/"
prop("P01","RIDL parsing is total: every text ends in a schema or an error",
 "For any bytes supplied as a RIDL file, parsing returns promptly with either a schema or a non-nil error, never both and never neither. It never panics, never takes the process down, never hangs and leaves no goroutine running behind it.",
 ["inputs"],"all byte strings given to the RIDL parser; bounded here to token sequences, single/double edits and truncations of seed documents, and size sweeps",
 "Unit tests feed a few dozen hand-written files; a parser built from goroutines exchanging tokens over channels can crash or block on a single unforeseen token order.",
 [R+"lexer.go",R+"tokenizer.go",R+"parser.go",R+"ridl.go","schema/var_type.go"],
 [("lexer goroutine and token channel",R+"lexer.go newLexer/run"),("parser goroutine, emit/collect",R+"parser.go run/collect"),("state errors instead of panics",R+"parser.go stateError")],
 ["ridl.NewParser(...).Parse() return values","process exit","runtime goroutine count"])
prop("P02","The parsed schema is exactly what the RIDL document declares",
 "A well-formed RIDL document is accepted, and its schema holds exactly the declared header values, type aliases, enums, structs, errors, services and methods, each complete with its fields, types, optional and streaming flags and metadata, none lost, invented, duplicated or altered. Definitions keep source order: types appear as aliases, then enums, then structs, each group in the order written, and errors, services, methods, fields and arguments stay in the order written. Text that is neither a comment nor part of a definition (a stray word at the end of a line, a NUL byte in mid-file) is rejected rather than silently skipped.",
 ["inputs"],"all well-formed RIDL documents; bounded to compositions of the language's constructs and size sweeps of each repetition",
 "The tests compare a few fields of a few documents; a dropped or misplaced element that depends on combination, order or count of definitions is never sampled.",
 [R+"ridl.go",R+"parser.go",R+"parser_node.go",R+"struct_parser.go",R+"enum_parser.go",R+"service_parser.go",R+"error_parser.go",R+"type_alias_parser.go",R+"definition_parser.go"],
 [("node collection and filtering by kind",R+"parser_node.go RootNode"),("schema assembly passes",R+"ridl.go parse")],
 ["*schema.WebRPCSchema returned by Parse"])
prop("P03","Layout, comments and placement of definitions do not change meaning",
 "Rewriting a document by changing indentation, blank lines, spacing where spaces are allowed, tabs, line endings (LF or CRLF), the presence of a final newline, ordinary comments, or quoting of a literal value leaves the parsed schema (apart from doc comments) identical. Moving whole definitions of different kinds past each other does so too, because references may point forwards or backwards.",
 ["inputs"],"all layout rewritings of all documents; bounded to all combinations of rewritings within a deviation bound at every gap of a set of documents",
 "Every test uses one fixed layout per document; whitespace-sensitive state-machine bugs appear only at particular gaps.",
 [R+"lexer.go",R+"tokenizer.go",R+"parser.go",R+"ridl.go"],
 [("optional whitespace matching",R+"parser.go match"),("two-pass resolution",R+"ridl.go parse")],
 ["*schema.WebRPCSchema returned by Parse"])
prop("P04","Names are checked: well-formed, and unique without regard to case",
 "A schema, whether RIDL or JSON, is rejected when a type name is empty or does not start with an upper-case letter, when a struct or enum field name or a JSON field name is malformed, when a service, method, argument or error name is empty, or when two types, two fields of a type, two JSON field names of a struct, two services, two methods of a service or two errors have names equal up to letter case. Schemas whose names satisfy these rules and are written with ASCII letters, digits and underscores are not rejected on account of names.",
 ["inputs"],"all assignments of names to the definitions of a schema, at every position and distance from each other",
 "Tests check one duplicate pair per kind, adjacent and in one casing; the rule quantifies over every pair of positions, every casing and both input formats.",
 ["schema/type.go","schema/service.go","schema/error.go","schema/parser.go",R+"ridl.go"],
 [("duplicate detection by lower-cased name","schema/type.go, service.go, error.go Parse"),("name whitelist","schema/parser.go IsValidArgName")],
 ["error returned by Parse / ParseSchemaJSON"])
prop("P05","Type expressions are accepted iff they resolve, with the right structure",
 "A type expression built from core types, lists, maps and declared structs, enums and aliases is accepted exactly when every name in it is a core type or a declared type (matched exactly, case included) and every map key is a string, an integer type, an enum or an alias of an enum; an incomplete expression such as an empty element type is rejected. When accepted, the resolved structure mirrors the expression at every level, points at the declared definitions, and prints back as the same canonical expression; the outcome is the same in RIDL and JSON, in fields, aliases and arguments, and whatever the order of declarations.",
 ["inputs"],"all type expressions over a set of declarations; bounded by nesting depth and near-miss edits",
 "Tests contain about twenty expressions; the resolver is recursive and handles three declaration kinds in five positions.",
 ["schema/var_type.go","schema/core_type.go",R+"type_parser.go",R+"ridl.go","schema/type.go"],
 [("recursive expression parser","schema/var_type.go ParseVarTypeExpr"),("canonical printing","schema/var_type.go buildVarTypeExpr")],
 ["VarType tree in the returned schema","error returned"])
prop("P06","RIDL and its JSON form are equivalent, and round trips are stable",
 "Writing any accepted schema to JSON and reading it back gives an equivalent schema: the same definitions, resolved types, metadata, comments and schema hash, and the same JSON text byte for byte when written again. Reading a JSON schema validates it by the same rules as RIDL, so a schema accepted in one form is accepted in the other.",
 ["inputs"],"all accepted schemas; bounded to the document space of P02 plus string contents",
 "One golden file compares one document with its JSON; the property is about every document and every string that must survive quoting.",
 ["schema/schema.go","schema/parser.go","schema/var_type.go","schema/type.go","schema/service.go"],
 [("custom type (un)marshalling","schema/var_type.go MarshalJSON/UnmarshalJSON"),("json tags","schema/*.go")],
 ["ToJSON","ParseSchemaJSON"])
prop("P07","The schema hash identifies the schema",
 "The schema hash is a function of the schema alone: repeated computation, re-parsing, another process, layout changes and non-documentation comments outside definitions do not change it, and computing it does not change the schema. Any change to a name, value, type, flag, metadata entry, annotation, error or order that shows in the schema changes the hash.",
 ["inputs","histories"],"all schemas and all single edits of them; bounded to the document space and every applicable edit at every position",
 "No test compares hashes of differing schemas; insensitivity to one field is invisible to them.",
 ["schema/schema.go"],
 [("SHA-1 of the canonical JSON","schema/schema.go SchemaHash/ToJSON")],
 ["SchemaHash"])
prop("P08","Imports yield each reachable allowed definition exactly once",
 "For any acyclic import graph, the schema of a file contains its own definitions plus every definition visible in the files it imports, each exactly once however many paths lead to it (types, errors and services alike), imported ones first in import order; a member list on an import admits exactly the named members. Import paths resolve relative to the importing file, and a cyclic graph, including a self-import, is rejected with an error naming a cycle.",
 ["inputs","programs"],"all import graphs over a number of files, with all member lists, directory layouts and import syntaxes; bounded to 4 files fully and to chains, fans and diamonds beyond",
 "Tests hold two chains, one diamond and one cycle; correctness depends on the whole graph because parsed files are cached and shared.",
 [R+"ridl.go",R+"import_parser.go",R+"internal/graph/graph.go"],
 [("shared parse cache and import graph",R+"ridl.go importParser"),("cycle detection",R+"internal/graph/graph.go IsCircular")],
 ["schema returned by Parse","error text"],
 [dict(name="cache",meaning="already parsed files",where=R+"ridl.go Parser.cache"),dict(name="imports",meaning="import graph so far",where=R+"ridl.go Parser.imports")])
prop("P09","A file that cannot be read or parsed fails the whole parse, with its trail",
 "If the root file or any file reachable through imports is missing, unreadable at any point of reading it, outside the file system, syntactically wrong or invalid, parsing returns an error and no schema, whatever the position of that file in the import graph. For an imported file the error gives the cause and lists the chain of files from the failing one up to the root; a later parse after the fault has gone succeeds with the full schema.",
 ["fault_sequences","inputs"],"every read operation of every file in every import tree as fault point, every fault kind; bounded to graphs of up to 4 files",
 "Tests never inject a read fault and check one missing-file error text.",
 [R+"ridl.go"],
 [("error propagation with stack",R+"ridl.go newImportError"),("path validation",R+"ridl.go parse")],
 ["error returned","file-system calls made"])
prop("P10","Service and annotation filters select exactly the asked-for methods",
 "Selecting services by name keeps exactly the named services; matching by annotations keeps exactly the methods carrying at least one of the requested annotations (a request without value, or with blank value, matches any value; otherwise the value must be equal), and ignoring drops exactly those, so the two results partition the methods. Kept services, methods and everything else in the schema stay unchanged and in order, under any sequence of these operations.",
 ["inputs","histories"],"all small schemas, requests and operation sequences; bounded by numbers of services, methods, annotations and depth of the sequence",
 "Tests apply each filter once to a few fixed schemas; partition and composition laws over all annotation sets are out of their reach.",
 ["schema/schema.go"],
 [("filters","schema/schema.go MatchServices, MatchMethodsWithAnnotations, IgnoreMethodsWithAnnotations")],
 ["schema after the operations"])
prop("P11","Tree shaking keeps exactly the types the kept services need",
 "After tree shaking for a set of services, the remaining types are exactly those reachable from the inputs and outputs of those services' methods through struct fields, list elements, map keys and values and alias targets, in their original order and unmodified. It terminates for recursive and mutually recursive types, and leaves errors and services alone.",
 ["inputs"],"all type reference graphs and service selections; bounded to all graphs over up to 4 types and chains and cycles beyond",
 "No test covers recursive types or aliases; reachability is a property of the whole graph.",
 ["schema/schema.go"],
 [("type walk and marking","schema/schema.go MethodTreeShake")],
 ["schema.Types after the call"])
prop("P12","BigInt analysis finds exactly the fields that carry big integers",
 "For every struct, and for the request and response of every non-succinct method, the reported fields are exactly those whose type is the core type bigint, a list of bigint, or a struct or list of structs that directly or transitively has such a field, each reported once, in order and in the documented notation; the yes/no query agrees. The answer does not depend on declaration order and the analysis terminates on recursive types and does not modify the schema.",
 ["inputs"],"all struct reference graphs; bounded to all graphs over up to 4 structs, with methods, and long chains and cycles",
 "The one test has no cycles; memoised recursion gives wrong answers only on particular cyclic graphs visited in a particular order.",
 ["schema/helpers.go"],
 [("memoised recursion with cycle guard","schema/helpers.go")],
 ["SchemaBigIntFieldsByType","SchemaUsesBigInts"])
prop("P13","Error definitions carry their exact code, name, message and HTTP status",
 "Every accepted error has the code, name, message and HTTP status written in the schema, 400 when RIDL omits the status. An error is rejected when its code is not positive or not representable, its status is outside 400-599, its message is empty, its name does not start with an upper-case letter or starts with the reserved prefix 'webrpc' in any casing, or its code or name (ignoring case) repeats another error's, including errors brought in by imports.",
 ["inputs"],"all error lists; bounded to all statuses 0-1100, boundary codes, all pairs of positions for clashes",
 "Tests check a handful of definitions; boundaries and pairs at every distance are not sampled.",
 ["schema/error.go",R+"error_parser.go",R+"ridl.go"],
 [("syntax and number checks",R+"error_parser.go"),("validation","schema/error.go Parse")],
 ["schema.Errors","error returned"])
prop("P14","A method's errors clause refers exactly to declared errors, in order",
 "The errors listed by a method are kept exactly and in order, on that method only. The schema is accepted only if each listed name is that of an error declared in the file or visible through its imports, matched exactly; a method without a clause lists none.",
 ["inputs"],"all assignments of error lists to methods; bounded by numbers of methods and list lengths, all layouts of the clause",
 "Tests check two or three clauses with one layout.",
 [R+"error_list_parser.go",R+"service_parser.go","schema/service.go"],
 [("bar-separated list",R+"error_list_parser.go"),("reference check","schema/service.go Method.Parse")],
 ["Method.Errors","error returned"])
prop("P15","Header values: version rules, single declaration and base path normal form",
 "A schema is accepted only if its webrpc version is the supported one, if it has a version whenever it has services, and if each header is declared at most once; values are kept verbatim. An accepted base path is returned with one leading and one trailing slash added where missing and otherwise unchanged; a base path with whitespace, a query, a fragment or a URL scheme ('://'), or that is not a valid URL path, is rejected, and validating again changes nothing.",
 ["inputs","histories"],"all header combinations and all base path strings over an alphabet; bounded by length, in RIDL and JSON, and repeated validation",
 "Tests sample eleven base paths, each validated once.",
 ["schema/schema.go",R+"ridl.go",R+"definition_parser.go"],
 [("header validation and basepath normalisation","schema/schema.go Validate")],
 ["schema header fields","error returned"])
prop("P16","Enum members get the right values",
 "Every enum keeps its members in order; a member with an explicit value keeps exactly that value, and a member without one gets its zero-based position for integer enums and its own name for string enums, independently of the members around it. Enums are accepted only over string or integer types, and in JSON only with a value and without a type on every member.",
 ["inputs"],"all enums over all base types and explicit/implicit patterns; bounded by number of members",
 "Tests hold three enums; the value of a member depends on its position and on the pattern before it.",
 [R+"enum_parser.go",R+"ridl.go","schema/type.go"],
 [("implicit values",R+"ridl.go enum fields"),("validation","schema/type.go Type.Parse")],
 ["Type.Fields values","error returned"])
prop("P17","String literals arrive exactly as written",
 "A non-empty quoted string (error message, header value, enum value, metadata value, annotation value, import path) reaches the schema as exactly the text between the quotes with the escapes \\n, \\t and \\\" resolved, whatever characters it contains, including '#', '@', '//', brackets and any non-ASCII character, and it never affects anything else in the document. A string that is empty, has any other escape, or is not closed on its line is rejected.",
 ["inputs"],"all strings over all characters at each string position; bounded to every Unicode scalar singly, all short strings over the special characters, and escapes at every place",
 "Tests use plain ASCII text with two escapes.",
 [R+"lexer.go",R+"tokenizer.go",R+"parser.go",R+"parser_util.go"],
 [("string tokens and unescaping",R+"parser.go expectStringValue, "+R+"parser_util.go unescapeString")],
 ["string fields of the schema"])
prop("P18","JSON schema reading is total",
 "For any bytes given as a JSON schema, reading returns a validated schema or an error and never panics, whatever is missing, null, empty, duplicated or of the wrong type anywhere in it. A schema returned without error can be printed, hashed, re-validated, filtered, tree-shaken and analysed without a panic.",
 ["inputs"],"all JSON documents; bounded to every single and double structural mutation of seed schemas, truncations and byte edits",
 "Tests read well-formed schemas; validation dereferences optional parts that a JSON document may omit or set to null.",
 ["schema/parser.go","schema/schema.go","schema/type.go","schema/service.go","schema/error.go","schema/var_type.go"],
 [("nil checks in validation","schema/*.go Parse methods")],
 ["ParseSchemaJSON return values","process exit"])
prop("P19","Doc comments stay with the definition they document",
 "The comment lines directly above an alias, struct, field, enum member, service or method (above its annotations, for a method that has them), followed by the comment at the end of its own line, become that definition's doc comment, line by line in order, with words unchanged and lines starting '#!' left out. A comment separated from it by a blank line does not, a comment belonging to one definition never shows up on another, and comments never change anything but doc comments.",
 ["inputs"],"all placements of comments over all lines of documents; bounded to all subsets of placements within a deviation bound",
 "Tests contain two commented documents; attachment is computed from line numbers and a shared consumed-comments map, so it depends on the whole preceding text.",
 [R+"tokenizer.go",R+"parser.go",R+"enum_parser.go",R+"service_parser.go",R+"struct_parser.go",R+"type_alias_parser.go"],
 [("comment map keyed by line",R+"tokenizer.go"),("look-back",R+"parser.go parseComments")],
 ["Comments fields of the schema"],
 [dict(name="comments",meaning="line number to text, consumed once",where=R+"parser.go parser.comments")])
prop("P20","Template helpers answer truthfully about every type and version",
 "For every type used in a schema, exactly one of the template predicates core, struct, enum, alias, list and map holds and it is the right one (for a type given as text: core, list and map), the map and list accessors return the exact key, value and element types, and version comparison agrees with numeric (major, minor) order. The collection and string helpers return what their names say for every input (default and coalesce: for nil, strings, numbers and booleans), without modifying their arguments.",
 ["inputs"],"all type expressions up to a nesting depth, all pairs of versions over a range, all short collections and strings",
 "The package with these helpers has few tests and cannot even be compiled by the test run here.",
 ["gen/funcmap_types.go","gen/funcmap_flow.go","gen/funcmap_generic.go","gen/funcmap_string.go","gen/funcmap_dict.go","gen/funcmap.go"],
 [("template function map","gen/funcmap.go templateFuncMap")],
 ["output of templates run through gen.Generate"])
prop("P21","webrpc-gen does what its flags say, and fails loudly",
 "For every combination of flags other than -help and -version, webrpc-gen exits 0 and writes the generated output to the requested place exactly when the schema, flags and target are valid and the output can be written, and otherwise exits non-zero with a message on standard error and leaves an existing output file as it was; only when generated Go code cannot be formatted, the unformatted code is written, and that is reported as a failure. The output is that of the schema filtered by -service, -methodTreeShake, -match or -ignore, with -schemaVersion (or WEBRPC_SCHEMA_VERSION) applied, and every other -name=value option reaches the template verbatim. -version only prints the version, and -help only prints, on standard error, the flags and the help of the target given before it.",
 ["configurations"],"all combinations of flag values; bounded to pairs/triples of values per flag and all small option texts",
 "There is no test of the command at all.",
 ["cmd/webrpc-gen/main.go","gen/gen.go"],
 [("flag split and pipeline","cmd/webrpc-gen/main.go main, collectCliArgs, makeAnnotationsMap, writeOutfile")],
 ["exit status","stdout/stderr","output file"])
prop("P22","The template cache serves complete, current template sets",
 "Templates loaded for a remote target are the set currently published there when the cache is absent, older than an hour or a refresh is asked for and the fetch succeeds, and otherwise the cached set; a template removed upstream is gone after a refresh. If fetching fails, the cached set is used and the failure reported, or an error returned when there is none; a failure or crash at any point of refreshing never leads to serving a mixture of two sets or a partial set, and caches of different targets never mix. (One webrpc-gen at a time uses the cache.)",
 ["histories","fault_sequences","crash_points"],"all histories of publish, load, refresh, age, outage and crash operations; bounded depth, every crash point",
 "No test touches the cache; staleness and torn refreshes need histories with time and faults.",
 ["gen/template_source.go"],
 [("cache directory, timestamp and TTL","gen/template_source.go loadRemote, cacheTemplates, openCacheDir")],
 ["templates executed by gen.Generate","GenOutput.CacheRefreshErr/CacheAge"],
 [dict(name="cache dir",meaning="templates, info and timestamp on disk",where="gen/template_source.go")])
prop("P23","Code generation is deterministic and does not disturb the schema",
 "Generating twice from equal schemas, targets and options gives identical output, in the same process or another, and leaves the schema as it was apart from filling in the default base path '/rpc/' when there are services and none was given. Templates see the exact schema, its hash, target, options, generator name and version, and any template failure comes back as an error.",
 ["inputs","histories"],"all schemas of the document space, embedded and local targets, sequences of generations",
 "No test generates anything here; map iteration and shared state make nondeterminism possible that single runs cannot show.",
 ["gen/gen.go","gen/embed.go","gen/helpers.go"],
 [("Generate","gen/gen.go"),("embedded targets","gen/embed.go")],
 ["GenOutput.Code","schema after the call"])
prop("P24","Parses are independent of each other, in sequence and concurrently",
 "The result of parsing a document depends only on that document and its imports: not on what was parsed before in the same process, nor on what callers did with those results, not on parses running at the same time, and not on how the goroutines inside a parse are scheduled. Concurrent parses of separate inputs share no unsynchronised memory, none can block another, and under no schedule is a goroutine left behind.",
 ["schedules","histories"],"all schedules of the goroutines of one, two and three parses up to a delay bound; all sequences of parses up to a depth; all pairs with the first result overwritten",
 "Tests run one parse at a time under one schedule.",
 [R+"lexer.go",R+"tokenizer.go",R+"parser.go",R+"ridl.go","schema/var_type.go","schema/type.go"],
 [("channel hand-over",R+"lexer.go, "+R+"parser.go"),("no package-level mutable state","schema, schema/ridl")],
 ["schemas and errors returned under each schedule"])
prop("P25","Method signatures: streaming, succinct form, arguments and optionality",
 "A method keeps its name, argument names, types and optional marks, in order, for inputs and outputs separately, and is streaming in exactly the directions marked 'stream'. The succinct form (one struct name on each side) is accepted exactly when both sides are single struct names, and then each side is one required argument of that struct type named after the struct with its first letter in lower case; mixing succinct with ordinary form on one method is rejected.",
 ["inputs"],"all signatures up to a number of arguments per side, over all forms and flags, at every position in a service",
 "Tests list about fifteen signatures.",
 [R+"service_parser.go",R+"type_parser.go",R+"ridl.go","schema/service.go"],
 [("argument lists",R+"type_parser.go expectArgumentList"),("succinct expansion",R+"ridl.go buildArgumentsList")],
 ["Method fields of the schema"])
prop("P26","Annotations belong to exactly the method that follows them",
 "Every annotation written before a method, on one line or several, is attached to that method and to no other, with exactly its name and value (plain or quoted, or none). Repeating an annotation name on the same method is rejected, whatever lines or order they are on, as are annotations that no method follows; the same name on different methods is fine.",
 ["inputs"],"all arrangements of annotations over methods and lines; bounded by number of annotations, methods and layouts",
 "Tests show one arrangement and one duplicate.",
 [R+"service_parser.go",R+"ridl.go"],
 [("annotation buffer",R+"service_parser.go parseAnnotations"),("assembly",R+"ridl.go buildAnnotations")],
 ["Method.Annotations"])
prop("P27","Field and alias metadata is kept entry by entry, and JSON names obeyed",
 "Every metadata entry of a struct field or alias is kept on that field or alias only, with its full dotted key and value, in order, including repeated keys. A 'json' entry renames the field in JSON: the value '-' exempts it from renaming, any other value must be a valid name and must not clash, up to case, with the JSON name of another field.",
 ["inputs"],"all arrangements of metadata over fields; bounded by number of entries and fields, key shapes and values",
 "Tests hold a few entries on one field.",
 [R+"struct_parser.go",R+"type_alias_parser.go",R+"parser.go","schema/type.go"],
 [("metadata parsing",R+"parser.go expectMetadataKey/Value"),("json name checks","schema/type.go Type.Parse")],
 ["TypeExtra.Meta","error returned"])
prop("P28","Opening a schema by path finds the right file and its imports",
 "Opening a schema file by any absolute or relative path naming it, from any working directory, gives the same result as parsing its content directly, for RIDL and JSON alike, and imports resolve against the importing file's directory, including parent directories. An unknown extension, a missing file or a directory is an error, never a schema.",
 ["inputs","configurations"],"all spellings of paths over a directory tree, working directories and file kinds; bounded by depth",
 "Tests open a few fixed relative paths.",
 ["webrpc.go",R+"ridl.go"],
 [("path resolution over the root file system","webrpc.go ParseSchemaFile")],
 ["webrpc.ParseSchemaFile"])
prop("P29","The conformance tool's verdict can be relied on",
 "webrpc-test -client -url=U runs every test of the suite once against the server at U and exits 0 exactly when every exchange succeeded as the suite demands, whatever answers, refusals or broken connections come at whichever exchange; otherwise it names the failed tests on standard error and exits with an error. -waitForServer exits 0 once the server answers, after any history of failures, and with an error when it does not within -timeout. -server serves the reference API on -port until -timeout and then exits 0, or fails when the port is taken. The print flags print the suite's schema or version; an unknown command or option is an error.",
 ["inputs","faults","histories"],"all faults at all exchanges of a run, singly and in pairs, all outages, all histories of failures before readiness up to a depth",
 "Tests run the client against a healthy server only.",
 ["cmd/webrpc-test/main.go","tests/client/client.go","tests/server/server.go"],
 [("verdict and exit status","cmd/webrpc-test/main.go"),("the suite","tests/client/client.go RunTests"),("reference server","tests/server/server.go RunTestServer")],
 ["webrpc-test"])
prop("P30","References and lookups of a schema lead to the very definition",
 "In every schema that parsing returns (from RIDL with any imports, or from JSON), and still after any sequence of filtering, tree shaking, validating, hashing and analysing, the Schema of every service is the schema it is in, the Service of every method is the service it is in, inputs and outputs are marked as such, GetTypeByName and GetServiceByName find exactly the definition whose name is asked for in any letter case and nothing for every other name, and RequiredFields gives exactly the fields that are not optional, in order, leaving the type alone. Schemas that come of several parses never share these references.",
 ["inputs","histories"],"all documents, sets of files and sequences of operations; bounded by number of definitions, files, operations and names",
 "Tests look at the names of definitions, not at which object a reference leads to, and RequiredFields is tried on three types.",
 ["schema/schema.go","schema/service.go","schema/type.go",R+"ridl.go"],
 [("back references","schema/service.go Service.Parse, Method.Parse"),("lookups","schema/schema.go GetTypeByName, GetServiceByName"),("required fields","schema/type.go RequiredFields")],
 ["Service.Schema","Method.Service","MethodArgument.InputArg","WebRPCSchema.GetTypeByName","Type.RequiredFields"])
prop("P31","A syntax error is reported at the place of the text that is wrong",
 "When a RIDL document is refused for its syntax, the error gives a line and a column, counted from 1 and in characters, at which the text that it shows really ends. That place is in the line that is wrong, which is the first one if there are several, however many lines and characters of whatever kind precede it and whatever follows, with LF and CRLF line ends alike; a document that ends too early is reported at its end. An error in an imported file gives the place in that file and names the files from it up to the one that was opened, and no others.",
 ["inputs"],"all single edits of documents of every construct by texts and tokens, all truncations, all import trees; bounded by alphabets and sizes",
 "Tests only look at whether there is an error, for six texts.",
 [R+"lexer.go",R+"tokenizer.go",R+"parser.go",R+"ridl.go"],
 [("lines and columns of tokens","schema/ridl/lexer.go"),("the error's place","schema/ridl/parser.go stateError"),("the trail of imports","schema/ridl/ridl.go importError")],
 ["error of ridl.Parser.Parse"])
with open("properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
