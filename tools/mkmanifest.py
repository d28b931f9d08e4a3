#!/usr/bin/env python3
# Source of MANIFEST.json: run from /verif to regenerate it.
import json
T="exhaustive bounded exploration of the real code (stateless model checking): "
checks={
"P01":(T+"all token sequences, edits and truncations up to a bound, under crash, hang and leak monitors",
  "Every RIDL text inside the stated bounds was fed to the real parser: token sequences in every parser state, every truncation and single byte edit of seed documents, size sweeps. Trusts the Go runtime's goroutine count and a 40 s hang limit."),
"P02":(T+"all bounded compositions of definitions against a reference schema model",
  "Every document of up to 4 (thorough 5) definitions out of a menu of every construct, size sweeps, stray text at every place; the complete resulting schema is compared with an independent reference model (harness/core/model.go), which is trusted."),
"P03":(T+"all layouts within a deviation bound, all interleavings of definitions",
  "Every layout of a set of documents that differs from the default at up to 2 (thorough 3) places or uniformly by kind of place, every order of definitions; compared with the reference schema, which is trusted."),
"P04":(T+"all names over an alphabet at every place a name can stand, all pairs that clash up to case",
  "Every short name over an alphabet of ASCII and other characters at every place, and every pair of equal-up-to-case names at every pair of places, in RIDL and JSON; the reference decides acceptance."),
"P05":(T+"all type expressions up to a size at every place, all orders of declarations",
  "Every type expression up to a depth over core types, declared and undeclared names, every edit of it, at every place a type can stand, in RIDL and JSON; the resolved structure is compared with the reference, which is trusted."),
"P06":(T+"all bounded documents and JSON forms through RIDL, JSON and back",
  "Round trips of every document of a bounded space (definitions, characters, malformed edits); compared with the reference and with the schema itself."),
"P07":(T+"all bounded documents, all single edits, several processes",
  "The hash of every document of the bounded space, of every layout and order within a deviation bound and of every single edit; equal schemas must hash equally, different ones differently."),
"P08":(T+"all import graphs up to a size, all member lists, all path spellings",
  "Every import graph on up to 4 files (thorough 5), every order and member list within the bound; the resulting schema is compared with a reference of visibility, which is trusted."),
"P09":(T+"all fault points of all import graphs up to a size",
  "Every read and open of every file of every import graph up to the bound fails in turn (fault injection through fs.FS), and every kind of bad content at every file; error, trail and recovery are checked."),
"P10":(T+"all filter option sequences on all bounded documents",
  "Every sequence of filter options up to a bound on every document of a bounded space of services, methods and annotations; the filtered schema is compared with a reference filter, which is trusted, and the original must stay as it was."),
"P11":(T+"all reference graphs between types up to a size, through every kind of reference",
  "Every graph of references (by field, list, map key and value, alias, method argument, succinct method) up to a size; the result is compared with reference reachability, which is trusted."),
"P12":(T+"all type expressions and placements of bigint up to a size",
  "Every placement of bigint and of other types within the bound (nesting, aliases, lists, maps, several services); compared with a reference analysis, which is trusted."),
"P13":(T+"all sequences of error definitions over a domain of codes, names, messages and HTTP statuses",
  "Every sequence of error definitions within the bound in RIDL and JSON; compared with the reference, which is trusted."),
"P14":(T+"all errors clauses over declared, undeclared and repeated names, on all method forms",
  "Every list of errors up to a bound on every form of method, in RIDL and JSON; compared with the reference, which is trusted."),
"P15":(T+"all sequences of header definitions up to a length over all keys and values",
  "Every sequence of header lines within the bound at every position, RIDL and JSON, and every short base path over an alphabet; compared with the reference, which is trusted."),
"P16":(T+"all enums up to a size over all base types, member names and values",
  "Every enum within the bound, in RIDL and JSON; compared with the reference, which is trusted."),
"P17":(T+"all strings over an alphabet up to a length, at every place a literal can stand",
  "Every string and every quoting within the bound at every place; compared with a reference reading of literals, which is trusted."),
"P18":(T+"all structural edits of JSON schemas up to two, all JSON token sequences up to a length, under a crash monitor",
  "Every JSON text inside the stated bounds was read by the real code: single and double structural edits of seed schemas, byte edits, truncations, token sequences, size sweeps; accepted schemas must satisfy independent validity rules and survive every operation."),
"P19":(T+"all placements of comments around the lines of documents within a deviation bound",
  "Every combination of comments (above, beside, separated, hidden) at up to 2 places of a document with every construct, with sweeps of texts, gaps, counts and sequences; compared with a reference of which comment belongs where, which is trusted."),
"P20":(T+"all types, versions, strings and short collections through every template helper",
  "Every template helper on every value of a bounded domain, run by gen.Generate from real template files; compared with reference functions, which are trusted. gen-golang and gen-typescript, which are not on this machine, and the git file system are stand-ins (/verif/stubs)."),
"P21":(T+"all combinations and sequences of flags up to a size on the real command",
  "Every command line within the bound is run as a process in a scratch directory; exit status, outputs and all files are compared with what the arguments ask for. gen-golang, gen-typescript and the git file system are stand-ins (/verif/stubs)."),
"P22":(T+"all histories of publishing, outage, time and loads; all file-operation faults and crash points, with torn writes",
  "The real code on a hooked standard library (clock and file system calls): every history within the bound, every file operation of a load failing or being the last in turn, every follow-up load. One process at a time; a crash ends the process, not the machine. The git file system is a stand-in (/verif/stubs/gitfs)."),
"P23":(T+"all bounded documents and histories of generations, in one process and in others",
  "Every schema of the bounded space through embedded and local targets, repeated in one and several processes, all histories of generations up to a depth. gen-golang and gen-typescript are stand-ins (/verif/stubs); the javascript, kotlin, dart and openapi templates are real."),
"P24":(T+"all schedules of one to three parses up to a delay bound under a controlled scheduler and the race detector, all sequences of parses up to a depth",
  "Stateless exploration of the real code, rewritten at build time so that goroutines, channels and locks go through a controlled scheduler; every schedule within the delay bound, judged by the result of a fresh process and by the race detector, which sees the code's own synchronisation only. All sequences of parses up to a depth. Interleavings finer than synchronising operations are left to the race detector."),
"P25":(T+"all method signatures up to a number of arguments, all malformed mixtures of forms",
  "Every pair of argument lists within the bound, on every form and streaming, alone and between other methods, RIDL and JSON; compared with the reference, which is trusted."),
"P26":(T+"all arrangements of annotations over methods, lines and services up to a size",
  "Every arrangement within the bound, with repeated names at every distance and annotations without a method; compared with the reference, which is trusted."),
"P27":(T+"all arrangements of metadata over fields and aliases up to a size, all JSON name clashes",
  "Every sequence of entries and every struct of fields with JSON names within the bound, RIDL and JSON; compared with the reference, which is trusted."),
"P28":(T+"all spellings of paths through a real directory tree, all histories of file changes and opens up to a depth",
  "Every spelling of a path up to a number of components from every directory of a tree, every kind of file and non-file, every history of changes within the bound, on the real file system; compared with the reference, which is trusted."),
"P29":(T+"all single faults and pairs of faults over the exchanges of a run, all outages, all histories of failures before readiness up to a depth",
  "The real binary runs against a peer that answers as the reference server does, except where the execution says otherwise; every fault of the alphabet at every exchange. Real time is used for deadlines, with no upper margin below 20 s. The code under tests/ runs as shipped; only what cmd/webrpc-test makes of it is specified independently."),
"P30":(T+"all bounded documents, import graphs and histories of operations, every reference checked by identity and every lookup by all spellings of near names",
  "Every document of up to 3 (thorough 4) definitions, every acyclic import graph of 4 (5) files, every sequence of 3 (4) operations out of 27, every set of near names; references are compared by identity, lookups with the list of definitions itself."),
"P31":(T+"all bounded edits of a document of every construct: texts and tokens at every place, truncations, missing and moved lines, pairs of wrong lines, far and wide places, import trees",
  "Every single edit within the alphabets at every character or token of a document of every construct, every truncation, every pair of wrong lines, every import tree of 5 (7) files; the place is compared with that of the edit and with the text that stands there. Errors without a place are taken to be about names or types."),
}
pending={f"P{i:02}":"the check is still being built" for i in range(1,32)}
for k in checks: pending.pop(k)
m={"version":1,"setup_cmd":"bin/setup","checks":[
 {"property":k,"quick_cmd":f"bin/check {k} quick","thorough_cmd":f"bin/check {k} thorough",
  "evidence_file":f"evidence/{k}.json","technique":t,"level":"model_checking","level_note":n} for k,(t,n) in sorted(checks.items())],
 "not_applicable":[{"property":k,"reason":r} for k,r in sorted(pending.items())],
 "notes":"bin/check builds the harness from /repo's working tree on every run; see DESIGN.md."}
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
