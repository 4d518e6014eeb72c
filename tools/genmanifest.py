#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of checks below.
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
TRUST=" Trusts the Go toolchain and encoding/xml, and the reference model written in /verif/harness; nothing is claimed beyond the alphabets and bounds reported in the evidence."
T={
"C01":("exhaustive enumeration of bounded documents and byte-level corruptions against a constructive reference model, on the real parser","All documents within the bound (shapes up to 3-4 elements, up to 4-5 deviations; all encodings; all truncation points) were parsed and compared node by node with the model."),
"C02":("exhaustive enumeration of scope chains and join histories against a reference model","Every declaration assignment to the bounded chains and every join history up to 3-4 operations was executed."),
"C03":("exhaustive enumeration of scope chains against a reference model of namespace scoping","Every declaration assignment to the bounded chains with every name of the alphabet."),
"C04":("bounded model checking of edit histories followed by serialisation, on the real code","All bounded documents, sub-elements and edit histories (up to 2 edits) within the deviation bound."),
"C05":("bounded model checking of read/write histories against a list model","All bounded trees and all write histories up to 3-4 operations within the deviation bound."),
"C06":("exhaustive pairwise comparison over a finite universe of trees against canonical forms","All ordered pairs of the universe and all single-point mutations of generated trees."),
"C07":("exhaustive fault enumeration: every write call and every byte position fails","All bounded trees with every fault position, in four fault kinds, and writers with other methods."),
"C08":("stateless exploration of the real code under a controlled scheduler with a switch point before every statement (up to two switches), with happens-before race detection on every schedule, and exhaustive enumeration of histories of calls in new processes, against the result of each operation alone","44 operations. All 1936 histories of two calls (85184 of three), all pairs without a switch, all pairs in xmltree and every statement of the other packages with one switch (two in the thorough tier)."),
"C10":("exhaustive enumeration of all built-in values, specification names, near-miss names and schema positions","Complete for the stated alphabet: every value, every one-edit neighbour of every name, every position."),
"C11":("bounded exhaustive enumeration of abstract schemas and their presentations against a reference model; the promised form is checked on every resulting tree","Content models of up to 3-4 particles, up to 3-4 deviations."),
"C12":("bounded exhaustive enumeration of abstract schemas against a reference model of what must be recorded, on the real parser","All schemas of the generator within the deviation bounds."),
"C13":("bounded exhaustive enumeration of simple type definitions and facet values against a reference model, on the real parser","All definitions of the generator within the deviation bounds."),
"C14":("bounded exhaustive enumeration of presentations of the same abstract schema, and of map iteration orders through an instrumented build","Every combination of up to 3-4 presentation features; every map order at the first 6-10 ranges."),
"C15":("exhaustive enumeration of type and reference graphs, of documents over the schema vocabulary and of mutations, with termination watched by processor time","All graphs of 3 (4) types; all vocabulary documents up to 3-4 elements; all single (thorough: double) mutations of 8 schema sets; chains and rings of up to 130 (900) references."),
"C20":("bounded exhaustive enumeration of abstract schemas, names, texts and option sets; every generated source goes through the Go compiler's front end","All schemas of ten generators (built-in types × ways to use them, content models, derivations, recursion, colliding names, texts, in-line types, SOAP arrays, bundled schemas) within the deviation bounds."),
"C21":("bounded exhaustive enumeration of abstract schemas and option sets; the type-checked declarations are compared with a reference model of the schema","The same generators as C20; every declaration, field, tag and Go type is compared."),
"C22":("bounded exhaustive enumeration of abstract schemas and of documents valid against them, run through the compiled generated types; values are compared with those of the document in the value space of XML Schema","Packages generated from about 2,000 enumerated schemas (built-in types × ways to use them, pairs of fields, names, content models, derivations, recursion, in-line types, SOAP arrays) are compiled into one server process; all documents within the deviation bound are decoded, encoded and decoded again."),
"C23":("exhaustive enumeration of map iteration orders (controlled through an instrumented build), document orders and histories of runs, each compared byte for byte with a reference run","Every order of every range over a map in the generator (one at a time, thorough two at a time; all reversed and rotated together) over seven sets of interdependent documents × five option sets and over the enumerated schemas of C20; every order of documents; every sequence of up to 3 (4) runs of one Config."),
"C24":("exhaustive enumeration of histories of applying and undoing options against a new configuration, and of options × abstract schemas against a reference model","All sequences of up to 3 (4) applications and undoings over 19 options; every option with every name, pair of names and absent name of the enumerated schemas, compared with the reference model of the schema under that option and with the source without it; SOAP array options over all built-in types."),
"C25":("exhaustive enumeration of import graphs, command lines, files and faults through the real entry points and programs, against the library on the same documents","All import graphs over 2 and 3 (4) files with several layouts, ways of locating and naming files and repetitions; all combinations of up to 3 (4) choices of flags, spellings, files and options set before; every kind of fault and every cut of every file, in every place; the programs themselves; sets of up to 65 (257) files."),
"C30":("exhaustive enumeration of bounded service descriptions, notations, orders and damages against the abstract description they were written from","All shapes of references among up to 2 services, ports, bindings, port types, operations and messages; all orders of 7 definitions; all descriptions within 3 (4) deviations; every cut and damage of a document; up to 130 (1030) of everything."),
"C31":("exhaustive enumeration of bounded service descriptions and configurations through the real generator, type-checked by the Go front end and compared with the abstract description","Every type of part in eight shapes, all part counts to 4 against all thresholds to 5, all selections of up to 3 ports, every two names of parts from 49, names of messages, operations and schema types, all histories of 2 (3) options and undos; up to 65 (257) operations, parts, ports, services and schemas."),
"C32":("exhaustive enumeration of calls and scripted server behaviours (every cut-off point, every status, every fault notation, every kind of transport failure) against the real generated clients, compiled and run over in-memory connections, compared with the described protocol","14 generated clients with 247 methods; all combinations of hooks; all histories of 2 (3) calls with one client, and two calls at once under all schedules of up to 2 (4) switches; all single arguments and results, all deviations from the usual call and reply up to 2 (4), all cut-off points of replies and headers, all statuses 300-599."),
"C40":("exhaustive enumeration of graphs, insertion orders and map iteration orders (controlled through an instrumented build) against the definition of a dependency order","All graphs with up to 4-5 edges over 3-4 vertices in every insertion order; every map iteration order."),
"C41":("exhaustive enumeration of strings over an adversarial alphabet and of bounded builder arguments, decided by the Go compiler's front end","All strings of up to 3-4 of 23 pieces, all single bytes, all builder calls in the bounds; up to 130 (5000) parts."),
"C42":("exhaustive enumeration of flag arguments and histories of Set calls against a list model","All arguments of up to 5-6 pieces, all histories of up to 4-5 flags; up to 1030 flags."),
"C16":("exhaustive enumeration of bounded documents of imports and look-alikes against the list made along with them","All documents with up to 3-4 items within the deviation bound; all truncations."),
}
exec(open(os.path.join(root,"tools","manifest_more.py")).read()) if os.path.exists(os.path.join(root,"tools","manifest_more.py")) else None
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
NA=globals().get("NA",{})
m=dict(version=1,
 setup_cmd="sh ./setup.sh",
 checks=[dict(property=i,quick_cmd="VERIF_TIER=quick ./check.sh "+i,thorough_cmd="VERIF_TIER=thorough ./check.sh "+i,
   technique=T[i][0],level="model_checking",level_note=T[i][1]+TRUST,evidence_file="evidence/%s.json"%i) for i in ids if i in T],
 not_applicable=[dict(property=i,reason=NA.get(i,"check not built yet")) for i in ids if i not in T],
 notes="One binary per package family is built from /repo's working tree by check.sh; see DESIGN.md.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
