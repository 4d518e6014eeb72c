#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line). Source of truth for the property texts.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
X="xmltree/xmltree.go";M="xmltree/marshal.go";CMP="xmltree/compare.go"
p("C01","Parsing an XML document yields a tree that mirrors the document",
 "Parsing a well-formed XML document returns a tree with exactly the document's elements in document order, each with its expanded name, its attributes (namespace declarations removed, order and values kept) and the exact bytes between its start and end tag, transcoded to UTF-8 when the document declares another supported encoding. Parsing never changes the caller's bytes, so parsing the same document twice gives the same tree. Input whose root element is missing, ill-formed, in an unknown encoding or nested beyond the library's limit gives an error, never a panic or a partial tree.",
 ["inputs"],"every XML document: any nesting, markup kind (comments, CDATA, PIs, entities), namespace declarations, declared encoding and content length",
 "Tests parse a handful of well-formed UTF-8 samples; none uses a non-UTF-8 encoding, parses one buffer twice, or compares content with the source bytes for every element.",
 [X],[("Parse",X),("Element.parse",X),("Scope.pushNS",X)],[("Element.Content","slice of the UTF-8 document between the tags",X),("Element.Scope","namespace bindings in force",X)])
p("C02","Prefix resolution follows XML namespace scoping at every element",
 "At any element, resolving a qualified name uses the innermost declaration of its prefix (the innermost default declaration when it has none), with the reserved xml and xmlns prefixes always bound, and reports an unbound prefix by returning it verbatim together with a false flag. Overriding the default namespace affects only names without a prefix, and joining two scopes searches the inner one first. Scopes behave as values: no use of one element's scope, or of a joined scope, changes what another resolves.",
 ["inputs","histories"],"all documents with nested, shadowing and un-declaring namespace declarations, all qualified names, and all sequences of join and resolve operations",
 "Tests resolve a few names in one document; shadowing, sibling interference, un-declaration and repeated joins of one scope are not exercised.",
 [X],[("Scope.Resolve, ResolveNS, ResolveDefault",X),("Scope.JoinScope",X),("Scope.pushNS",X)],[("Scope.ns","stack of (namespace, prefix) declarations, innermost last",X)])
p("C03","Turning an expanded name into a prefixed name inverts resolution",
 "For every scope and every name whose namespace is visible in that scope, the qualified name produced for it resolves, in the same scope, back to exactly that name, even where a prefix has been shadowed. A name in the default namespace is written without a prefix, and a name whose namespace cannot be found is written as its local name.",
 ["inputs"],"all sequences of nested namespace declarations (shadowed, duplicate, default, undeclared) and all names over their namespaces",
 "Tests check one or two names in a scope with no shadowing and never a namespace that is absent.",
 [X],[("Scope.Prefix",X)],[("Scope.ns","stack of (namespace, prefix) declarations",X)])
p("C04","Serialising any tree or subtree and parsing it back preserves it",
 "For any element of a parsed document, including subtrees and trees edited afterwards (attributes set, children added, removed, moved or replaced), the serialised form is a well-formed, self-contained document that parses back to the same names, attribute values, children and leaf content, and in which qualified names in attribute values still resolve as before. The indented form does the same with every line starting with the requested prefix and depth-many indents. Text interleaved between child elements is outside the guarantee, and a caller who removes an element's last child also clears its content.",
 ["inputs","histories"],"all documents and element positions, and all short sequences of tree edits before serialising",
 "Tests round-trip a few documents whole; no test serialises a subtree under shadowed prefixes, an attribute value that needs escaping, or an edited tree.",
 [M,X],[("Marshal, MarshalIndent, Encode",M),("encoder.encode, diffScope",M),("Scope.Prefix",X)],[("Element tree","names, attributes, scope, content, children",X)])
p("C05","Searches and attribute edits act on exactly the matching nodes",
 "Flatten lists every descendant exactly once in document order, and a search returns exactly the descendants that match, in that order, as references to the tree's own nodes, so that edits made through them are visible in the tree. An empty namespace argument matches any namespace in searches, attribute reads and attribute writes. Setting an attribute replaces the first match or appends exactly one new attribute, a read then returns the value set, and no other attribute or element changes.",
 ["inputs","histories"],"all tree shapes and all sequences of search, read and write operations over colliding names and namespaces",
 "Tests search one document for one name and set one attribute; identity, order, collisions between namespaces and operation sequences are not covered.",
 [X],[("SearchFunc, Search, Flatten",X),("Attr, SetAttr",X)])
p("C06","Tree equality is a side-effect-free equivalence with the documented leniency",
 "Comparing trees is reflexive, symmetric and transitive, gives true for trees that differ only in surrounding white space, order of sub-elements or choice of prefixes, and gives false when names, attributes, values, number of children or leaf content differ. Comparing never changes either tree.",
 ["inputs"],"all pairs and triples of trees, including repeated sibling names, extra attributes and names that look alike when concatenated",
 "Tests compare two or three fixed pairs in one argument order; symmetry, repeated siblings and mutation of the operands are never looked at.",
 [CMP],[("Equal, equal, equalElement",CMP),("byName",CMP)])
p("C07","A failed write is always reported when encoding a tree",
 "If the destination writer fails or accepts fewer bytes than given at any point while a tree is being encoded, the encoder returns a non-nil error. If it returns no error, the writer received exactly the same bytes as the in-memory serialisation.",
 ["fault_sequences","inputs"],"every tree and every position, kind (persistent, one-off, short) and partial length of a write failure",
 "No test supplies a failing writer.",
 [M],[("Encode",M),("encoder.encode",M),("encoder.encodeOpenTag, encodeCloseTag",M)])
p("C08","Operations on independent data never interfere",
 "Reading one parsed tree from several goroutines, or running whole parses, schema compilations and code generations side by side or one after another on independent inputs, gives each caller exactly the result it gets when run alone. No call leaves state behind that changes a later call, and no data race occurs.",
 ["schedules","histories"],"all interleavings of pairs of operations (up to the preemption bound) and all orders of calls in a process",
 "Tests run every operation once, sequentially; no interleaving or repeated use in one process with results compared to a solitary run.",
 [X,M,CMP,"xsd/parse.go","xsd/standard-schema.go","xsdgen/config.go","xsdgen/xsdgen.go","wsdl/wsdl.go"],
 [("Scope.pushNS, JoinScope",X),("tagTmpl shared template",M),("StandardSchema documents parsed on every call","xsd/standard-schema.go"),("xsd.Parse","xsd/parse.go"),("Config.GenCode","xsdgen/cli.go")])
XP="xsd/parse.go"
p("C10","Built-in type names and values correspond one to one",
 "Every built-in XML Schema type has exactly one name, unique and in the XML Schema namespace (the four pseudo-types for xml: attributes have names elsewhere); parsing that name gives the built-in back, and no other name in any namespace parses to a built-in. Every type name listed by the XML Schema specification, in any place of a schema that takes a type, resolves to that built-in, and the schema of built-in types that a parse returns has all of them.",
 ["inputs"],"all built-in values, all specification names, and near-miss names (other case, other namespace, neighbours)",
 "Tests use a few built-ins incidentally; the table is never enumerated.",
 ["xsd/builtin.go","xsd/builtin_string.go"],[("ParseBuiltin","xsd/builtin.go"),("Builtin.Name, Builtin.String","xsd/builtin_string.go")])
p("C11","Schema normalisation yields an equivalent canonical form",
 "Normalising any valid schema returns a schema in which every type is named and top level, every reference (element, attribute, group, attribute group) is replaced by what it denotes, no group definitions are used any more, elements and attributes carry explicit types, and choice alternatives are optional, with nothing else lost or changed. Normalising never alters its input documents, and normalising the serialised result again changes nothing that the schema means. The program xsdparse prints that form of the schemas in its files.",
 ["inputs","programs"],"all valid schemas in the supported subset, in one or several documents",
 "Tests compare a few hand-made documents; combinations of nesting, references and groups are unbounded.",
 [XP,"xsd/search.go"],[("Normalize",XP),("flattenRef, deref",XP),("nameAnonymousTypes, copyEltNamesToAnonTypes",XP),("unpackGroups",XP),("flattenOccurs",XP),("expandComplexShorthand",XP),("main","cmd/xsdparse/xsdparse.go")])
p("C12","Complex types are recorded exactly as the schema declares them",
 "For every complex type, the parsed schema lists its own elements and attributes in declaration order (inherited ones are reached through its base) with their names, types, defaults, optionality, plurality, nillability and documentation, at most one wildcard in any position, and records its base, whether it is an extension, and its abstract and mixed flags (mixedness inherited by extension), as declared. Top-level elements appear the same way in the document type, and types can be found by name.",
 ["inputs","programs"],"all complex type definitions over content models, occurrence bounds, attribute uses and derivations",
 "Tests parse about a dozen fixed schemas and mostly only check that no error occurs.",
 [XP,"xsd/xsd.go"],[("parseComplexType, parseSimpleContent, parseComplexContent",XP),("parseElement, parseAttribute, parseAnyElement",XP),("parseSelfType",XP),("propagateMixedAttr",XP)],[("Schema.Types","types by name","xsd/xsd.go")])
p("C13","Simple types and their facets are recorded exactly as declared",
 "For every simple type, the parsed schema records its base, whether it is a list or a union and of which members, and the value of each facet (enumeration in order, pattern, lengths, bounds, digits) as declared. A length, digits, bound or date facet whose value is malformed is reported as an error rather than silently dropped; a pattern that cannot be compiled is noted in the documentation.",
 ["inputs","programs"],"all simple type definitions: derivation kinds, facet combinations and facet values",
 "Tests cover one restriction at a time with one value.",
 [XP,"xsd/xsd.go"],[("parseSimpleType",XP),("parseSimpleRestriction",XP),("parseMinMaxRestriction",XP),("parsePattern",XP)])
p("C14","Schema meaning does not depend on how the schema is written down",
 "Two schemas that differ only in presentation (prefix choice, default namespace, order of top-level components, named versus in-line group or reference, splitting into several documents, white space, comments or XML encoding) parse to the same types. Parsing is a function of its inputs: repeated runs give the same result.",
 ["inputs","programs","configurations"],"all schemas and all combinations of meaning-preserving rewrites, and every map iteration order",
 "Each test schema exists in one presentation only.",
 [XP,"xsd/index.go"],[("Normalize, Parse",XP),("indexSchema, elementKey","xsd/index.go"),("resolvePartialTypes",XP)])
p("C15","Every type reference is resolved or reported, and parsing always ends",
 "After a successful parse every type reference (base, element, attribute, list item, union member), in any document and in any order of definition including mutual recursion, leads to the definition with that name or to a built-in; otherwise parsing returns an error. On any input, valid or not, parsing terminates without a panic.",
 ["inputs","programs"],"all reference graphs over a few types (forward, backward, self, mutual, cross-namespace, dangling, circular) and single-point corruptions of valid schemas",
 "Tests include one dangling reference at most, and no circular or malformed schemas.",
 [XP,"xsd/walk.go","xsd/xsd.go"],[("resolvePartialTypes, lookupType",XP),("catchParseError, stop","xsd/walk.go"),("checkDerivation",XP),("FindType","xsd/xsd.go")])
p("C16","The list of imports is exactly what the documents import",
 "Listing the imports of a schema or service document returns one entry per import or include element, imports and includes each in document order, with its namespace (for an include, the target namespace of the including schema) and location, and nothing else; malformed documents give an error.",
 ["inputs"],"all documents holding import, include and look-alike elements in any position, with or without location",
 "Tests use one document.",
 [XP],[("Imports",XP)])
G="xsdgen/xsdgen.go";C="xsdgen/config.go";CLI="xsdgen/cli.go"
p("C20","Generated Go source always compiles",
 "For every valid schema in the supported subset and every option set, the generated source is correctly formatted Go that compiles on its own, whatever element, attribute, type, value and documentation text the schema uses. Names that collide after conversion to Go identifiers are kept apart.",
 ["inputs","programs","configurations"],"all schemas over the built-in types, derivations, plural, optional and default combinations, and names that collide with each other, with Go keywords, with predeclared names or with generated helpers",
 "Tests generate from a fixed set of schemas and mostly never compile the output.",
 [G,C,CLI,"internal/gen/gen.go"],[("Config.gen, Code.GenAST",G),("genComplexType, nameGenerator",G),("genSimpleListSpec",G),("addStandardHelpers",C),("FormattedSource","internal/gen/gen.go")])
p("C21","Generated declarations are complete and carry the schema's XML names",
 "Every type of the requested namespaces that is not filtered out has exactly one generated Go declaration (a simple type that adds nothing to a built-in, or a complex type that adds nothing to its simple content, is represented by the Go type of that), and each of its element and attribute declarations, inherited ones included, appears exactly once as a field whose tag has the XML local name, for elements the namespace, and the kind, whose Go type matches the declared type, which is a slice when the element may repeat, and which, unless it is a slice, is omitted when empty if it is optional or nillable. Documentation of types reaches the generated comments, and every identifier referred to is declared.",
 ["inputs","programs"],"all schemas in the supported subset",
 "Tests only check that generation succeeds or compare a few samples.",
 [G,C],[("Config.gen, flatten, flatten1, expandComplexTypes",G),("genComplexType",G),("mergeAttributes",G),("NameOf, public",C)])
p("C22","Values survive a trip through the generated code",
 "Decoding a document that is valid against the schema with the generated types gives the values of the document: every element, attribute and text value is found in its field, whatever permitted lexical form, markup and order of alternatives it is written in, as long as the Go type can represent it. Encoding that by way of a pointer gives a document with the same values under the same names, in the order of repeated elements of one name and, where every element name has one place in a sequence, with the elements in the order of that sequence (inherited ones first), and decoding that gives the same values again. (Zero values of optional or nillable parts may appear or disappear; elements that match a wildcard are kept in number, order and text but not in name; nothing is promised for mixed text, nor for the order between elements of different names where names repeat, whole groups repeat or the order is free.)",
 ["inputs","programs"],"all built-in types, lists, binary types, dates, defaults, plural and optional fields, and boundary values of each, and all choices of alternatives, repetition and presence in content models",
 "Tests round-trip a few samples for some types; the product of type, multiplicity, position and lexical form is not covered.",
 [G,C],[("genSimpleListSpec",G),("genComplexTypeMethods",G),("addStandardHelpers",C),("soapArrayToSlice",C)])
p("C23","Generation is deterministic",
 "Generating from the same documents with the same options gives byte-for-byte the same source every time, in any process, for any iteration order of internal tables and whatever the same Config was used for before. The order in which documents are supplied does not change the declarations, apart from the names that have to be made up for types that have none.",
 ["inputs","configurations","histories"],"all map iteration orders during generation, all orders of input documents and all short histories of runs of one Config, over schemas with several types, namespaces and dependencies",
 "A test run sees one or two random map orders of one schema and compares nothing.",
 [G,C,CLI],[("Config.gen",G),("flatten, dedup",G),("Code.GenAST",G),("Config.GenCode",CLI)],[("Code.decls","declarations by name",G),("Schema.Types","types by name","xsd/xsd.go")])
p("C24","Generator options have exactly their documented effect and can be undone",
 "Each option (ignored attributes or elements, type selection and allowed types, name replacement, namespaces, package name, field names for anonymous types, SOAP arrays as slices) changes exactly what it documents and nothing else. Applying an option returns an option that restores the previous behaviour, and options applied in sequence compose.",
 ["inputs","configurations","histories"],"all short sequences of applying and reverting options over schemas whose names match several options",
 "Tests apply single options and hardly ever the returned inverse.",
 [C,G],[("Config.Option",C),("IgnoreAttributes, IgnoreElements",C),("OnlyTypes, AllowType",C),("Replace, replaceAllNamesRegex",C),("UseFieldNames, SOAPArrayAsSlice",C)])
p("C25","The command-line generators honour their flags and report unreadable input",
 "Given files and flags, the generators write exactly the source that the same documents and options give through the library, to the named output with the requested package name. With import following, every document reachable through imports is read exactly once, relative to the documents naming it, whatever the shape of the import graph. If a source file or a followed import cannot be read or parsed, an error is returned and no output is written.",
 ["inputs","configurations","fault_sequences"],"all flag combinations, all import graphs over a few files (chains, diamonds, cycles, missing locations) and every missing or malformed file",
 "Tests call the library entry points with existing files; cycles, missing files and flags are not exercised.",
 [CLI,"wsdlgen/cli.go","cmd/xsdgen/xsdgen.go","cmd/wsdlgen/wsdlgen.go"],[("Config.GenCLI",CLI),("Config.readFiles",CLI),("Config.GenAST, GenSource",CLI),("Config.GenCLI","wsdlgen/cli.go")])
W="wsdl/wsdl.go";WG="wsdlgen/wsdlgen.go"
p("C30","A service description is read exactly as written",
 "Parsing a WSDL document returns its target namespace and documentation, every message with its parts in order (each with its name and its type or element), and every port with its address and its operations, where each operation has the SOAP action, HTTP method, style, body namespace, and input and output messages that its binding and port type give it. Prefix choice, order of definitions and unrelated extension elements make no difference.",
 ["inputs","programs"],"all combinations of services, ports, bindings, port types, operations, messages and parts within small counts, with SOAP and HTTP bindings",
 "Tests parse sample files and log the result without comparing it.",
 [W],[("Parse",W),("parseMessages",W),("parsePorts",W),("parseMethod",W),("parseOperations",W)])
p("C31","A generated client compiles and has the promised methods",
 "For every service description, the generated package compiles and has one method for each operation of each selected port, whose parameters and results correspond in number, order and Go type to the parts of the input and output messages, or are gathered in a struct beyond the configured threshold. Port selection, package name, comments and thresholds act exactly as documented and can be undone. A description that refers to a message, element or type that is not there is refused.",
 ["inputs","programs","configurations"],"all descriptions with a few operations and zero to several parts each, all threshold values around the part counts, all port selections",
 "Tests generate from two files and do not inspect the methods; port selection and thresholds are never set.",
 [WG,"wsdlgen/config.go","wsdlgen/helper.go"],[("genAST, port, operation, opArgs",WG),("OnlyPorts, InputThreshold, OutputThreshold","wsdlgen/config.go")])
p("C32","A generated client speaks the described protocol",
 "Calling a generated method sends one request to the port's address with the operation's HTTP method and SOAP action, whose body is a SOAP envelope holding the input elements with their names, namespaces and values, and the values in a successful reply are returned to the caller. A fault, a non-success status, a reply that is cut off, malformed or not the described one, a value that its type does not allow or a transport failure gives a non-nil error, never a zero result without one. The hooks of a client see that request, with the context of the call, and that response, and what they return takes its place; the body of the response is closed. Calls that share a client, in sequence or at once, do not affect each other. Redirects, empty elements of numeric types and parts that an RPC reply leaves out are not covered.",
 ["inputs","programs","fault_sequences"],"all argument and result shapes within the supported styles and all classes of server and transport behaviour, hooks, histories of calls and schedules of two calls",
 "No test runs a generated client.",
 [WG,"wsdlgen/helper.go"],[("operation template",WG),("addHelpers","wsdlgen/helper.go")])
p("C40","Dependencies are always visited before their dependents",
 "Walking a dependency graph visits every node that was added, as target or dependency, exactly once, each after all nodes it depends on when there is no cycle, and it terminates with every node visited even when there is one. The order does not depend on anything but the edges added.",
 ["inputs","configurations"],"all directed graphs over a few nodes, all insertion orders and all map iteration orders",
 "The test checks one graph.",
 ["internal/dependency/graph.go"],[("Graph.Add","internal/dependency/graph.go"),("Graph.Flatten","internal/dependency/graph.go")])
p("C41","Arbitrary text embeds safely in generated source",
 "A string literal built for any text evaluates to exactly that text, a comment built for any text yields only comments, and a name that is a Go keyword is turned into a legal identifier while every other name is left alone. Function, struct and constant builders produce the declaration described by their arguments.",
 ["inputs"],"all strings over an alphabet of quotes, back-quotes, backslashes, line breaks, comment markers, control, invalid and non-ASCII characters up to a length bound",
 "Tests use ordinary words.",
 ["internal/gen/gen.go"],[("String","internal/gen/gen.go"),("CommentGroup, PackageDoc","internal/gen/gen.go"),("Sanitize, Public","internal/gen/gen.go"),("Func, Struct","internal/gen/gen.go")])
p("C42","Repeatable command-line flags accumulate exactly what was given",
 "A rewrite rule given on the command line is split into exactly its pattern and replacement, rules and repeated string flags accumulate in the order given, a malformed rule is refused and leaves the earlier ones intact, and the flag's printed form reflects what was given.",
 ["inputs","histories"],"all argument strings over a small alphabet including separators, and all short sequences of flags",
 "Only one well-formed rule is tried, if any.",
 ["internal/commandline/cli.go"],[("ReplaceRuleList.Set, String","internal/commandline/cli.go"),("Strings.Set","internal/commandline/cli.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
