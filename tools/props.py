X = "xmltree/xmltree.go"
prop("C01", "Qualified names resolve by XML namespace scoping",
 "Resolving a prefixed name in any element's scope gives the namespace of the innermost declaration of that prefix that encloses the element, the default namespace when the name has no prefix, and reports failure (with the name left usable) exactly when the prefix is undeclared. The resolution of a default-namespace-aware lookup prefers a declared prefix and otherwise falls back on the given namespace.",
 ["inputs"], "every chain of namespace declarations and every qualified-name string, prefixes shadowed or cleared at any depth included",
 "The tests resolve a handful of names in two documents; shadowing, undeclared and cleared prefixes at arbitrary depth are never met.",
 [X], [("Scope.ResolveNS, Scope.Resolve, Scope.ResolveDefault", X), ("Element.ResolveNS/Resolve through the embedded Scope", X)],
 note="All of Scope.ResolveNS, Resolve, ResolveDefault and splitName proved for every scope and name.", observe=["Scope.ResolveNS", "Scope.Resolve", "Scope.ResolveDefault"])
prop("C02", "The prefix chosen for a name resolves back to that name",
 "The qualified form that a scope gives an expanded name resolves, in that same scope, back to the same namespace and local part whenever the namespace is the default one or has a prefix in force; a prefix that an inner declaration has taken over is never used.",
 ["inputs"], "every scope (any nesting of declarations, shadowing included) and every expanded name",
 "Tests use one prefix per namespace; the guarantee quantifies over all shadowings, where the last matching entry need not be the one in force.",
 [X], [("Scope.Prefix, Scope.inForce", X), ("Scope.ResolveNS", X)],
 note="Prefix proved against the same innermost-declaration specification that C01 proves for ResolveNS.", observe=["Scope.Prefix"])
prop("C03", "Every element captures exactly its scope; joining leaves others alone",
 "After parsing, each element's scope lists the declarations of its ancestors followed by its own and nothing else, and no two elements' scopes interfere: extending, joining or parsing one never changes what any prefix means in another. Joining two scopes gives a scope in which the inner one's declarations take precedence and all others keep the outer one's meaning.",
 ["inputs", "histories"], "every document and every sequence of joins on its elements, whatever spare capacity the underlying storage happens to have",
 "Interference needs siblings that share backing storage with spare capacity; the tests read one scope at a time and never write after sharing.",
 [X], [("Scope.pushNS", X), ("Scope.JoinScope", X), ("Element.parse", X)],
 note="pushNS, JoinScope and Element.parse proved, with frame conditions on the arrays behind every existing scope.", observe=["Element.Scope", "Scope.JoinScope"])
prop("C04", "Searching a tree finds exactly the matching elements, in document order",
 "Searching from an element returns pointers to exactly those of its descendants that satisfy the criterion, each once, in document order, never the starting element itself and never copies; searching by name matches the local name and, when one is given, the namespace; flattening returns every descendant.",
 ["inputs"], "every acyclic tree and every criterion",
 "Tests count results for a few names in one document; order, identity and completeness for arbitrary shapes and nested matches are not sampled.",
 [X], [("Element.SearchFunc, Search, Flatten, walk", X)],
 note="Proved for every acyclic tree by a recursive specification of the pre-order listing; the predicate is assumed to be a function of its element.", observe=["Element.Search", "Element.SearchFunc", "Element.Flatten"])
prop("C05", "Attribute lookup and update obey read-over-write",
 "Looking an attribute up returns the value of the first attribute whose local name matches and whose namespace matches when one is asked for, and the empty string when there is none; setting one makes exactly that lookup return the new value, changes no other attribute, adds at most one and keeps the order.",
 ["inputs", "histories"], "every attribute list and every sequence of sets and lookups",
 "The tests set one attribute; interplay of equal local names in different namespaces and repeated sets need the general law.",
 [X], [("Element.Attr, Element.SetAttr", X)],
 note="Attr and SetAttr proved for every attribute list, frames included.", observe=["Element.Attr", "Element.SetAttr"])
prop("C06", "Encoding reports every write failure",
 "When any write to the destination fails while a tree is encoded, the encoder returns a non-nil error, whichever write it was; when none fails and the tree is encodable, it returns nil.",
 ["fault_sequences", "inputs"], "every tree and every position at which the destination starts to fail",
 "No test uses a failing writer; each of the many write sites in the recursion must hand its error up.",
 ["xmltree/marshal.go"], [("Encode, encoder.encode, encodeOpenTag, encodeCloseTag", "xmltree/marshal.go")],
 note="Ghost state records any failed write below; every function on the path proved to return an error if it is set. text/template's Execute is assumed to return its writer's errors.", observe=["Encode"])
prop("C07", "Marshalled trees are well formed and parse back to the same tree",
 "Serialising a tree, whether it came from parsing or had attributes set on it since, produces well-formed XML which parses back to an equal tree: every namespace in use is declared exactly where it is needed and once per tag, every open tag is closed by its own name, and attribute values and namespace names are escaped where markup reserves their characters.",
 ["inputs"], "every parsed tree, every attribute value and namespace URI that XML can carry, every subtree as the starting point",
 "Tests round-trip a few well-behaved files; quotes and ampersands in values, shadowed prefixes and subtrees detached from their declarations are not among them.",
 ["xmltree/marshal.go"], [("encoder.encode, diffScope, withoutOverrides, attrName", "xmltree/marshal.go"), ("Scope.Prefix", X)],
 note="Proved: declarations written are exactly those that make every prefix mean what the element's scope says, once each (diffScope, withoutOverrides); attribute names written resolve back (attrName); tags balance (encode). The bytes text/template produces, and hence the composed round trip, are covered by the bounded harness only.", observe=["Marshal", "MarshalIndent", "Encode"])
prop("C08", "Tree equality is symmetric, sees every difference, and mutates nothing",
 "Two trees compare equal exactly when they have the same element name, the same attributes in any order and apart from namespace declarations, children that are equal one to one when siblings may be reordered, and, at leaves, the same text modulo surrounding whitespace. The answer is the same with the arguments swapped, and comparing leaves both trees as they were.",
 ["inputs"], "every pair of acyclic trees with distinct attribute names per element, siblings and attributes reordered in any way",
 "Tests compare a few documents; one-sided attributes, repeated equal siblings, text differences deep down and mutation of the arguments' order go unsampled.",
 ["xmltree/compare.go"], [("Equal, equal, equalElement, hasAttrs", "xmltree/compare.go")],
 note="hasAttrs, equalElement, equal and Equal proved: exact on names, attributes and leaves, necessary conditions at inner nodes, and both arguments' trees unchanged; completeness and symmetry at inner nodes by the bounded harness.", observe=["Equal"])
prop("C09", "Parsing yields the exact tree, content and offsets, or an error",
 "Parsing well-formed input yields a tree whose element and attribute names, order and nesting are those of the document, and whose content slices are exactly the bytes between each open and close tag; malformed, truncated or too deeply nested input yields an error and never a partial tree or a crash; the input is never modified.",
 ["inputs"], "every byte string as input: every document shape, nesting depth, entity, comment, CDATA, declared encoding",
 "The tests parse two files; exact offsets, truncations at every byte and depth limits are outside what they sample.",
 [X], [("Parse, Element.parse, scanner.scan", X)],
 note="Element.parse and scanner.scan proved against an assumed contract of encoding/xml.Decoder; Parse's reader set-up and charset handling by the bounded harness.", observe=["Parse"])

prop("C10", "Dependency order: every node once, its dependencies first",
 "Walking a dependency graph calls the visitor exactly once for every target and everything it depends on, directly or not, and for nothing else; when there are no cycles, a node's dependencies are all visited before it; with cycles the walk still visits every node once and ends. Recording a dependency adds exactly that one and keeps all others, and the order of the walk does not depend on the order of recording.",
 ["inputs", "histories"], "every graph, cyclic or not, and every sequence of additions that builds it",
 "Two fixed graphs are tested; a node reached along several paths, from several targets, or through a cycle is where order and uniqueness break.",
 ["internal/dependency/graph.go"], [("Graph.Flatten, Graph.flatten", "internal/dependency/graph.go"), ("Graph.Add, insertUnique", "internal/dependency/graph.go")],
 note="Flatten, flatten, Add and insertUnique proved for every graph; ghost state records when the visitor was called. The visitor is assumed not to change the graph. Termination and independence of insertion order by the bounded harness.", observe=["Graph.Add", "Graph.Flatten"])
PA, XS = "xsd/parse.go", "xsd/xsd.go"
prop("C11", "Built-in types are known by exactly their own names",
 "Every built-in type of XML Schema has the standard's name, no two share one, and looking a name up gives the one built-in type that has it, or an error when none does: case and namespace count. A reference in a schema means the built-in type exactly when it has a built-in's name.",
 ["inputs"], "every expanded name; all 50 built-in types",
 "Tests mention a few built-ins; a wrong entry in the table of names, or a lookup that ignores the namespace, affects names they never use.",
 ["xsd/builtin.go", "xsd/builtin_string.go"], [("ParseBuiltin, Builtin.Name", "xsd/builtin.go"), ("parseType", PA)],
 note="ParseBuiltin and parseType proved for every name, given the table of names (Builtin.Name, an assumed contract); the table itself is gone through in full, all 50 entries, by the harness.", observe=["xsd.ParseBuiltin", "xsd.Builtin.Name"])
prop("C12", "Parsed schemas are complete and fully resolved",
 "Parsing a set of schema documents gives one schema per schema element, in order, holding every type declared in it under its own name, whichever documents share a target namespace and in whatever order types are declared; every reference to a type, as a base, item, union member, element or attribute type, stands for the type of that name, none is left unresolved, and every chain of base types ends in a built-in type. A reference to an unknown type or a circular derivation is an error, never a crash or a partial result.",
 ["inputs"], "every set of schema documents, any number per namespace, types in any order, derived across schemas",
 "The tests parse one small schema each; sharing of a namespace between schemas, forward and cross-schema references and circles do not occur.",
 [PA, XS], [("Parse", PA), ("Schema.resolvePartialTypes, Schema.lookupType", PA), ("Schema.addElementTypeAliases", PA), ("Base, XMLName", XS)],
 note="resolvePartialTypes, lookupType, addElementTypeAliases, Base and XMLName proved: after success nothing in a schema's types is unresolved, every link became the type of its name, nothing else changed. Parse's composition of them, and the circle check, by the bounded harness.", observe=["xsd.Parse"])
prop("C13", "Occurrence and other flags say what the declaration says",
 "An element is plural exactly when its minOccurs or maxOccurs allows more than one, optional exactly when minOccurs is zero, it has a default or it is an alternative in a choice, and nillable, abstract and its default are as declared; an attribute is optional unless its use is required. An element declared twice in a type keeps the more permissive of each flag. Values that are not numbers or truth values are errors.",
 ["inputs"], "every combination of occurrence bounds, flags and defaults, at any nesting of sequences and choices",
 "Tests have a few combinations in plain sequences; nested choices, white space, minOccurs above one and invalid values are not among them.",
  [PA], [("parseInt, parseBool, parsePlural, joinElem", PA), ("parseElement, parseAttribute, parseAnyElement", PA), ("setChoicesOptional", PA)],
 note="parseInt, parseBool, parsePlural, joinElem, parseElement, parseAttribute and parseAnyElement proved for every element; setChoicesOptional and the collection of elements by the bounded harness.", observe=["xsd.Parse"])

prop("C14", "A restriction has exactly the facets its type declares",
 "A simple type derived by restriction keeps its enumeration values in order, its lengths and digit counts, the bounds of numbers, dates and dateTimes, and its patterns as the alternatives of one; the last of a repeated facet counts and facets that are not declared are left empty. A pattern the library cannot compile is noted and does not undo the others; bounds and lengths that mean nothing for their type are errors, and valid ones never are.",
 ["inputs"], "every list of facets, in any order and number, on any built-in or derived base type",
 "Tests look at a few restrictions; facets repeated, out of order, on types derived further, with time zones or white space are not among them.",
 [PA], [("parseSimpleRestriction", PA), ("parseMinMaxRestriction, parseDate, parseDateTime, parseDecimal, parseInt", PA)],
 note="parseSimpleRestriction and what it calls proved for every list of facets against a recursive reading of the list; regexp, time.Parse and ParseFloat are assumed functions of their arguments.", observe=["xsd.Parse"])
prop("C15", "Anonymous types are given names and stay what their owner refers to",
 "Every type declared without a name, whether of an element, an attribute, list items, a union's member or a restriction's base, becomes a type of its schema under a name that no other type has, with exactly the content it was declared with; the declaration that contains it refers to that very type, a union lists all of its members, and nothing else in the schema changes or is lost.",
 ["inputs"], "every schema: any nesting of anonymous types, any number per schema, names of elements and types that collide",
 "Tests hold a couple of anonymous types each; several in one union, many at the top of a schema (where the list that holds them grows) and colliding names are not among them.",
 [PA], [("copyEltNamesToAnonTypes, nameAnonymousTypes", PA), ("expandComplexShorthand", PA)],
 note="parseSimpleType proved for every element: base, list and all members of unions are the types named by the declarations; that copyEltNamesToAnonTypes, nameAnonymousTypes and expandComplexShorthand give those names is decided by the bounded harness.", observe=["xsd.Parse", "xsd.Normalize"])
W = "wsdl/wsdl.go"
prop("C16", "A parsed WSDL definition holds exactly what the document declares",
 "Parsing a WSDL document gives its target namespace, every message under its resolved name with its parts, names, types and elements in order, and, for every port of its service in order, the port's name, SOAP address and HTTP method, and every operation of the port types its binding is for, with documentation, input, output and SOAP action; names mean what their prefixes mean where they stand, however the document is written down, and malformed input is an error.",
 ["inputs"], "every well-formed definition: any prefixes, any order of declarations, any number of messages, parts, bindings, ports and operations",
 "Tests parse a few files and only log the result; a binding or message found by the wrong name, an address or action of another operation, is never looked at.",
 [W], [("parseMessages, parsePorts, parseMethod, parseOperations, documentation", W), ("Parse", W)],
 note="parseMessages, parsePorts, parseMethod, parseOperations and documentation proved for every acyclic tree against recursive readings of the tree; Parse proved to hold what they give, given that xmltree.Parse yields a finite tree. bytes.Join is an assumed function of its arguments. One known finding: of several services only the last one's ports are kept.", observe=["wsdl.Parse"])
prop("C17", "References and groups stand for what they refer to",
 "An element, attribute, group or attribute group declared by reference is what it refers to, in this schema or another: a type whose content refers to others has the same elements and attributes, with the same names, types, defaults and flags, as if what is referred to were written in its place, except for what the reference states itself, such as how often it occurs; types keep meaning what they mean where the declaration stands, whatever prefixes the referring schema uses. A reference to nothing, or to itself, is an error.",
 ["inputs"], "every set of schemas: references nested to any depth, across namespaces, in any order of declaration and under any prefixes",
 "Tests hold a few references within one schema; prefixes that differ between schemas, groups within groups and references that override what they refer to are not among them.",
 [PA, "xsd/index.go"], [("flattenRef, deref, unpackGroups", PA), ("schemaIndex, indexSchema", "xsd/index.go"), ("attributeDefaultType, elementDefaultType", PA)],
 note="deref proved for every reference: name, content and children of what is referred to, attributes overridden by the reference's, and a type that means, where the reference stands, what it meant; ElementID and ByName proved. The order of replacement, unpackGroups and the rest of Parse's composition by the bounded harness. Two known findings.", observe=["xsd.Parse"])
XG = "xsdgen/cli.go"
prop("C18", "Imports are all listed, followed to the end, and their errors reported",
 "Imports lists every import of a document in order, with its namespace and location, then every include, under the namespace of the schema it is in, and nothing else. With imports followed, every file that the given ones import or include, directly or not, is read exactly once, before the files that import it, also when documents import each other or give no location; a file that cannot be read or parsed makes the call fail with an error.",
 ["inputs"], "every document and every set of files, whatever imports what",
 "No test follows imports through more than a single file; files that import each other, that are shared, missing, or that state no location are not sampled.",
 [PA, XG], [("Imports", PA), ("Config.readFiles, Config.readNewFiles, Config.GenAST", XG)],
 note="Imports proved to list exactly the imports and includes of the tree; readNewFiles, readFiles and GenAST proved to succeed only when every file given was read; that all files reached are read once and in order by the bounded harness. ioutil.ReadFile is assumed to fail for the same names throughout a call; GenCode and Code.GenAST are not under contract here.", observe=["xsd.Imports", "xsdgen.Config.GenAST"])
GEN = "internal/gen/gen.go"
prop("C19", "Text put into generated code is that text, and stays within its place",
 "A string literal or string constant that internal/gen makes of a text evaluates to exactly that text, whatever quotes, line ends or control characters it has; Sanitize gives no Go keyword and changes nothing else; the comment made of documentation has every line of it, in order and of any length, each as a comment of its own, so that nothing of it becomes code; constants and struct fields have the name, type and value or tag they are given, in order, and TagKey reads what the tag of a field says.",
 ["inputs"], "every text, name, type and tag, of any length and with any characters",
 "Tests embed a few plain words; quotes, back quotes, line ends and control characters in documentation, defaults and names, or long lines, are not among them.",
 [GEN], [("String, constDecl, ConstString, Sanitize", GEN), ("CommentGroup, PackageDoc", GEN), ("Struct, TagKey", GEN)],
 note="String, constDecl, ConstString, Sanitize, CommentGroup, PackageDoc and Struct proved for all arguments, with strconv.Quote and strconv.CanBackquote assumed to be inverse to unquoting, and strings.Split taken as given; TagKey and the printed source by the bounded harness.", observe=["internal/gen.String", "internal/gen.CommentGroup", "internal/gen.ConstString", "internal/gen.Struct"])
GX = "xsdgen/xsdgen.go"
prop("C20", "A generated struct has one field per element and attribute of its type",
 "The Go struct that xsdgen generates for a complex type, however its types refer to each other, has exactly one field for each element and attribute that the type has or inherits and that no option leaves out, and one for its character data: each with a name of its own, which is the exported XML name unless that is taken, the Go type of its XML type, a slice if it may be repeated, and a tag that names it, with omitempty just where it may be left out. Attributes of a base type come with the derived one unless it has its own, and generation ends.",
 ["inputs"], "every set of complex types: any names, inheritance, references among types, wildcards and options that ignore elements or attributes",
 "Tests only check that some schemas generate code that formats; names that collide, inherited or ignored members and types that refer to each other are not looked at.",
 [GX], [("Config.genComplexType, nameGenerator, mergeAttributes", GX), ("Config.filterFields, Config.public, Config.NameOf", "xsdgen/config.go"), ("Config.expandComplexTypes, Config.flatten1", GX), ("Struct", GEN)],
 note="nameGenerator, mergeAttributes, filterFields, Config.expr, public, NameOf, gen.Struct and genComplexType proved for all types: names distinct and new, attributes merged, fields made of names, types and tags; that fields match the members of the parsed types, tags included, and that flatten1 and expandComplexTypes keep them and end, by the bounded harness. The namespaces of elements are those that the parser gives.", observe=["xsdgen.Config.GenCode", "xsdgen.Code.GenAST"])
