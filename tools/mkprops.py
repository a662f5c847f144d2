#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="xsd-types/src/types/"
X="xsd-parser/src/"

prop("T01","Gregorian fragments: exact recognition, right value, faithful printing",
 "A gDay, gMonth, gMonthDay, gYear or gYearMonth text is accepted exactly when it is in the XSD lexical form (zero-padded fields in range, a day that exists in its month with 29 February allowed, no year zero, years of four or more digits within 32 bits, optional timezone up to 14:00) and yields the value written; any other text is refused. The constructors accept exactly the same component ranges. Every value that can be constructed or parsed prints a text that parses back to the same value.",
 ["inputs"],"every string and every component/timezone combination of the five types",
 "Each type has a handful of fixed literals; the space of near-miss strings (padding, signs, offsets, multi-byte characters, month lengths) and component boundaries is not sampled.",
 [T+"gday.rs",T+"gmonth.rs",T+"gmonthday.rs",T+"gyear.rs",T+"gyearmonth.rs",T+"utils.rs"],
 [("per-type FromStr with timezone splitting",T+"gmonthday.rs"),("range-checking constructors",T+"gday.rs"),("zero-padded Display",T+"gyear.rs")],
 ["FromStr / Display / new of the five types"])
prop("T02","date and time: right value from valid text, refusal of malformed, round trip",
 "A valid xs:date (years 0001 to 9999, negative years included) or xs:time (fractional seconds to nanoseconds) text parses to exactly the calendar day or time of day and timezone it writes; a text that names a day, hour, minute, second or offset outside its range, or has missing or extra components, is refused. Printing any such value gives a valid lexical form that parses back to the same value, including the fraction of a second and the timezone sign.",
 ["inputs"],"every valid date/time literal with every timezone, and mutations of them",
 "Tests use three or four literals per type, none with a fraction, a negative year or an offset with minutes and a negative sign at a boundary.",
 [T+"date.rs",T+"time.rs",T+"utils.rs"],
 [("timezone split then chrono parse",T+"date.rs"),("strftime based Display",T+"time.rs")],
 ["FromStr / Display / chrono conversions"])
prop("T03","dateTime and dateTimeStamp: instant, offset and fraction preserved",
 "A valid xs:dateTime literal (four-digit year, optional fraction up to nanoseconds, optional offset) parses to the instant and offset it writes, with a missing offset read as UTC, while xs:dateTimeStamp accepts the same literals but refuses one without an offset; out-of-range or malformed literals are refused by both. Printing a value gives a literal that parses back to the same instant, fraction and offset, and the order of two values is the order of their instants.",
 ["inputs"],"every valid literal with each offset and fraction length, pairs of values, and mutated literals",
 "Tests hold a few literals; offset/fraction/sign combinations, the implicit UTC rule next to a date's own dashes, and ordering across offsets are unsampled.",
 [T+"datetime.rs",T+"datetimestamp.rs"],
 [("implicit UTC suffix",T+"datetime.rs"),("RFC 3339 parse and print",T+"datetime.rs")],
 ["FromStr / Display / PartialOrd"])
prop("T04","Timezone suffix is read identically and exactly by every type carrying one",
 "The timezone reader accepts exactly `Z` and a sign followed by two-digit hours, a colon and two-digit minutes with a magnitude of at most 14:00 and minutes below 60, and returns the signed offset. Every value type that carries an optional timezone accepts a suffix exactly when that reader does, attaches the same offset to the value, and prints a suffix that is read back as the same offset.",
 ["inputs"],"every offset in minutes from -14:00 to +14:00, every boundary above it, arbitrary suffix strings, for each of the eight timezone-carrying types",
 "Seven example strings are tested for the reader alone; agreement of the eight independent copies of suffix splitting is tested with one or two offsets each.",
 [T+"utils.rs",T+"date.rs",T+"time.rs",T+"gday.rs",T+"gmonth.rs",T+"gmonthday.rs",T+"gyear.rs",T+"gyearmonth.rs",T+"datetime.rs"],
 [("shared offset reader",T+"utils.rs"),("per-type suffix detection",T+"gday.rs")],
 ["parse_timezone, FromStr and Display of the carrying types"])
prop("T05","duration: grammar, component values, round trip and conversion to a time span",
 "A non-empty duration text is accepted exactly when it follows the XSD grammar (optional minus, P, ordered components each with digits, T only before at least one time component, fraction only on seconds) and its components fit 64 bits, and each component takes exactly the value written. Printing any parsed value gives a grammatical text that parses back to the same components and sign. Conversion to a plain time span gives the sum of days, hours, minutes and seconds to within a nanosecond, is refused when years or months are present, and never silently wraps.",
 ["inputs"],"all component subsets and magnitudes, fraction lengths, and strings one edit away from a valid duration",
 "A dozen literals; digits left without a designator, over-long fractions, zero components and overflow are never generated together.",
 [T+"duration.rs"],
 [("character state machine with last filled component",T+"duration.rs"),("component-wise Display",T+"duration.rs"),("to_std_duration",T+"duration.rs")],
 ["FromStr / Display / conversion to std Duration"])
prop("T06","Arbitrary-size integers keep their value and their sign class",
 "The five unbounded integer types accept every XSD integer literal (optional sign, leading zeros, any length) whose mathematical value lies in the type's value space, with exactly that value, and refuse every literal whose value lies outside it (zero for positive and negative, the wrong sign for the others), empty text, blanks, fractions, exponents and letters. Printing gives the canonical decimal digits, which parse back to the same value, and comparison follows the mathematical order.",
 ["inputs"],"digit strings up to hundreds of digits with signs and leading zeros, boundary values, and malformed strings, for all five types",
 "Tests use a fixed big number per type; the sign boundary, negative zero, leading zeros and malformed text are sampled once or not at all.",
 [T+"integer.rs",T+"positive_integer.rs",T+"negative_integer.rs",T+"non_negative_integer.rs",T+"non_positive_integer.rs"],
 [("range test after big-integer parse",T+"positive_integer.rs"),("radix 10 Display",T+"integer.rs")],
 ["FromStr / Display / PartialOrd / conversions"])
prop("T07","decimal: exact value in, plain decimal notation out",
 "Every XSD decimal literal (optional sign, digits with an optional point on either side of which digits may be missing, but not both) parses to exactly its mathematical value at any length, and text without digits, with an exponent or with any letter is refused. Printing any value, however small or large, is itself an XSD decimal literal (no exponent) and parses back to an equal value; comparison follows the mathematical order regardless of trailing zeros.",
 ["inputs"],"literals up to hundreds of digits, values built from any unscaled integer and scale, malformed strings",
 "Two literals are tested; scales that switch the printed notation are never reached.",
 [T+"decimal.rs"],[("BigDecimal parse and Display",T+"decimal.rs")],["FromStr / Display / PartialOrd"])
prop("T08","No text makes a value parser crash",
 "For every Unicode string, reading it as any of the runtime value types, as a timezone, or as a generated wrapper, list or union over them returns a value or an error; it never panics, overflows or aborts. Whenever it returns a value, printing that value does not panic either.",
 ["inputs"],"arbitrary Unicode strings, near-valid strings with multi-byte characters spliced in, over-long numbers",
 "No test feeds non-ASCII, over-long or random text; byte-offset slicing and unchecked arithmetic only fail there.",
 [T+"gday.rs",T+"gmonth.rs",T+"gmonthday.rs",T+"utils.rs",T+"duration.rs",T+"date.rs","xsd-macro-utils/src/tuple.rs"],
 [("length and digit guards before slicing",T+"gmonthday.rs"),("per-character duration machine",T+"duration.rs")],
 ["FromStr and Display of every runtime type"])
prop("T09","XML reading and writing of runtime values is faithful inside any document",
 "Writing a structure whose element and attribute-free fields hold runtime values, wrappers, lists or unions produces well-formed XML with one element per value in field order whose text is the value's printed form, and reading it back gives an equal structure, for single, optional and repeated fields alike. Reading trims surrounding blanks, accepts comments, CDATA and character references as XML does, and a text that is not valid for the value's type makes the read fail rather than yield a default or a neighbouring value.",
 ["inputs"],"values of every runtime type, document layouts (blanks, comments, CDATA, references), cardinalities, invalid texts",
 "One document per type in one layout is tested; layout variation, repetition, escapes and error propagation are not.",
 ["xsd-types/src/utils/yaserde.rs","xsd-macro-utils/src/lib.rs"],
 [("shared element serializer/deserializer","xsd-types/src/utils/yaserde.rs"),("derive of the XML traits","xsd-macro-utils/src/lib.rs")],
 ["yaserde to_string / from_str of harness structs"])
prop("T10","Equality, order, conversions and defaults agree with the values",
 "Two values of one runtime type are equal exactly when their texts denote the same value with the same timezone (dateTimes: the same instant; decimals and integers: the same number however spelled; durations: the same components and sign). Converting a calendar date, time, instant, decimal, integer or duration to the library's type and back gives the same value. Non-negative durations whose components are normalised are ordered by their length. The default of every type is in the type's value space and prints a text that reads back to an equal value.",
 ["inputs"],"pairs of texts of one type, equal, nearly equal and unrelated; every value the host types can hold; pairs of normalised durations",
 "Tests compare a value only with the result of parsing its own literal; inequality, order, and the conversions at their limits are never asserted.",
 [T+"date.rs",T+"time.rs",T+"datetime.rs",T+"duration.rs",T+"decimal.rs",T+"positive_integer.rs",T+"negative_integer.rs"],
 [("derived equality and order",T+"duration.rs"),("chrono and big-number conversions",T+"datetime.rs"),("defaults",T+"positive_integer.rs")],
 ["PartialEq / PartialOrd / Default / from_* and to_* of the runtime types"])
prop("M01","Wrapper and list types read and print exactly what their content does",
 "A generated single-value wrapper accepts exactly the texts its inner type accepts, with the same value, keeps string content unchanged, and prints exactly what the inner value prints. A generated list type splits on any run of whitespace, keeps every valid item in order, prints items separated by a single space, gives an empty list for blank text, and its printed form reads back to the same list.",
 ["inputs"],"inner types (strings, booleans, every machine integer, floats, runtime types, other wrappers), texts, item counts and separators",
 "Three wrapper types with fixed XML are tested.",
 ["xsd-macro-utils/src/tuple.rs"],[("classification of the inner type path","xsd-macro-utils/src/tuple.rs"),("split/collect and space-joined Display","xsd-macro-utils/src/tuple.rs")],
 ["FromStr / Display of derived wrappers"])
prop("M02","A union takes the first member type that accepts the text",
 "Reading a union value selects the first member, in declaration order, whose own reader accepts the text and holds exactly that member's value; when none accepts it, the text itself is kept as the unknown case and reading still succeeds. Writing a member value emits exactly that member's printed form, which reads back to the same member unless an earlier member also accepts it.",
 ["inputs"],"member lists of different orders over wrappers and runtime types, texts chosen to match none, one or several members",
 "One union with one member order is tested on a few texts.",
 ["xsd-macro-utils/src/union.rs"],[("ordered parse attempts","xsd-macro-utils/src/union.rs"),("per-variant printing","xsd-macro-utils/src/union.rs")],
 ["yaserde of derived unions"])

prop("G01","Generated text is always valid Rust with legal, keyword-safe names",
 "For every supported schema the generator returns text that parses as a Rust source file, whatever the XML names are: keywords, leading digits, dots, dashes, underscores, mixed case, and non-ASCII letters next to ASCII ones. Every type, module, field and variant identifier in it is a legal non-keyword identifier, type and variant names in Pascal case and fields and modules in snake case derived from the XML name.",
 ["programs","inputs"],"supported schemas with names drawn from the whole XML NCName alphabet, all Rust keywords, and documentation text",
 "Twenty fixed schemas with tame ONVIF-like names.",
 [X+"generator/default.rs",X+"generator/utils.rs",X+"generator/enum_case.rs",X+"generator/struct.rs"],
 [("case conversion",X+"generator/default.rs"),("keyword/digit prefixing",X+"generator/utils.rs")],
 ["generated Rust text parsed with syn"])
prop("G02","Nothing is lost or invented: every declaration becomes exactly one definition",
 "Each named complex or simple type and each global element with inline or empty content in a supported schema yields exactly one Rust definition of the right form (structure, wrapper, enumeration), and nothing else yields one. Each element and attribute of a complex type yields exactly one field, in declaration order with elements before attributes, marked as element or attribute, and bound to its exact XML name and namespace prefix; wildcards and prohibited attributes yield none.",
 ["programs"],"supported schemas: numbers and kinds of declarations, content models (sequence, all, empty, attributes only), refs and wildcards",
 "Fixed schemas exercise one or two members of each kind; counts, order and mixtures are not varied.",
 [X+"parser/complex_type.rs",X+"parser/sequence.rs",X+"parser/all.rs",X+"parser/element.rs",X+"parser/attribute.rs",X+"generator/struct_field.rs"],
 [("field collection",X+"parser/sequence.rs"),("attribute collection",X+"parser/utils.rs"),("wire-name attributes",X+"generator/default.rs")],
 ["generated Rust AST against a model of the schema"])
prop("G03","Cardinality: occurrence bounds and use decide required, optional or repeated",
 "An element field is repeated exactly when it may occur more than once, optional exactly when it may be absent and occurs at most once, and plain otherwise; an attribute is optional unless required and absent from the type when prohibited. This holds for every spelling of the bounds, for elements in sequences, all-groups, choices, inherited content and inline types, and an element whose type is the enclosing type is made indirect so that the type has finite size.",
 ["programs"],"all minOccurs/maxOccurs pairs (absent, 0, 1, 2, large, unbounded), uses, positions and type kinds",
 "Tests contain five of the bound combinations.",
 [X+"parser/element.rs",X+"parser/xsd_elements.rs",X+"parser/attribute.rs",X+"parser/sequence.rs",X+"generator/default.rs"],
 [("occurrence to modifier mapping",X+"parser/element.rs"),("modifier to container",X+"generator/default.rs"),("recursion detection",X+"parser/sequence.rs")],
 ["field types in the generated AST"])
prop("G04","Built-in types map per the documented table, whatever prefix is bound",
 "Wherever a built-in XSD type is referenced - element, attribute, extension or restriction base, list item, union member, choice branch - the generated Rust type is the one the documentation's table gives, whichever prefix (or default namespace) the schema binds to the XSD namespace. A name bound to any other namespace is never mapped to a built-in, even if it is spelled like one.",
 ["programs","configurations"],"every built-in type, each reference position, XSD prefixes, user types spelled like built-ins",
 "Tests use the prefix xs and about ten of the 43 built-ins in one or two positions.",
 [X+"generator/utils.rs",X+"generator/base.rs",X+"parser/schema.rs"],
 [("built-in table",X+"generator/utils.rs"),("XSD prefix detection",X+"parser/schema.rs")],
 ["types in the generated AST"])
prop("G05","References resolve to the right definition and namespace",
 "A type reference in the schema's own target namespace becomes the plain name of the definition generated for that type, and a reference into another namespace becomes that name qualified by the reference's prefix, in every reference position. Every structure and enumeration carries the schema's target namespace URI and prefix, element fields carry the target prefix or the prefix of their reference, and a schema without target namespace or without a prefix for it carries no prefix.",
 ["programs","configurations"],"prefix/namespace layouts, reference positions, forward and backward references",
 "All tests use one prefix layout, with the target prefix tns or tt.",
 [X+"generator/default.rs",X+"parser/schema.rs",X+"parser/utils.rs",X+"generator/struct.rs"],
 [("prefix comparison",X+"generator/default.rs"),("target namespace lookup",X+"parser/utils.rs")],
 ["type paths and serde attributes in the generated AST"])
prop("G06","Extension and restriction inherit the complete base content, in any order",
 "A complex type derived by extension of another type in the schema has, after its own members, every element and attribute of its base - and transitively of the base's bases - with unchanged wire name, type and cardinality, a member redeclared in the derived type appearing once; restriction derivation likewise. The result is the same whatever the order in which the types are declared and however deep the chain is, also for derived types declared inline, and no base placeholder remains in the output.",
 ["programs"],"derivation trees of varying depth and fan-out, declaration orders, own members of every kind, name clashes",
 "Two fixed chains, declared base first.",
 [X+"parser/mod.rs",X+"parser/types.rs",X+"parser/extension.rs",X+"parser/restriction.rs"],
 [("base placeholder field and flattening",X+"parser/types.rs"),("document-order resolution pass",X+"parser/mod.rs")],
 ["field lists in the generated AST"])
prop("G07","Attribute groups contribute all their attributes wherever referenced",
 "A complex type that references attribute groups has, besides its own members, one field for each attribute of each referenced group with that attribute's name, type and use, whatever content model the type has, whether the group is declared before or after the type, and however many types share it. The groups themselves produce no definition.",
 ["programs"],"groups, reference positions (attributes only, sequence, all, choice, extension), declaration orders, sharing",
 "No integration test has an attribute group in a type with element content.",
 [X+"parser/attribute_group.rs",X+"parser/complex_type.rs",X+"parser/extension.rs",X+"parser/types.rs",X+"parser/mod.rs"],
 [("group references collected as aliases",X+"parser/utils.rs"),("expansion pass",X+"parser/types.rs")],
 ["field lists in the generated AST"])
prop("G08","Enumerations: one variant per value, bound to the exact value",
 "A simple type restricted by identifier-like enumeration values becomes an enumeration with exactly one variant per value, in order, plus the unknown case; each variant reads and writes exactly its XSD value text, whatever its case, digits or dashes. If any value cannot be a variant name, the type falls back to a wrapper over the base type that keeps any text, rather than losing or merging values.",
 ["programs","inputs"],"value sets (case, digits, dashes, keywords, non-ASCII, spaces, punctuation), named and inline positions",
 "Three fixed enumerations.",
 [X+"parser/restriction.rs",X+"generator/enum.rs",X+"generator/enum_case.rs"],
 [("simple-enumeration test",X+"parser/restriction.rs"),("variant naming and rename",X+"generator/enum_case.rs")],
 ["generated AST: variants and renames"])
prop("G09","Choices: one variant per branch, attributes kept beside the choice",
 "A complex type whose content is a choice becomes a structure that flattens an enumeration with exactly one variant per branch element, in order, holding the branch's type with its cardinality and bound to the branch's XML name, plus the unknown case. The attributes of the type stay fields of the structure.",
 ["programs"],"branch counts, types, refs, names, cardinalities, attributes",
 "Two fixed choices.",
 [X+"parser/choice.rs",X+"parser/complex_type.rs",X+"generator/enum_case.rs"],
 [("choice to enum plus flattened field",X+"parser/complex_type.rs")],
 ["generated AST"])
prop("G10","Lists, unions and restrictions of simple types keep members and order",
 "A restriction without enumeration wraps its base, a list wraps a vector of its item type, and a union becomes an enumeration with one case per member type in declared order - listed members first, then inline members each with a generated definition of its own - plus the unknown case. Members, items and bases may be built-ins, types of this schema declared anywhere, or types of another namespace, separated by any XML whitespace.",
 ["programs"],"simple type trees, member counts, inline members, whitespace in member lists",
 "One union and two list schemas.",
 [X+"parser/union.rs",X+"parser/list.rs",X+"parser/restriction.rs",X+"generator/tuple_struct.rs"],
 [("member splitting",X+"parser/union.rs"),("vector modifier",X+"parser/list.rs")],
 ["generated AST"])
prop("G11","Documentation only ever becomes comments, and all of it does",
 "Adding, changing or removing documentation text anywhere in a schema - of any length, line layout, characters or comment-like and code-like content - never changes the generated code apart from comments. The words of the documentation of a type, element, attribute or enumeration value that has a generated definition, field or variant are, in order, the words of the comment lines immediately before it (lines of a single byte aside; of several annotations that describe one definition, such as an element's and its anonymous type's, the outermost); documentation on choices, sequences, facets and groups, and appinfo, is attached to no item.",
 ["programs","inputs"],"documentation strings of arbitrary Unicode, line structure and length at every annotatable position",
 "AST tests ignore comments; three unit tests cover the wrapping helper with one sentence.",
 [X+"generator/default.rs",X+"generator/utils.rs",X+"parser/utils.rs",X+"generator/alias.rs"],
 [("line-wise comment formatting",X+"generator/utils.rs"),("documentation lookup",X+"parser/utils.rs")],
 ["tokens and comments of the generated text"])
prop("G12","Generation is a pure function of the schema, also when reused",
 "Generating code for a schema gives the same text every time: from the same parse result again, from a fresh parse, from a fresh generator, and from a generator that has already processed any other schemas in any order. Parsing and generating leave nothing behind that affects a later run.",
 ["histories","programs"],"sequences of parse, generate and regenerate operations interleaved over several schemas and generators",
 "Every test uses one schema, one parse and one generator once.",
 [X+"generator/mod.rs",X+"generator/struct.rs",X+"parser/types.rs"],
 [("interior-mutable namespaces of the generator",X+"generator/mod.rs"),("interior-mutable field lists",X+"generator/struct.rs")],
 ["generated text over operation histories"],
 [("generator namespaces","current schema's namespaces",X+"generator/mod.rs"),("field lists","fields, mutated while resolving",X+"parser/types.rs")])
prop("G13","Equivalent schema documents give the same code",
 "Rewriting a schema without changing its meaning - reordering top-level declarations, renaming the XSD prefix, changing indentation, quoting, attribute order or self-closing tags, adding XML comments, processing instructions or ignorable attributes such as id, moving namespace declarations - changes nothing in the generated definitions other than their order.",
 ["programs","configurations"],"schemas and compositions of meaning-preserving rewrites",
 "No test compares two spellings of one schema.",
 [X+"parser/schema.rs",X+"parser/node_parser.rs",X+"parser/mod.rs",X+"parser/xsd_elements.rs"],
 [("element filtering during traversal",X+"parser/sequence.rs"),("namespace lookup",X+"parser/schema.rs")],
 ["generated definitions as a multiset of AST items"])
prop("G14","Validation of a generated wrapper enforces exactly its declared facets",
 "For a generated wrapper over a numeric or text type, validation succeeds exactly when the value satisfies every declared bound (inclusive, exclusive, minimum, maximum) and length facet, at and around each boundary and for negative and fractional limits. Facets that are not validated never make validation fail, and validation never panics.",
 ["programs","inputs"],"base types, facet subsets and limits, values around every limit",
 "Tests compare two validator texts and run one wrapper.",
 [X+"generator/validator.rs",X+"generator/tuple_struct.rs",X+"parser/restriction.rs"],
 [("facet to guard expansion",X+"generator/validator.rs")],
 ["validate() of compiled generated types"])
prop("G15","Generated types compile and carry schema-valid documents unchanged",
 "For every supported schema the generated code compiles in the documented prelude, and any document valid for one of its structure types reads into the type with each element and attribute value in its own field - absent optional members empty, repeated members in document order, inherited and group members included - and writes back to a document with the same content that reads to an equal value.",
 ["programs","inputs"],"schemas combining all supported constructs, and instance documents generated from them",
 "Twenty fixed schema/document pairs.",
 [X+"generator/struct.rs",X+"generator/struct_field.rs",X+"generator/default.rs",X+"parser/complex_type.rs","xsd-macro-utils/src/lib.rs","xsd-types/src/utils/yaserde.rs"],
 [("derived XML traits plus rename/prefix attributes",X+"generator/default.rs")],
 ["compiled generated code on generated documents"])
prop("G16","Inline types get their own reachable definition and never collide",
 "Every anonymous type declared inside an element of a type yields exactly one definition with the full content of the inline declaration, placed in the module of its enclosing type, and the field refers to it by a path that resolves to that definition, at any nesting depth. Equal element names in different types, or in a nested and an outer type, never make a reference resolve to another definition, and no two definitions in one scope share a name. An anonymous simple type of an attribute is plain text and yields no definition.",
 ["programs"],"nesting shapes, repeated element names across types and levels, inline simple and complex types",
 "Two fixed clash schemas of depth two.",
 [X+"parser/element.rs",X+"generator/struct.rs",X+"parser/utils.rs"],
 [("module per structure",X+"generator/struct.rs"),("type naming from the element",X+"parser/element.rs")],
 ["module tree and resolved paths of the generated AST"])
prop("G17","A customised generator differs only where its parts differ",
 "A generator built with the caller's own struct, tuple struct, enum, field, variant, alias, import or base parts calls each supplied part for exactly the items it is responsible for and uses what it gives: a part that delegates to the default gives the same code, and one that adds a mark gives the same code with that mark once at every such item and nowhere else. A base part that changes the indentation or the endings of field, module or definition names changes exactly these, at every place. The result is the same whichever subset of parts is supplied and on every run.",
 ["programs","configurations"],"schemas and subsets of customised parts and of the methods each overrides",
 "Tests build only the default generator; no test supplies a part.",
 [X+"generator/builder.rs",X+"generator/mod.rs",X+"generator/base.rs",X+"generator/struct.rs",X+"generator/enum.rs",X+"generator/struct_field.rs",X+"generator/enum_case.rs",X+"generator/tuple_struct.rs"],
 [("builder setters and defaults",X+"generator/builder.rs"),("dispatch to the parts",X+"generator/mod.rs"),("overridable methods of the parts",X+"generator/struct.rs")],
 ["GeneratorBuilder and the part traits; generated text"])
prop("G18","The parsed schema model holds the schema as written, in order",
 "The object the parser returns gives the schema's target namespace with a prefix bound to it (a named one if there is one), the XSD namespace, and exactly one entry per top-level component in document order - attribute groups in a list of their own, annotations none: imports and includes with namespace and location as written, or empty; typed elements and attributes as aliases of that type; restricted simple types with base and every facet of each of the twelve kinds, in order, with its exact value and documentation; enumerations, lists and unions with their values, item and member types in order; complex types with each element, attribute and choice branch in order, with its name, its type as written, whether it is an element or an attribute, its cardinality and its documentation. XML comments, application information and attributes of other namespaces add and change nothing.",
 ["programs"],"schemas with every component kind, facet kind, occurrence bound and use, documentation at every position",
 "Unit tests look at a few hand-written entries; the values of most facets, import locations and the documentation of facets are never looked at, as the generated code holds none of them.",
 [X+"parser/types.rs",X+"parser/schema.rs",X+"parser/import.rs",X+"parser/restriction.rs",X+"parser/xsd_elements.rs",X+"parser/utils.rs",X+"parser/element.rs",X+"parser/attribute.rs"],
 [("facets and their values",X+"parser/restriction.rs"),("kinds of schema elements",X+"parser/xsd_elements.rs"),("one entry per component",X+"parser/schema.rs")],
 ["public fields of RsFile and the entities in it"])
prop("W01","Each WSDL operation becomes exactly one correctly typed async function",
 "For every operation of every port type, request-response or one-way, the generated code has exactly one public async function with the operation's snake-case name, taking the element (or type) of the input message's part by reference (of a message of several parts, one parameter per part, in order, under the part's snake-case name; of one without parts, none) and returning a result whose value is the element (or type) of the output message's part (the first part, where there are several), or unit when there is no output or no part, preceded by the operation's documentation as comments; bindings and services add nothing. The text is valid Rust.",
 ["programs"],"WSDL documents: port types, operations, messages in any order, prefixes, documentation, faults, bindings",
 "One document with one operation.",
 ["wsdl-parser/src/generator/mod.rs","wsdl-parser/src/generator/function.rs","wsdl-parser/src/parser/definitions.rs","wsdl-parser/src/parser/port_type.rs"],
 [("message lookup by local name","wsdl-parser/src/parser/definitions.rs"),("function template","wsdl-parser/src/generator/mod.rs")],
 ["generated Rust AST"])
prop("W02","Schemas embedded in a WSDL generate the same types as standing alone",
 "The type definitions generated for a schema embedded in a WSDL document are those generated for the same schema as a standalone file, for every embedded schema and in document order, including namespace declarations made on the enclosing document element.",
 ["programs"],"supported schemas embedded singly or several at a time, with namespace declarations on either element",
 "No test generates types from a WSDL.",
 ["wsdl-parser/src/parser/types.rs","wsdl-parser-cli/src/main.rs",X+"parser/schema.rs"],
 [("schema node parse","xsd-parser/src/parser/schema.rs"),("schema collection","wsdl-parser/src/parser/types.rs")],
 ["definitions in generated code"])
prop("W03","WSDL generation is reproducible",
 "Generating code from one WSDL document gives byte-identical text on every run, in the same and in different processes, with functions in the order in which the document declares port types and operations.",
 ["programs","histories"],"WSDL documents with several port types, messages and operations; repeated generation",
 "The only test has one port type, so no order can differ.",
 ["wsdl-parser/src/generator/mod.rs","wsdl-parser/src/parser/definitions.rs"],
 [("iteration over port types","wsdl-parser/src/generator/mod.rs")],["generated text"])
prop("W04","The WSDL model holds the document as written, in order",
 "The definitions object read from a WSDL document gives the document's name, target namespace and target prefix, its imports, embedded schemas, messages with every part (name, element, type), and port types and bindings with their names; every port type gives its operations in document order with name, parameter order, documentation, kind (one-way, request-response, solicit-response, notification), input, output and each fault with their names and messages. XML comments, documentation, extension elements and elements of other namespaces with equal local names add and change nothing.",
 ["programs"],"WSDL documents with every operation kind, several parts and faults, extension elements and documentation at every position",
 "The only WSDL test checks the generated text of one document with one operation.",
 ["wsdl-parser/src/parser/definitions.rs","wsdl-parser/src/parser/port_type.rs","wsdl-parser/src/parser/message.rs","wsdl-parser/src/parser/types.rs","wsdl-parser/src/parser/mod.rs"],
 [("element lookup by local name and namespace","wsdl-parser/src/parser/mod.rs"),("operation kind from the order of its children","wsdl-parser/src/parser/port_type.rs")],
 ["accessors of Definitions and the types it gives"])
prop("C01","The schema command writes exactly the generated code to exactly the right place",
 "Given a file, the xsd command (input/xsd and output/rs being its default directories) writes to the output path (or prints, without one) exactly the code the library generates for it, replacing any previous content of the output file completely; given a directory it writes one .rs file per input file at the mirrored relative path, creating directories as needed. It touches nothing else, leaves the inputs unchanged, and exits non-zero on a missing or malformed input without writing code for it.",
 ["inputs","histories"],"directory trees, file names, pre-existing outputs, sequences of runs",
 "The commands have no tests at all.",
 ["xsd-parser-cli/src/main.rs"],[("recursive directory walk","xsd-parser-cli/src/main.rs"),("truncate on write","xsd-parser-cli/src/main.rs")],
 ["file system of a scratch directory, stdout, exit status"])
prop("C02","The WSDL command writes types then functions to the right place",
 "Given a file, the wsdl command (input/wsdl and output/wsdl-rs being its default directories) writes to the output path (or prints) the code for the embedded schemas in document order followed by the operation functions, replacing previous content; given a directory it mirrors the tree with one .rs file per input. It touches nothing else and leaves the inputs unchanged, and fails without writing code on a missing or malformed input.",
 ["inputs","histories"],"directory trees, WSDL documents, pre-existing outputs, sequences of runs",
 "The commands have no tests at all.",
 ["wsdl-parser-cli/src/main.rs"],[("recursive directory walk","wsdl-parser-cli/src/main.rs")],
 ["file system of a scratch directory, stdout, exit status"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
