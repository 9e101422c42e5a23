import json
P=[]
def p(id,title,st,over,qt,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=", ".join(files)) for m in mech])))
p("C01","Parsing and decoding never panic",
 "Whatever text is given, parsing it into a document (with byte or with line/column positions) and decoding the document return either a value or a structured error. They never panic, overflow an arithmetic operation, slice inside a character, or loop without consuming input, as long as the nesting depth of the text fits the thread's stack.",
 ["inputs"],"every Unicode string, well formed or not, and every decodable type",
 "Tests run a few dozen short well-chosen texts; the claim is about every malformed text and every scalar.",
 ["src/grammar.rs","src/errors.rs","src/span.rs","src/convert.rs","src/wrappers.rs"],
 ["every closure passed to a combinator is total","every repetition consumes at least one character per iteration","combining two syntax errors is total for the pairs the parser can produce"])
p("C02","Success means no error was reported; failure reports all of them in order",
 "Parsing plus decoding succeeds exactly when the text is syntactically valid, the decoder returned a value and no error was emitted on the way. Otherwise the failure carries the source name and text and every emitted error exactly once, in the order of emission, with the error that stopped the decoder last.",
 ["inputs","histories"],"every text, every decoder and every sequence of errors the decoder emits or returns",
 "Tests check single error cases; the claim is over all interleavings of emitted and returned errors.",
 ["src/wrappers.rs","src/decode.rs"],
 ["the error context only ever appends","the final result is Ok only with an empty list of errors"])
p("C03","String literals denote exactly the characters written",
 "A quoted string yields its characters with each escape (\\\" \\\\ \\/ \\b \\f \\n \\r \\t and \\u{1-6 hex digits naming a Unicode scalar value}) replaced by the character it names, ending at the first unescaped quote; a raw string r##\"..\"## yields the text verbatim up to the first quote followed by the same number of hash signs. Any other escape and any unterminated string make the document invalid.",
 ["inputs"],"every quoted and raw string over all Unicode characters, every number of hash signs",
 "Tests sample a dozen strings; the claim covers every escape, code point, quote/hash combination.",
 ["src/grammar.rs"],
 ["escape table","code point range check","matching of the closing delimiter by the number of hash signs"])
p("C04","Number literals keep their exact digits, sign, radix and kind",
 "A number is an optional sign followed by decimal digits, or by 0b, 0o or 0x and digits of that radix, with underscores allowed after the first digit and ignored. It is an integer, unless it has a fraction (dot and at least a digit) or exponent (e or E, optional sign and at least a digit), which make it a decimal; the sign and all the digits are kept exactly, whatever the length.",
 ["inputs"],"every text that starts with a sign or digit, of any length",
 "Tests sample about twenty literals; boundaries between integer, decimal, radix and malformed numbers form an unbounded set.",
 ["src/grammar.rs"],
 ["radix prefix tried before decimal","underscores filtered out","integer/decimal classification"])
p("C05","Numbers decode exactly or are rejected, never wrapped or truncated",
 "Decoding an integer literal into any of the ten supported integer types yields exactly the mathematical value written, in whatever radix, if that value fits the type (an unsigned type takes no minus sign), and otherwise is reported as an error located at the literal. Decoding a decimal literal into a 32- or 64-bit float yields the nearest float to the value written.",
 ["inputs"],"every literal of any length, radix and sign, for every numeric type",
 "Tests decode small numbers into a few types; the claim includes every boundary of every type in every radix.",
 ["src/convert.rs"],
 ["radix selects the conversion","conversion failure is emitted as an error rather than replaced by a default silently"])
p("C06","Identifiers, keywords, whitespace and newlines follow the KDL classes",
 "A bare identifier is a maximal run of characters above U+0020 other than \\ / ( ) { } < > ; [ ] = , \" and Unicode whitespace or newlines, that does not start with a digit (or a sign and a digit) and is not true, false or null. Exactly the KDL whitespace characters (including the byte order mark) separate items, and exactly CR, LF, CRLF, NEL, FF, LS and PS end lines.",
 ["inputs"],"every Unicode character in every position of a name or a separator",
 "Tests try a handful of characters out of 1.1 million code points.",
 ["src/grammar.rs"],
 ["character class filters","reserved words are rejected as identifiers","numbers are rejected as names"])
p("C07","Comments, whitespace, continuations and slashdash carry no meaning",
 "Replacing any whitespace in a document by other whitespace, (nested) block comments or an escaped line break (backslash, optional space and line comment, newline), or adding line comments and blank lines between nodes, does not change the parsed content. A node, argument, property or children block prefixed by /- must be well formed and is otherwise as if it was absent.",
 ["inputs"],"every document and every insertion point",
 "Tests check isolated examples of each comment form, not all insertion points and nestings.",
 ["src/grammar.rs"],
 ["nested comment recursion","line continuation","ignored items filtered when nodes are assembled"])
p("C08","The parsed document has the structure that was written",
 "Nodes and children appear in source order with their names and type annotations, arguments appear in source order, and each property name maps to the last value given for it on that node. Children are present exactly when a children block is written, empty or not, and every value keeps its own type annotation and kind.",
 ["inputs"],"every well formed document: any number and interleaving of nodes, arguments, properties and children at any depth",
 "Tests check some small documents; order and override rules hold for every interleaving.",
 ["src/grammar.rs","src/ast.rs"],
 ["assembly of a node from its line items","property map insertion order","recursive children"])
p("C09","Malformed documents are rejected",
 "Text that is not a KDL document is never accepted: items on a node line need whitespace between them, a bare identifier is not an argument, a number or keyword is not a property name, a number is not a node or type name, each node ends by a newline, semicolon, line comment or end of text, and brackets, braces, quotes and comments are balanced. Conversely every well formed KDL document is accepted.",
 ["inputs"],"every Unicode string",
 "Tests contain a few dozen negative examples; acceptance must be exact for every string.",
 ["src/grammar.rs"],
 ["sequencing of node parts","end of input required after the last node"])
p("C10","Byte spans cover exactly the text of the element they describe",
 "The span of each node name, type annotation, literal, property name and children block delimits, in bytes and on character boundaries, exactly the text of that element in the source; the span of a node runs from its type annotation or name through its terminator. Spans of children and items lie within the span of their node and follow source order.",
 ["inputs"],"every accepted document, including multi-byte characters anywhere",
 "Tests check spans of ASCII snippets; the claim is about every mix of character widths, comments and nesting.",
 ["src/span.rs","src/grammar.rs","src/traits.rs"],
 ["per-character tracker yields contiguous byte ranges","span attached to exactly the characters consumed for the element"])
p("C11","Line and column positions match the source text",
 "With line-tracking positions the offset equals the byte offset, the line equals the number of line breaks before it (CRLF counts as one, and CR, LF, FF, NEL, LS, PS as one each), and the column is the width of the text since the last line break, with a tab counting 8 and control characters 0. The position of the end of the text follows the same rules.",
 ["inputs"],"every text and every position in it",
 "There is no test of line and column tracking on mixed newlines, wide characters and tabs.",
 ["src/span.rs"],
 ["tracker state: offset, line, column, pending carriage return","end of input position"])
p("C12","Syntax errors point at the offending place inside the source",
 "Every syntax error carries labels that lie within the source text on character boundaries. An unterminated string, raw string, comment or children block is reported with the place it was opened at and the end of the text; any other error is reported at the character where no valid continuation exists, or at the element that is invalid.",
 ["inputs"],"every rejected text",
 "Tests pin the messages of about fifty malformed snippets.",
 ["src/grammar.rs","src/errors.rs","src/span.rs"],
 ["error merging keeps the unclosed delimiter","expected sets are united","spans computed relative to the element"])
p("C13","Type annotations are preserved and checked",
 "A type annotation is kept as written and is recognised as a builtin type exactly when it is one of the builtin names. A number accepts no annotation or exactly its own type name, strings, paths and booleans accept none, and a node decoded into a structure without a type name field accepts none; anything else is reported at the annotation, and decoding of the value still proceeds.",
 ["inputs"],"every annotation text with every decodable scalar type",
 "Tests use one or two annotations; the claim is over all pairs of annotation and type.",
 ["src/ast.rs","src/convert.rs","src/traits.rs","derive/src/node.rs"],
 ["name to builtin mapping and its inverse","per-type check before decoding"])
p("C14","Byte fields decode to the exact bytes",
 "A value decoded as bytes yields the UTF-8 bytes of an unannotated string, or the standard base64 decoding of a string annotated (base64). Invalid base64, non-string values and other annotations are reported as errors located at the value or at the annotation.",
 ["inputs"],"every string, every byte sequence and every annotation",
 "Tests decode a single base64 and a single plain string.",
 ["src/decode.rs","derive/src/node.rs"],
 ["dispatch on the annotation","conversion failure emitted as an error"])
p("C15","Scalars decode only from their own kind; null only into optional fields",
 "Strings and paths decode from string literals to the same text, booleans from true and false, integers from integers and floats from decimals; every other kind of literal is reported at that literal with the kind expected and found. Null decodes into an absent optional value and is rejected everywhere else, while any other literal decodes into an optional value as it does into the plain one.",
 ["inputs"],"every literal with every supported scalar type",
 "Tests cover a few of the kind and type combinations.",
 ["src/convert.rs","src/containers.rs","src/decode.rs"],
 ["match on the kind of the literal","error emission with a dummy value"])
p("C16","Derived decoders fill arguments and properties exactly",
 "Arguments fill the argument fields in order, a trailing list field takes the rest, and properties fill fields by their name with a catch-all field taking the others. Missing items give the default, an absent optional value or an error; superfluous arguments and unknown properties are errors; no value is dropped, duplicated or put into another field.",
 ["inputs","programs"],"every node, and every structure with argument and property fields",
 "Tests decode one or two nodes for each attribute; the claim is over all nodes and combinations of attributes.",
 ["derive/src/node.rs","derive/src/definition.rs"],
 ["argument iterator is consumed in field order","match on the property name","missing value handling"])
p("C17","Derived decoders route every child node exactly once",
 "Each child node is decoded into the field declared for its name, children lists keep source order, and flag fields tell whether the node is present. Unknown children, duplicates of single children and missing required children are errors, and unwrapped children yield the value inside; a document root is decoded by the same rules.",
 ["inputs","programs"],"every list of child nodes, and every structure with child fields",
 "Tests decode a few documents for each attribute.",
 ["derive/src/node.rs","derive/src/definition.rs","src/containers.rs","src/decode.rs"],
 ["match on the child name","duplicate detection","required and default handling after the loop"])
p("C18","Flattened structures receive exactly the items the parent does not declare",
 "A property or child not declared by a structure before its flattened field is offered to the flattened structure, which takes it if and only if it declares that name, at any depth of flattening. Items nobody declares remain errors, and decoding a flattened structure gives the same field values as if its fields were declared in the parent.",
 ["inputs","programs"],"every node, and every nesting of flattened structures, also boxed ones",
 "Tests decode one node with flattened properties and children.",
 ["derive/src/node.rs","src/containers.rs","src/traits.rs"],
 ["partial decoding returns whether the item was consumed","delegation through containers"])
p("C19","Enums decode by name: node variants, scalar variants, unit nodes",
 "A node decodes into the enum variant whose kebab-case name equals the node name, with the payload decoded by the rules of that variant, and a scalar enum value decodes from exactly the kebab-case string of its variant. Any other name or string is an error located at it, and a variant or structure without fields rejects arguments, properties and children.",
 ["inputs","programs"],"every node name and string, and every derived enum",
 "Tests decode a few names for a few enums.",
 ["derive/src/variants.rs","derive/src/scalar.rs","derive/src/node.rs"],
 ["match on the node name","conversion of variant names to kebab-case"])
p("C20","Raw documents and containers decode without loss",
 "Decoding a node or value into its raw form gives it back unchanged, including type annotations, order, children and positions. Boxing, reference counting, optional and position-keeping wrappers decode exactly as the wrapped type does, with the position being that of the decoded element, and a list decodes each node in order.",
 ["inputs","programs"],"every document, and every nesting of containers",
 "Tests decode one raw node.",
 ["src/convert_ast.rs","src/containers.rs","src/span.rs"],
 ["structural copy","delegation to the wrapped type"])
p("C21","The decoding context returns the last value stored for a type",
 "Reading a value of some type from the decoding context returns the value of that type stored last, and nothing when none was stored, independently of values of other types and of emitted errors. Values stored before decoding are visible to every decoder of the document.",
 ["histories"],"every sequence of stores, reads and emitted errors over any set of types",
 "A test stores a single value once.",
 ["src/decode.rs","src/wrappers.rs"],
 ["map keyed by type"])
p("C22","Comparison, ordering, hashing and lookup ignore positions",
 "Two elements compare, order and hash exactly as their values do, whatever their positions are, so looking up a property by name finds it wherever it was written, and a repeated property replaces the earlier one.",
 ["inputs"],"every pair of values and positions",
 "No test compares elements with different positions.",
 ["src/span.rs"],
 ["equality, order and hash of an element are those of its value"])
p("C23","Decode errors are located at the element that is wrong",
 "Each decode error is labelled with the exact span of the literal, annotation, name or node it complains about: a bad or unexpected value at the value, a bad annotation at the annotation, an unexpected property at its name, an unexpected or unknown node at the node or its name, and a missing item at the node that lacks it. Its message names what was expected and what was found.",
 ["inputs","programs"],"every document that parses but does not decode",
 "Tests check messages, rarely locations.",
 ["src/errors.rs","src/convert.rs","src/decode.rs","derive/src/node.rs"],
 ["error constructors copy the span of the given element"])
p("C24","Type names and documents survive serialization",
 "The text of a type name parsed back gives an equal type name, for builtin and for any custom name, and different type names have different texts. A document encoded into the binary format and decoded back is equal to the original in every part, including positions.",
 ["inputs"],"every type name and every parsed document",
 "No test covers the binary codec, and names are sampled.",
 ["src/ast.rs","src/span.rs"],
 ["name to builtin mapping and its inverse","field numbering of the codec"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
