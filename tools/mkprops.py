#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os
G="src/grammar.rs"; A="src/ast.rs"; SP="src/span.rs"; ER="src/errors.rs"; W="src/wrappers.rs"; CV="src/convert.rs"
CA="src/convert_ast.rs"; CO="src/containers.rs"; D="src/decode.rs"; T="src/traits.rs"
N="derive/src/node.rs"; V="derive/src/variants.rs"; DF="derive/src/definition.rs"; SC="derive/src/scalar.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["knuffel::parse_ast"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Parsing accepts exactly the KDL 1.0 language",
 "For every text, parsing to an AST succeeds if and only if the text is a well-formed KDL 1.0 document: every legal spelling of node names, type annotations, arguments, properties, children blocks, comments, line continuations, slashdash and node terminators is accepted, and any text outside the grammar is reported as an error. Identifiers may contain every character the KDL grammar allows, and a name that merely starts with a keyword (such as nullable) is an ordinary name.",
 ["inputs"],"every Unicode text (nesting bounded only by stack size)",
 "The tests parse a few dozen hand-written snippets; acceptance is a statement about all texts, and the interesting errors live in rare character classes and token adjacencies no sample covers.",
 [G],[("character classes and token parsers",G+": ws_char, newline, id_char, id_sans_dig, id_sans_sign_dig, bare_ident, number, string"),("node/children/terminator grammar",G+": nodes, prop_or_arg, node_space, node_terminator")],
 [("grammar position","what may come next (node list, after name, in items, after children, inside a token)",G)])
p("C02","The AST mirrors the document",
 "For every accepted text the AST contains exactly the nodes of the document, in source order and with the same nesting; each node carries its name, its optional type name, its arguments in order with their optional type names, and for each property name the value written last. A node has a children list exactly when braces that are not commented out are present, an empty pair of braces giving an empty list. A type name keeps its spelling and counts as a built-in one exactly when it is spelled like one.",
 ["inputs"],"every accepted text",
 "Tests check isolated fields of small documents; order, nesting and last-wins must hold for all combinations of items.",
 [G,A],[("node assembly",G+": nodes() map closure"),("property map insertion",G+": node.properties.insert"),("type names",A+": TypeName::from_string")])
p("C03","String and identifier content is decoded exactly",
 "Every quoted string denotes exactly its characters with each escape sequence replaced by the character it denotes (including \\u{...} with one to six hex digits naming a Unicode scalar value), every raw string denotes its characters verbatim up to the first quote followed by the same number of hashes, and every bare identifier denotes itself. Any other escape, and any code that is not a Unicode scalar value, is an error.",
 ["inputs"],"every string or identifier token, in every position where one may occur",
 "Tests try five strings; the property is about all contents, all escapes, all hash counts and all positions.",
 [G],[("escapes",G+": esc_char, escaped_string"),("raw strings",G+": raw_string"),("identifiers",G+": bare_ident, ident")])
p("C04","Numbers are exact or rejected",
 "Every integer literal (binary, octal, decimal, hexadecimal, any sign, any underscores) decodes into a Rust integer type to exactly the number it denotes when that number fits the type, and to an error when it does not; it is never wrapped, truncated or clamped; a literal with a minus sign, even -0, is no unsigned number. Every literal with a fraction or exponent decodes into f32/f64 as the correctly rounded value of the number written, and integers and decimals are told apart by their spelling.",
 ["inputs"],"every numeric literal and every supported integer/float type",
 "Tests decode a handful of numbers into u64 and f64; boundaries of ten integer types in four radixes are never touched.",
 [G,CV],[("literal scanners",G+": decimal_number, radix_number"),("conversions",CV+": impl_integer!, impl_float!")],
 observe=["knuffel::parse","TryFrom<&Integer>","TryFrom<&Decimal>"])
p("C05","Whitespace, comments and continuations never change the data",
 "Replacing, adding or removing whitespace (any KDL whitespace character or byte order mark), newlines of any kind, single-line comments, nestable multi-line comments or backslash line continuations, wherever the grammar allows them, never changes the AST apart from spans. A comment's content is never interpreted as data, whatever characters it contains.",
 ["inputs"],"every document and every insertion of trivia at a legal place",
 "Each test uses one layout; the claim quantifies over all layouts of all documents.",
 [G],[("trivia parsers",G+": ws, comment, ml_comment, esc_line, node_space, line_space, node_terminator")])
p("C06","Slashdash removes exactly the next element",
 "A slashdash before a node, an argument, a property or a children block removes exactly that element from the document and nothing else: the AST is the one obtained by blanking out the element's text. The removed element must itself be well formed, a removed property does not override an earlier one, and a removed node takes all its arguments, properties and children with it.",
 ["inputs"],"every document and every legal placement (and nesting) of slashdash, with any legal space after it",
 "Tests cover one slashdash of each kind; interaction with overrides, nesting, children and spacing is untested.",
 [G],[("slashdash",G+": begin_comment('-') in prop_or_arg and nodes()")])
p("C07","Byte spans delimit exactly the construct's source text",
 "In every AST, the span of a name, literal, type annotation or children block covers exactly the bytes of that token in the source (type annotations with their parentheses, children with their braces), and a node's span starts at its type annotation or name and ends after its terminator (newline, comment with its newline, semicolon or end of input). Spans therefore lie on character boundaries, nest like the constructs and are ordered as in the source.",
 ["inputs"],"every accepted text, including multi-byte characters and every terminator kind",
 "Tests check node spans for four ASCII documents; token spans are never checked.",
 [G,SP,T],[("span computation",G+": spanned()"),("offset tracking",SP+": OffsetTracker::next_span, Span::stream")],
 observe=["Spanned::span","#[knuffel(span)]"])
p("C08","Line/column spans agree with byte spans and newline rules",
 "Parsing with line-tracking spans gives the same AST as parsing with byte spans, each position having the same byte offset plus the zero-based line and column of that offset. Lines are separated by LF, CR, CRLF (counting once), FF, NEL, LS and PS; columns count display width, a tab counting eight and control characters zero.",
 ["inputs"],"every accepted text",
 "No test in the suite parses with line-tracking spans at all.",
 [SP],[("line tracking",SP+": LineTracker::next_span, LineSpan::stream"),("conversion back to offsets",SP+": DecodeSpan<LineSpan> for Span")],
 observe=["knuffel::parse_ast::<LineSpan>"])
p("C09","Parsing is total: no panic, no blow-up, well-formed reports",
 "For every text (within a nesting depth the thread's stack can hold) parsing returns either a document or an error, without panicking and in time that does not grow exponentially with the input; the same text always gives the same result. A syntax error report carries at least one diagnostic, each with a message and at least one label, and every label lies inside the source text on character boundaries, so the report can always be rendered; it carries the given file name and the text.",
 ["inputs"],"every text, well formed or not",
 "Tests feed well-behaved inputs; absence of panics and of pathological backtracking is a claim about all inputs.",
 [G,ER,W,SP],[("error construction and merging",ER+": ParseError, merge"),("span arithmetic in reports",SP+": at_start, before_start, at_end")],
 observe=["knuffel::parse_ast","miette::Diagnostic"])
p("C10","Syntax errors point at the offence",
 "When a text is not well formed, the diagnostics reported identify the first place where it stops being a prefix of any well-formed document: at least one label touches that place (the offending character, or the token or element that became invalid there). Only a malformed \\u escape or a bare identifier used as an argument, which the parser recovers from, may go unreported if a further error follows. When the input ends inside a string, raw string or comment, or after a complete item of a children block, the report says which construct is unclosed, labels the construct's opening delimiter and the end of input. What a message says was found is what stands at its label.",
 ["inputs"],"every text that is not well formed",
 "A dozen error texts are tested; error merging and recovery depend on the whole context in which the error occurs.",
 [G,ER],[("unclosed reports",G+": map_err_with_span in ml_comment, raw_string, escaped_string, braced_nodes"),("furthest-failure merging",ER+": ParseError::merge")],
 observe=["miette::Diagnostic::labels"])
p("C11","Arguments fill argument fields by position",
 "Decoding a node into a derived type assigns its arguments to the `argument` fields in declaration order and all remaining ones, in order, to the `arguments` field. A missing argument is an error unless the field is optional (then None) or has a default (then the default); an explicit null gives None for an optional field even if it has a default; a surplus argument is an error.",
 ["inputs","programs"],"every derived type with any mix of argument fields (optional, defaulted, variadic, tuple or named) and every node",
 "Tests pair five struct shapes with two or three nodes each.",
 [N,DF],[("argument decoding",N+": decode_args"),("field classification",DF+": StructBuilder::add_field, is_option")],observe=["knuffel::parse::<Vec<T>>"])
p("C12","Properties fill property fields by name",
 "Decoding a node assigns each property to the field whose name (kebab-case of the field name, or the explicit name) equals the property name, whatever the order in the source, and every remaining property to the `properties` field. A missing property is an error unless the field is optional (None) or has a default (the default); an explicit null gives None for an optional field even if it has a default; an unknown property is an error.",
 ["inputs","programs"],"every derived type with any mix of property fields and every node",
 "Tests pair five struct shapes with two or three nodes each and never mix named, optional and catch-all fields.",
 [N,DF],[("property decoding",N+": decode_props"),("naming",DF+": to_kebab_case on field names")],observe=["knuffel::parse::<Vec<T>>"])
p("C13","Children fill child fields by node name",
 "Decoding assigns each child node to the `child` field or `children(name)` field of its name, preserving source order, and all other children, in order, to the catch-all `children` field; a boolean child is true exactly when a bare node of that name is present. A second node for a single `child` field, a missing required child, an unknown child and a boolean child with arguments, properties or children are errors; optional and defaulted children may be absent.",
 ["inputs","programs"],"every derived type with any mix of child fields and every node or root document",
 "Tests cover each child kind alone; interleavings and duplicate/unknown combinations are not covered.",
 [N,DF,D],[("children decoding",N+": decode_children, decode_node"),("flag nodes",D+": check_flag_node")],observe=["knuffel::parse"])
p("C14","unwrap() behaves as a one-field wrapper struct",
 "A child or children field with unwrap(attributes) decodes exactly like a field whose type is a derived one-field struct carrying those attributes (that field never counting as optional), with the inner field then taken out: same accepted documents, same values, same errors for missing, surplus or ill-typed content, for arguments, properties and nested children alike.",
 ["inputs","programs"],"every unwrap form (argument, arguments, property, properties, child, children, nested) and every node",
 "Tests try unwrap(argument) and unwrap(arguments) on good inputs.",
 [N,DF],[("unwrap closure",N+": unwrap_fn")],observe=["knuffel::parse"])
p("C15","flatten behaves as if the fields were inlined",
 "A field with flatten(child) or flatten(property) takes exactly the children or properties its structure declares, as if those fields were declared in the enclosing struct at that point; everything else is left to the enclosing struct, and what neither declares is an error. What is absent comes from the flattened structure's own Default. Duplicates, boolean children and nested flattening behave as in the inlined struct.",
 ["inputs","programs"],"every flattened structure of optional fields, at any depth, with any surrounding fields, and every node",
 "Tests use one flattened field alone with one input.",
 [N,CO],[("partial decoding",N+": insert_child, insert_property, flatten branches"),("partial decoding through Box/Rc/Arc",CO)],observe=["knuffel::parse"])
p("C16","Enums are decoded by node name",
 "A derived enum decodes a node into the variant whose kebab-case name equals the node name, decoding the node's content by that variant's declaration (unit, nested, optional nested, or inline fields); unit variants admit no arguments, properties or children. A node whose name is not the name of a non-skipped variant is an error naming the expected ones.",
 ["inputs","programs"],"every derived enum and every node",
 "Tests use two enums with a handful of nodes.",
 [V,DF],[("dispatch",V+": decode"),("skip",DF+": Enum::new")],observe=["knuffel::parse::<Vec<Enum>>"])
p("C17","Scalars decode only from the right kind and annotation",
 "A scalar decodes into a Rust value only if its kind matches the type (string for string-like types, path types and derived scalar enums; boolean for bool; integer literal for integers; fraction/exponent literal for floats; null only for Option) and its type annotation is absent or names that very type; every standard annotation named after a supported type (u8 to isize, f32, f64, base64) is recognised. Otherwise decoding fails with an error that states the kind or annotation expected and the one found.",
 ["inputs","configurations"],"every scalar type, every literal kind and every type annotation",
 "Tests decode each scalar type once from a good, unannotated literal.",
 [CV,SC,CO,A],[("kind and annotation checks",CV+": raw_decode, type_check"),("derived scalar enums",SC+": emit_enum"),("builtin names",A+": BuiltinType::from_str, as_str")],observe=["knuffel::parse","DecodeScalar"])
p("C18","str and bytes modes decode faithfully",
 "A field in str mode receives exactly the FromStr parse of the string literal and fails with that parse's error otherwise; a field in bytes mode receives the UTF-8 bytes of an unannotated string and the base64-decoded bytes of a (base64) string, invalid base64 being an error. Any other annotation or literal kind is an error, except that null gives None for optional fields.",
 ["inputs","configurations"],"every literal, annotation and field form (argument, property, optional, unwrapped)",
 "Tests use two strings per mode.",
 [N,D],[("decode modes",N+": decode_value"),("bytes",D+": bytes")],observe=["knuffel::parse"])
p("C19","Decoding is all-or-nothing and loses nothing",
 "Typed decoding succeeds only if no error was reported anywhere while decoding, and then every argument, property and child node of the document has been stored in exactly one field of the result; fields without annotation get their default. If anything was reported or returned as an error, the call fails and carries every reported error, in the order reported, followed by the one that stopped decoding, if any.",
 ["inputs","programs","histories"],"every derived type and document, including several faults in one document",
 "Tests have one fault per document; loss or masking needs combinations of faults and fields.",
 [W,D,N,CO],[("error accumulation",D+": Context::emit_error, has_errors; "+W+": parse_with_context"),("collecting sequences",CO+": DecodeChildren for Vec<T>")],
 [("ctx.errors","errors reported so far",D)],observe=["knuffel::parse","knuffel::decode::node"])
p("C20","Decode errors name and locate the culprit",
 "Each decode error is of the kind describing the fault (wrong type name, wrong scalar kind, missing element, unexpected element, failed conversion) and labels exactly the offending element: the literal for a bad or surplus argument, the property name for an unknown property, the node for an unknown child, the node name for a duplicate child, the type annotation for a bad annotation, the enclosing node for a missing element (none at document level). Its message names the argument, property or node concerned, and the report carries the given file name and the source text.",
 ["inputs","programs"],"every derived type and document that fails to decode",
 "Tests compare messages of a dozen failures and never their positions.",
 [ER,N,V,D],[("error constructors",ER+": DecodeError::*"),("error sites",N)],observe=["miette::Diagnostic::labels"])
p("C21","Spans, names, type names and context reach the decoded value",
 "Fields marked span, node_name and type_name receive the node's span (converted by the span type's own decoder), its name and its type name, parsed by the field's type; a missing required type name and a failed parse are errors, and a node type name is an error where the type declares no type_name field. Values placed in the context before decoding are visible, one per type and last one wins, to every decoder invoked during that call and to no other call.",
 ["inputs","histories"],"every node, every derived type with special fields, every sequence of context values",
 "Tests check three span documents; contexts are never exercised.",
 [N,T,D,SP,W],[("special fields",N+": decode_specials"),("context",D+": Context::set/get; "+W+": parse_with_context")],observe=["knuffel::parse_with_context"])
p("C22","Decoding into AST types is the identity",
 "Decoding any node into the AST node types, or any value into the AST value and literal types, reproduces the parsed node or value completely (names, type names, arguments, properties, children present or absent, spans converted by the span decoder) and never fails.",
 ["inputs"],"every accepted document, wherever an AST-typed field may appear",
 "One test counts two children.",
 [CA],[("AST passthrough",CA)],observe=["knuffel::parse::<Vec<SpannedNode<Span>>>"])
p("C23","Serialized ASTs decode to the same AST",
 "With the minicbor feature, encoding any parsed document and decoding the bytes yields a document equal in every name, type name, literal, order, children presence and span, for both span types; re-encoding yields the same bytes.",
 ["inputs"],"every accepted document",
 "No test encodes a document.",
 [A,SP],[("minicbor derives and impls",A+": cbor module, n(..) indices")],observe=["minicbor::to_vec","minicbor::decode"])
p("C24","Containers and root forms are transparent",
 "Box, Rc, Arc, Option, Vec and Spanned around a decodable type accept exactly what that type accepts and hold the same value (Option additionally mapping null to None, Spanned additionally recording the literal's span). Decoding a document as a root struct equals decoding a node having that document as its children, and decoding it as Vec<T> equals decoding each node as T in order.",
 ["inputs","programs"],"every container, every inner type and every document",
 "Tests decode only through Vec, Option and plain types on good inputs.",
 [CO,W],[("container impls",CO)],observe=["knuffel::parse"])
p("C25","Contradictory type definitions do not compile",
 "Deriving a decoder compiles for every field list the documentation allows and is rejected at compile time for every contradictory one: a field after the catch-all of its group, two catch-alls of one group, a positional property without a name, a single child in a tuple struct, an optional flatten, a decode mode on children or special fields, or more than one mode, default or unwrap on a field. A struct is usable as a document root exactly if it declares only children, and as a flatten target exactly if everything it declares is optional, without arguments, catch-alls or special fields. Attributes without meaning on the container or variant that carries them are rejected too, and DecodeScalar is accepted exactly on enums of variants without data.",
 ["programs"],"every sequence of field declarations",
 "Compile-fail behaviour is not tested at all.",
 [DF,N],[("definition builder",DF+": StructBuilder::add_field, FieldAttrs::update"),("trait selection",N+": emit_struct")],
 [("builder","which catch-alls and members have been declared so far",DF)],observe=["cargo check diagnostics"])
p("C26","Spans never influence comparison of values",
 "Two spanned values compare equal, order and hash exactly as their inner values do, so lookups by plain name in any map or set keyed by spanned names find the entry wherever it was written. Mapping a spanned value keeps its span and mapping its span keeps its value.",
 ["inputs"],"every pair of spanned values and every property map",
 "Tests look up a few names in freshly parsed nodes.",
 [SP],[("comparison impls",SP+": PartialEq, Ord, Hash, Borrow for Spanned")],observe=["Spanned","Node::properties"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
