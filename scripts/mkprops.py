import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Integers survive variable-length encoding and use the minimal length",
 "For every integer of every width and sign, encoding then decoding returns the same integer, consumes exactly the bytes written, writes the shortest LEB128 form (zigzag for signed, one raw byte for 8-bit), and the predicted size equals the number of bytes written. Decoding any terminated LEB128 sequence within the width's maximum length whose value fits returns that value and its length, and a sequence without a terminating byte within that maximum is an error.",
 ["inputs"],"all values of the 8- and 16-bit types, all values around every 7-bit/zigzag boundary and power of two of the wider types; all byte strings up to the stated length over a boundary alphabet",
 "The tests sample MIN, -1, 0, 1, MAX per type; a wrong bit in one 7-bit group, one length class or one width is not visible there.",
 ["crates/mabo/src/varint.rs","crates/mabo/src/buf/encode.rs","crates/mabo/src/buf/decode.rs","crates/mabo/src/buf/size.rs"],
 [("LEB128 loops and zigzag transforms","crates/mabo/src/varint.rs varint!/zigzag! macros")],["mabo::varint::*","mabo::buf::{encode,decode,size}_<int>"])

p("C02","Decoding what generated code encoded returns the same value",
 "For every schema and every value of a type it defines, encoding the value with the generated Rust code and decoding the bytes with the same code yields an equal value and consumes exactly the bytes that were written, no matter what follows them in the buffer. The same holds for the standard-library types the runtime can encode and decode directly.",
 ["programs","inputs"],"all type shapes up to a nesting depth, in structs, enums, generics and aliases, with all boundary values of each shape, for both representations of bytes",
 "Snapshot tests compare generated text with text; nothing compiles and runs the generated code over the space of types times values.",
 ["crates/mabo-build/src/encode.rs","crates/mabo-build/src/decode.rs","crates/mabo-build/src/definition.rs","crates/mabo/src/buf/encode.rs","crates/mabo/src/buf/decode.rs"],
 [("generated Encode/Decode implementations","mabo-build compile_struct/compile_enum/compile_data_type"),("runtime codecs","crates/mabo/src/buf")],["Encode::encode","Decode::decode"])

p("C03","The predicted size equals the encoded length",
 "For every value of every type that can be encoded, the size reported ahead of encoding equals the number of bytes encoding then writes. This holds for generated structs and enums, for every standard-library type, and for every individual runtime encoding function and its size counterpart.",
 ["programs","inputs"],"same type and value universe as C02, including collections whose content crosses the one- and two-byte length boundaries",
 "No existing test calls the size of a collection or of a generated type, so every collection size is unconstrained.",
 ["crates/mabo/src/buf/size.rs","crates/mabo-build/src/size.rs"],
 [("runtime size functions","crates/mabo/src/buf/size.rs"),("generated Size implementations","crates/mabo-build/src/size.rs")],["Size::size"])

p("C04","Decoding arbitrary bytes never panics, hangs or allocates without bound",
 "Decoding any byte string as any generated or standard-library type returns either a value or an error: it never panics, never loops without consuming input, and never allocates memory out of proportion to the input. Every strict prefix of a valid encoding is rejected with an error unless it is itself complete, and a value that was accepted re-encodes to bytes that decode to the same value again.",
 ["inputs","programs"],"all byte strings up to a length over a boundary alphabet, all truncations and all single-byte substitutions of valid encodings, for every type shape of the universe",
 "Tests decode well-formed data only; malformed input, short arrays and length prefixes larger than the buffer are not exercised.",
 ["crates/mabo/src/buf/decode.rs","crates/mabo-build/src/decode.rs"],
 [("remaining-size checks before each read","crates/mabo/src/buf/decode.rs ensure_size!"),("bounded sub-buffers","crates/mabo/src/buf/decode.rs take()")],["Decode::decode result"])

p("C05","Readers skip unknown fields and tolerate compatible schema changes",
 "Data written with one version of a schema decodes with another version that adds, removes or reorders identified fields: unknown fields of any type are skipped without disturbing the others, absent optional fields become empty, and shared fields keep their values. A definition with a shorter array type reads the leading elements of a longer one. A missing required field and an unknown enum variant are reported as errors naming the identifier, and never as a wrong value.",
 ["programs","inputs"],"all pairs of field subsets, orders and renamings of a struct or variant over the type universe, with all boundary values",
 "It relates two schemas; the tests never decode data of one schema with another.",
 ["crates/mabo-build/src/decode.rs","crates/mabo-build/src/encode.rs","crates/mabo/src/lib.rs","crates/mabo/src/buf/decode.rs"],
 [("field id carries the skip encoding","crates/mabo/src/lib.rs FieldId"),("decode_skip","crates/mabo/src/buf/decode.rs")],["Decode::decode result"])

p("C06","Decoding does not depend on how the input buffer is split",
 "For every byte string and every way of splitting it into consecutive chunks, decoding from the chunked buffer gives the same result, and consumes the same number of bytes, as decoding from one contiguous buffer. Encoding writes the same bytes into any kind of growing output buffer.",
 ["inputs","configurations"],"all split points (all 2^(n-1) chunkings of short inputs, all one- and two-cut chunkings of longer ones) of valid, truncated and corrupted encodings",
 "Tests always decode from one slice.",
 ["crates/mabo/src/buf/decode.rs"],[("reads through the buffer abstraction","crates/mabo/src/buf/decode.rs decode_int!")],["Decode::decode over a chunked Buf"])

p("C07","Encoded bytes follow the documented wire format exactly",
 "Every value encodes to exactly the bytes the wire format prescribes: field keys carrying identifier and skip class, fixed, variable and length-prefixed payloads, length prefixes counting bytes (arrays and tuples that are fields included), option tags, variant identifiers and end markers, in declaration order. Any conforming encoding, including other field orders and repeated fields (last one wins), is understood.",
 ["programs","inputs"],"same universe as C02, each compared with an independent encoder and decoder written from the format documentation",
 "Round trips cannot see an encoder and decoder that are wrong together; no test contains a byte-level expectation for generated code.",
 ["crates/mabo/src/buf/encode.rs","crates/mabo/src/lib.rs","crates/mabo-build/src/encode.rs","book/src/reference/wire-format.md"],
 [("field keys","crates/mabo/src/lib.rs FieldId::into_u32"),("payload encoders","crates/mabo/src/buf/encode.rs")],["bytes produced by Encode::encode"])

p("C08","Non-zero types can never hold or decode a zero or empty value",
 "A non-zero integer, string, byte array or collection can neither be constructed nor decoded holding zero or nothing: such data is rejected with the dedicated zero error, and every non-zero value is accepted unchanged. Encoding a non-zero value gives the same bytes as the plain value.",
 ["inputs"],"all non-zero shapes times all boundary payloads including zero, empty and malformed ones",
 "The tests check one valid and one empty payload per collection and no integer.",
 ["crates/mabo/src/lib.rs","crates/mabo/src/buf/decode.rs"],[("NonZero constructors","crates/mabo/src/lib.rs non_zero_collection!"),("decode_non_zero_*","crates/mabo/src/buf/decode.rs")],["decode result, NonZero::new"])

p("C09","Parsing terminates on every text with a schema or an in-bounds error",
 "For every input text the parser returns either a schema or an error, without panicking and in time polynomial in the input. Every error can be rendered, and every location it reports lies inside the source text on character boundaries.",
 ["inputs"],"all token sequences up to a length, all single-character edits and truncations of a corpus covering every construct, multi-byte characters and CRLF included",
 "Tests parse a fixed set of valid files and about a hundred invalid ones.",
 ["crates/mabo-parser/src/parser","crates/mabo-parser/src/error.rs","crates/mabo-parser/src/ext.rs"],
 [("winnow grammar with cut errors","crates/mabo-parser/src/parser/*"),("error to diagnostic conversion","crates/mabo-derive")],["Schema::parse result"])

p("C10","The parser accepts exactly the grammar and builds the right tree",
 "A text is accepted exactly when the schema grammar derives it, and the resulting tree contains the definitions, names, types, identifiers, literals, comments and attributes that were written, in order. Every location recorded in the tree selects exactly the text of the element it belongs to.",
 ["inputs"],"all texts derived from the grammar up to a size with all layouts of optional whitespace and trailing commas, and all their one-token mutations",
 "Snapshot tests pin some dozens of inputs; acceptance and tree shape of other combinations of constructs are open.",
 ["crates/mabo-parser/src/parser","crates/mabo-parser/src/lib.rs","crates/mabo-parser/src/punctuated.rs","crates/mabo-parser/src/token.rs"],
 [("combinators per construct","crates/mabo-parser/src/parser/*.rs"),("span tracking","crates/mabo-parser/src/ext.rs")],["Schema::parse tree"])

p("C11","Formatting a schema keeps its meaning and is idempotent",
 "The formatted text of every accepted schema parses again, to a schema with the same definitions, names, types, identifiers, literal values, comments and attributes. Formatting a formatted text changes nothing.",
 ["inputs"],"all schemas of the C10 universe and of the literal/comment/attribute universes",
 "Print snapshots cover one schema per file and are never parsed back.",
 ["crates/mabo-parser/src/lib.rs","crates/mabo-parser/src/punctuated.rs","crates/mabo-cli/src/main.rs"],
 [("Print/Display implementations","crates/mabo-parser/src/lib.rs")],["Schema Display","mabo fmt"])

p("C12","Validation accepts a schema exactly when every schema rule holds",
 "A schema is accepted exactly when identifiers are unique among the fields of a struct or variant and the variants of an enum (explicit and derived ones alike), names are unique in their scope, declared generics of structs, enums and type aliases are unique and used, field identifiers lie between 1 and 2^29-1, and tuples have 2 to 12 elements, at any nesting depth. The error for a rejected schema names the violated rule and the offending elements.",
 ["inputs"],"all schemas built from small alphabets of names, identifiers, generics and types, in every nesting position",
 "Tests hold one invalid file per rule; interactions and positions (nested modules, variants, types in types) are not covered.",
 ["crates/mabo-compiler/src/validate"],[("duplicate maps per scope","crates/mabo-compiler/src/validate/{ids,names,generics,tuples}.rs")],["validate_schema result"])

p("C13","Type resolution accepts exactly references to existing definitions",
 "A set of schemas resolves exactly when every referenced type is a declared generic of its definition, or a struct or enum defined or imported in the same scope, or reachable by a module path, with the matching number of generic arguments (targets of type aliases included), and every import names an existing schema, module and element. The outcome does not depend on the order of the schemas or of the definitions.",
 ["programs","configurations"],"all small schema sets over modules, imports, definitions and references, in all file orders",
 "Tests hold a handful of single-schema resolution failures; no test resolves several schemas in different orders.",
 ["crates/mabo-compiler/src/resolve/mod.rs"],[("module tree and import lookup","crates/mabo-compiler/src/resolve/mod.rs")],["resolve_schemas result"])

p("C14","Omitted identifiers are derived the same way by every tool",
 "An omitted field or variant identifier is the previous one plus one, starting at one, and an explicit identifier restarts the count from itself. The validator, the code generators, the documentation and the editor hints all use the same identifiers, and the suggested next identifier is unused.",
 ["inputs","programs"],"all sequences of explicit and omitted identifiers up to a length over a boundary alphabet, for named and unnamed fields and for variants",
 "Tests fix single sequences; agreement between the tools is never compared.",
 ["crates/mabo-compiler/src/lib.rs","crates/mabo-compiler/src/simplify.rs","crates/mabo-compiler/src/validate/ids.rs","crates/mabo-meta/src/lib.rs"],
 [("IdGenerator","crates/mabo-compiler/src/lib.rs"),("next_field_id/next_variant_id","crates/mabo-meta/src/lib.rs")],["simplified schema ids, encoded bytes, docs, hover"])

p("C15","Every valid schema generates Rust code that compiles",
 "For every schema that passes validation and resolution the Rust generator finishes without panicking and produces the same code every time. The code compiles on its own against the runtime and declares one public item per definition with the declared fields, types, constants and comments.",
 ["programs"],"all type shapes up to a nesting depth in every position (fields, variants, aliases, generics, constants, imports), for both representations of bytes",
 "Snapshots are compared as text and never compiled.",
 ["crates/mabo-build/src"],[("token generation per type","crates/mabo-build/src/{definition,encode,decode,size}.rs")],["rustc verdict on generated code"])

p("C16","Generated Go code is well-formed and mirrors the schema",
 "For every schema that passes validation and resolution the Go generator finishes without panicking, gives the same output every time, and produces syntactically valid Go. Types, fields, constants and identifiers follow the schema, and the encoding, decoding and size code of each type handle the same fields under the same identifiers with matching primitive operations.",
 ["programs"],"all type shapes up to a nesting depth in every position, all module trees up to a size",
 "Snapshots pin one file per construct as text; no test parses the Go output.",
 ["crates/mabo-go/src"],[("per-type Go templates","crates/mabo-go/src/{definition,encode,decode,size}.rs")],["mabo_go::render_schema output"])

p("C17","Reported wire sizes bound every encoding",
 "The minimum and any finite maximum wire size reported for a definition, field or variant bound the encoded length of every value of it: for a field, the length of its payload without the field key. Analysis terminates without overflow on every valid schema.",
 ["programs","inputs"],"all type shapes of the universe times all boundary values, compared with the reference encoder",
 "Size reports are not tested at all.",
 ["crates/mabo-meta/src/lib.rs"],[("recursive size bounds","crates/mabo-meta/src/lib.rs wire_size")],["wire_size output, hover text"])

p("C18","Editor diagnostics depend only on the current document text",
 "After any sequence of open, edit, close and configuration messages, in any arrival order the protocol allows, the server's diagnostics and answers for a document equal those of a fresh server with the same configuration that just opened the document with its current text. Lines end with \\n or \\r\\n, and columns count in the first supported position encoding that the client offers. No sequence of well-formed messages makes the server crash, hang or lose an edit.",
 ["histories","schedules"],"all sequences of protocol messages up to a length over an alphabet of edits (multi-change, multi-byte, line-end and document-end positions), all three position encodings, and all arrival positions of client messages around the server's own requests",
 "The language server has no tests.",
 ["crates/mabo-lsp/src/handlers/mod.rs","crates/mabo-lsp/src/handlers/index.rs","crates/mabo-lsp/src/handlers/compile.rs","crates/mabo-lsp/src/main.rs","crates/mabo-lsp/src/client.rs","crates/mabo-lsp/src/state.rs"],
 [("incremental text update","crates/mabo-lsp/src/handlers/mod.rs did_change"),("message loop","crates/mabo-lsp/src/main.rs")],["published diagnostics, request answers"])

p("C19","Editor tokens, symbols and hovers match the document positions",
 "For every valid document the semantic tokens, decoded from their relative form, are ordered, non-overlapping, inside the document, and there is exactly one with the right kind for each keyword, name, type, identifier, line of a documentation comment and scalar literal; document symbols nest, and their ranges contain their names. Hovering any position inside a definition's name reports that definition, in each negotiated position encoding.",
 ["inputs","configurations"],"all documents of a small grammar universe with multi-byte characters, every position in them, every position encoding",
 "The language server has no tests.",
 ["crates/mabo-lsp/src/handlers/semantic_tokens.rs","crates/mabo-lsp/src/handlers/document_symbols.rs","crates/mabo-lsp/src/handlers/hover.rs"],
 [("delta encoding of tokens","crates/mabo-lsp/src/handlers/semantic_tokens.rs")],["LSP responses"])

p("C20","Command-line tools never damage or misjudge schema files",
 "mabo check fails exactly for file sets with a file that can't be read or parsed, breaks a schema rule, or refers to something that doesn't exist, and changes nothing; mabo fmt rewrites exactly the selected files that parse, to their formatted text, leaves every other file (formatted ones included) untouched, goes on after a faulty file, and fails if one can't be read. mabo doc writes the pages of every schema of the project below its output directory, replaces outdated pages, leaves all other files alone, and fails if a schema can't be read or parsed. Only schema files selected by the project or the given patterns are touched, a project that can't be loaded is an error without effect, and running a command twice gives the same files as once.",
 ["inputs","configurations","histories"],"all projects of three files over an alphabet of file contents (absent, formatted, unformatted, CRLF, unparsable, invalid, unresolvable, importing, empty, binary), all ways to name them, all command sequences up to a length",
 "The command-line tool has no tests.",
 ["crates/mabo-cli/src/main.rs","crates/mabo-doc/src/lib.rs","crates/mabo-project/src/lib.rs"],
 [("check, fmt and doc commands","crates/mabo-cli/src/main.rs")],["file system effects, exit status"])

p("C21","A project contains exactly the schema files its patterns select",
 "Loading a project returns exactly the regular .mabo files that its patterns match (hidden and ignored files excluded), each once and in an order that does not depend on the file system, and fails with an error for an invalid project file. Project discovery finds exactly the directories that contain a project file, in an order that does not depend on the file system.",
 ["configurations","inputs"],"one large tree times all patterns of an alphabet of path segments and all short lists of patterns; all creation orders of the files; all placements of project files in a tree; all project files of valid and invalid field values",
 "Tests load a single fixed project.",
 ["crates/mabo-project/src/lib.rs","crates/mabo-project/src/de.rs"],[("glob expansion","crates/mabo-project/src/lib.rs load/collect_files")],["mabo_project::load/discover result"])

p("C22","Documentation covers every definition and only links to pages that exist",
 "For every valid schema the generated documentation has exactly one page per definition and module, named after it, showing its name, comment, fields, identifiers, types and sizes, the next free field identifier, and the comment of the whole schema, with all text escaped. Every link inside the documentation leads to a page of the same documentation set (links that a user wrote inside a comment aside), and the output is the same every time.",
 ["programs"],"all module trees up to a size with all definition kinds, type shapes and comments containing markup characters",
 "Snapshots pin a handful of pages; link targets are not followed.",
 ["crates/mabo-doc/src/lib.rs","crates/mabo-doc/src/templates.rs"],[("page tree and templates","crates/mabo-doc/src")],["rendered HTML files"])

p("C23","Code generators write all outputs of a valid project and nothing else",
 "Running the Rust build-time generator or the Go generator on a project succeeds exactly if every schema can be read, parses, is valid and resolves. On success the output directory holds the generated code of every schema of the project at the place its name prescribes, current even over outputs of an earlier state; on failure it is left exactly as it was. Files that are no output and the schemas themselves are never changed, and a second run changes nothing.",
 ["inputs","histories","configurations"],"all projects of three files over the alphabet of file contents of C20, all histories of two such states, project files and output directories that are missing or broken",
 "The tests call the code generation functions on single schemas; the drivers that load, check and write projects have no tests.",
 ["crates/mabo-build/src/lib.rs","crates/mabo-go/src/main.rs","crates/mabo-project/src/lib.rs"],
 [("project driver of the Rust generator","crates/mabo-build/src/lib.rs Compiler::compile"),("project driver of the Go generator","crates/mabo-go/src/main.rs")],["files in the output directory, result"])

p("C24","Resolution errors name what is missing and where",
 "When a set of schemas does not resolve, the reported error is about an import or reference that really doesn't resolve, and states the true reason: a schema, module or definition that is missing from the module it names, a missing import, another number of generics, or a definition that is no type. It points at exactly that name in the file it stands in and, if the definition exists but doesn't fit, at the name of that definition in its own file.",
 ["programs"],"all references, imports and pairs of imports over an alphabet of existing, missing and unfitting targets in all scopes, type contexts and graphs of up to three schemas, in several orders",
 "Error snapshots show a dozen sets of schemas with one problem each; which report is true depends on everything else in the scope.",
 ["crates/mabo-compiler/src/resolve/mod.rs","crates/mabo-compiler/src/resolve/error.rs"],
 [("local, import and remote lookups","crates/mabo-compiler/src/resolve/mod.rs resolve_local/resolve_import/resolve_remote/resolve_type_remotely")],["mabo_compiler::resolve_schemas error: cause, labels, source texts"])

p("C25","The editor shows each problem of a document at its place",
 "For every document the language server publishes no diagnostics if its text is a valid schema, and otherwise exactly one. A violated rule is shown at the offending element and names it, with the element it clashes with as related information in the same document; a syntax error is shown where the parser reports it. All places are ranges of the document in the negotiated position encoding.",
 ["inputs","configurations"],"all schemas that violate rules up to the bounds of C12, in several layouts with characters of every width before and beside the problem, all texts one edit away from a set of schemas, in all position encodings",
 "The language server has no tests.",
 ["crates/mabo-lsp/src/handlers/compile.rs","crates/mabo-lsp/src/handlers/index.rs","crates/mabo-lsp/src/handlers/mod.rs"],
 [("errors of parser and validator as diagnostics","crates/mabo-lsp/src/handlers/compile.rs"),("positions","crates/mabo-lsp/src/handlers/index.rs")],["published diagnostics"])

p("C26","The simplified schema and its JSON form say what the schema says",
 "For every schema that parses, the simplified form that generators and external tools work on has the same definitions in the same order, with the same names, comments, generics, fields, variants, types, literal values and import paths, its identifiers follow the counting rule, and every element is linked to the parsed element it came from. Its JSON form is valid JSON with exactly this content, numbers exact, and conforms to the published JSON Schema, which does not permit a document with a missing or mistyped part.",
 ["inputs","programs"],"every accepted text of the grammar universe (sentences, their single edits, bounded token strings, large definitions) and the schemas of the documentation check; every single damage of a covering set of documents",
 "The only test renders the JSON Schema without looking at it; no test renders a schema as JSON.",
 ["crates/mabo-compiler/src/simplify.rs","crates/mabo-compiler/src/lib.rs"],
 [("reduction of the parsed schema","crates/mabo-compiler/src/simplify.rs schema"),("JSON form (feature json)","crates/mabo-compiler/src/simplify.rs derives, Schema::json_schema")],["mabo_compiler::simplify_schema result, its serde output, Schema::json_schema()"])

p("C27","Syntax errors point to where the text goes wrong",
 "For every text that is not a schema, the parser reports a place that is never behind the first character that no schema can continue with, and never before the start of the token, path, number, comment, attribute value or list element that this character belongs to. The chain of reported errors names exactly the definitions (and attribute) that the place is nested in, outermost first, each by its kind and with messages and help texts that are neither empty nor placeholders.",
 ["inputs"],"every rejected text of the syntax universe: sentences of the grammar under all single edits, bounded token strings, and literals, identifiers and escapes beyond their limits",
 "The snapshot tests fix the rendering of about twenty hand-written errors; the offsets of nested, backtracked and spaced-out constructs are in no test.",
 ["crates/mabo-parser/src/parser.rs","crates/mabo-parser/src/parser","crates/mabo-parser/src/error.rs","crates/mabo-derive/src"],
 [("errors of every construct and their places","crates/mabo-parser/src/parser/*.rs"),("nesting of errors","crates/mabo-parser/src/parser.rs, parser/modules.rs")],["mabo_parser::Schema::parse error: messages, help, URLs and labels"])

p("C28","Tools say which file is faulty and where",
 "When mabo check, fmt or doc, mabo-go or mabo-build reject schema files, the report names a file at fault and no other (besides those with the definition that a wrong reference leads to): check names every file that can't be read, parsed or breaks a rule (or, if there are none, one with a reference to something that doesn't exist), fmt every file that can't be read or parsed, and the others at least one. For problems in a text, the report shows the source lines of the problem under the name of that file, with their line numbers. For projects without problems no file is named.",
 ["inputs","configurations"],"all projects of three files with every content out of a list of valid, unreadable, unparsable, invalid and unresolvable files with their problems on different lines, and five tools",
 "None of the tools has tests for a project with faulty files.",
 ["crates/mabo-cli/src/main.rs","crates/mabo-go/src/main.rs","crates/mabo-build/src/lib.rs","crates/mabo-compiler/src/validate","crates/mabo-compiler/src/resolve"],
 [("reports of check, fmt and doc","crates/mabo-cli/src/main.rs"),("reports of the generators","crates/mabo-go/src/main.rs, crates/mabo-build/src/lib.rs Compiler::compile")],["standard error of the tools, Debug output of mabo_build::Error"])

p("C29","The language server answers each request once and ends when told",
 "For every sequence of messages, the language server answers each request exactly once, with the id (number or string) it came with: an error ServerNotInitialized before initialize, InvalidParams for a known method with parameters that don't fit, MethodNotFound for unknown methods, InvalidRequest after shutdown, and otherwise a result (requests about documents that aren't open may be refused in another way). It answers nothing else: notifications that are unknown, have unfitting parameters or are about unknown documents, and responses nobody waits for, change nothing and end nothing; the open documents stay those of the regular messages. The handshake announces hovers, document symbols, full semantic tokens and document synchronisation. shutdown is answered with null, and after exit the process ends, with status 0 if shutdown came before and 1 otherwise; it ends as well when the connection does. All of this holds over standard streams and sockets.",
 ["histories","inputs","failures"],"all sequences of regular and odd messages up to a depth before, after and beyond the handshake, with every ending, each in a process of its own",
 "The language server has no tests besides one of its command line.",
 ["crates/mabo-lsp/src/main.rs","crates/mabo-lsp/src/client.rs","crates/mabo-lsp/src/handlers/mod.rs"],
 [("dispatch of requests and notifications","crates/mabo-lsp/src/main.rs main_loop, handle_request, handle_notify"),("end of the session","crates/mabo-lsp/src/client.rs handle_shutdown")],["messages of the server on standard output or its socket, exit status"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
