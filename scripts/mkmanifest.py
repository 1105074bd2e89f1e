import json
M={"version":1,
"setup_cmd":"bash scripts/setup.sh",
"hooks":{"guard":"none","enable":"no hooks were needed: the checks use the public API of /repo's crates and its binaries","source_commits":[]},
"checks":[],"not_applicable":[],
"notes":"All checks: './check <id>' with VERIF_TIER=quick|thorough. Known findings and repaired defects: known_findings.txt. Design: DESIGN.md."}
def c(id,tech,note):
    M["checks"].append({"property":id,"quick_cmd":f"./check {id}","thorough_cmd":f"VERIF_TIER=thorough ./check {id}","evidence_file":f"evidence/{id}.json","technique":tech,"level":"model_checking","level_note":note})
conf="explicit-state enumeration; every state replayed on the real code and compared with a reference model"
c("C01","exhaustive enumeration of integers and byte strings against a reference LEB128 model","All 8/16-bit values, all boundary neighbourhoods of the wider types, all byte strings of a boundary alphabet up to a length are enumerated; values far from any boundary of the wider types are covered only per bit-length class.")
c("C02","exhaustive enumeration of type shapes x boundary values, real generated code executed on each","Type shapes are complete up to nesting depth 2 (3 in thorough) over a base of scalars and user types; values are the boundary values of each shape.")
c("C03","exhaustive enumeration of type shapes x boundary values, size compared with length on the real code","Same universe as C02 plus direct enumeration of every runtime size function.")
c("C04","exhaustive mutation and token-string enumeration of inputs, fault-injecting buffer with progress and memory monitors","All truncations, substitutions, deletions, insertions of boundary encodings and all token strings up to a bounded length; longer random-looking inputs are outside the bound.")
c("C05","exhaustive enumeration of writer/reader schema pairs and values against a value-level evolution model","All type shapes skipped and absent, all ordered selections of fields pairwise; more than one level of version history is covered by transitivity only.")
c("C06","exhaustive enumeration of chunkings of every input, fault-injecting buffer","All single cuts of every encoding and all multi-cuts of short ones, including empty and one-byte chunks.")
c("C07","explicit-state reference codec; every encoding compared byte for byte, all field orders and repetitions decoded","Reference codec written from the format description; universe as in C02.")
c("C08","exhaustive enumeration of non-zero types with zero, empty and boundary values","Every non-zero type shape of the universe and every constructor.")
c("C09","exhaustive enumeration of bounded token strings, sentences and their single edits on the real parser, crash, time and location monitors","Every text of the bounded spaces is parsed; longer texts are covered by the growth series only.")
c("C10","exhaustive enumeration of bounded texts, parser compared with an independent reference recogniser and tree builder","Sentences of the bounded grammar plus all single character and token edits.")
c("C11","exhaustive enumeration of accepted texts, formatter output re-parsed and compared by tree","Every accepted text of the space of C10.")
c("C12","exhaustive enumeration of schemas per rule, validator verdict and named culprits compared with reference rules","All identifier, name, generic and tuple combinations up to the stated bounds in every place they can stand at.")
c("C13","exhaustive enumeration of schema sets, references and imports, resolver verdict compared with a reference resolver","Scopes up to three modules deep, up to three schemas, up to two imports per scope.")
c("C14","exhaustive enumeration of identifier assignments, every tool's identifiers compared with a reference derivation","All sequences of implicit, free and boundary identifiers up to the stated length in structs, variants and enums.")
c("C15","exhaustive enumeration of schemas, generated code compiled by rustc and its structure compared with a reference mapping","All types up to the stated depth in every position, all names of the reserved and colliding classes at every place, module and import structures; both representations of bytes.")
c("C16","exhaustive enumeration of schemas, generated Go parsed and its declarations compared with a reference mapping","All types up to the stated depth in every position, names of the reserved and colliding classes at every place; the Go files are parsed, resolved and structurally compared, but neither linked against the Go runtime (absent from the repository) nor executed.")
c("C17","exhaustive enumeration of type shapes, reported size bounds compared with analytic reference bounds and with encoded values","All type shapes up to the stated depth; per-field ranges as read from the documentation.")
c("C18","exhaustive enumeration of message sequences, edits and arrival schedules against the real language server process, compared with a reference text model and with a freshly started server","All single edits of the listed documents, all pairs of short edits on small ones, all message sequences up to length 4 (5 thorough) over two documents, all arrival schedules of up to 3 (4) messages around the server's own requests; byte-level framing belongs to the lsp-server crate and is not explored.")
c("C19","exhaustive enumeration of documents built from placed elements, tokens, symbols and hovers of the real language server compared with the known places","All listed definitions, pairs (triples in thorough), types up to 2 (3) contexts, in 8 layouts and every single separator, 3 encodings, every position hovered.")
c("C22","exhaustive enumeration of schemas, every page parsed by a strict HTML reader and compared with the schema","All types up to the stated depth in every position, names, comments, constants, module structures; links written by the user inside comments are not followed.")
c("C20","exhaustive enumeration of project states and command sequences, the real executable run on each in a scratch directory and compared with a reference model of its effects","All projects of three files with 13 kinds of contents, 3 ways to name them, all sequences of 4 (6 thorough) commands from 6 states, 17 pattern lists; file system failures other than unwritable paths are not injected.")
c("C21","exhaustive enumeration of patterns, pattern lists, trees and creation orders, compared with a reference matcher","All patterns of up to 3 (4 thorough) of 24 path segments, all lists of up to 3 of 14 patterns, all creation orders of 5 files, all placements of 4 (5) kinds of project files.")
c("C23","exhaustive enumeration of project states and histories, the real generators run on each in a scratch directory and compared with a reference model of their outputs","All projects of three files with 13 kinds of contents, all two-step histories of two files; contents of outputs are compared with the library functions that C15 and C16 check.")
c("C24","exhaustive enumeration of schema sets that do not resolve, the reported error compared with all true reports of a reference resolver","The space of C13; any one of the elements that do not resolve may be reported.")
c("C25","exhaustive enumeration of documents and their edits on the real language server, diagnostics compared with the rules a reference validator finds violated","The schemas of C12 with lists shorter by one, 4 layouts, 3 encodings; for syntax errors the place that the parser reports is taken as given.")
c("C26","exhaustive enumeration of bounded texts, the JSON form of the real simplified schema compared with the one an independent parser's tree asks for, and validated against the published JSON Schema together with all its single damages","Every accepted text of the space of C10 and the schemas of C22; damages for one document of every group of texts.")
c("C27","exhaustive enumeration of bounded texts that are not schemas, place and nesting of the error of the real parser compared with the place and nesting at which an independent parser can first tell","Every rejected text of the space of C09. A place before the first wrong character is accepted where it is the start of the token, number, path, comment, attribute value or list element around it.")
c("C28","exhaustive enumeration of projects, the files and lines in the output of the real tools compared with those at fault","Projects of three files with 19 kinds of contents (35 in thorough).")
c("C29","exhaustive enumeration of message sequences, each played to a fresh process of the real language server and compared with a reference model of the protocol","All sequences of up to 2 of 38 messages with 5 endings and of 3 of 13 (3 of 38 in thorough), standard streams and sockets; the framing of messages and the order of answers are not explored.")
have={c["property"] for c in M["checks"]}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    if p["id"] not in have:
        M["not_applicable"].append({"property":p["id"],"reason":"check still under construction; not claimed yet"})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
