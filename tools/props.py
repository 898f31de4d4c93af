"""The properties and the reasons for those not claimed."""


def P(id, title, statement, over, qtext, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": mechanism}
    if state:
        a["state"] = state
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}


TOK = "crates/styx-tokenizer/src/tokenizer.rs"
LEX = "crates/styx-parse/src/lexer.rs"
PAR = "crates/styx-parse/src/parser/mod.rs"
CSTP = "crates/styx-cst/src/parser.rs"
SK = "crates/styx-cst/src/syntax_kind.rs"
SCAL = "crates/styx-format/src/scalar.rs"
WR = "crates/styx-format/src/writer.rs"
VF = "crates/styx-format/src/value_format.rs"
CF = "crates/styx-format/src/cst_format.rs"
TB = "crates/styx-tree/src/builder.rs"
FP = "crates/facet-styx/src/parser.rs"
FS = "crates/facet-styx/src/serializer.rs"
SV = "crates/facet-styx/src/schema_validate.rs"
SER = "crates/serde_styx/src/ser.rs"
DE = "crates/serde_styx/src/de.rs"
SRV = "crates/styx-lsp/src/server.rs"
EXT = "crates/styx-lsp/src/extensions.rs"
CACHE = "crates/styx-lsp/src/cache.rs"
SEM = "crates/styx-lsp/src/semantic_tokens.rs"
CLI = "crates/styx-cli/src/main.rs"
FFI = "crates/styx-ffi/src/lib.rs"
EMB = "crates/styx-embed/src/lib.rs"
EMBM = "crates/styx-embed-macros/src/lib.rs"

PROPS = [
    P("P01", "Tokens tile the source text and tokenizing always terminates",
      "For every source text, the tokens produced one after another cover it exactly, from the first byte to the last, without gaps or overlaps, and each token's text is the source at the token's span. Repeatedly asking for the next token always reaches end of input after finitely many tokens.",
      ["inputs"], "every UTF-8 source text shorter than 4 GiB, in every tokenizer mode (ordinary, raw string, heredoc)",
      "Tests compare token lists for a few dozen literals; the guarantee is about every combination of multi-byte characters, unterminated strings and heredoc delimiters.",
      [TOK], ["Tokenizer::advance/advance_by move position and remaining text together", "next_token and its helpers build each token from a saved start and the current position", "heredoc state is cleared when the terminator is emitted"],
      ["Tokenizer.pos", "Tokenizer.remaining", "Tokenizer.heredoc_state"]),
    P("P02", "A string written without quotes reads back as that one string",
      "Whenever any Styx writer (value formatter, typed serializer, serde serializer) emits a string value or key without quotes, the emitted text is read back as a single bare scalar equal to the string. Every string containing a character that ends, or cannot start, a bare scalar is written quoted, raw or as a heredoc instead.",
      ["inputs"], "every string that can occur as value, key or tag payload, in every writer",
      "The set of strings is infinite and the decision is made in one predicate that must stay in step with a state machine in another crate; tests try a few words.",
      [SCAL, WR, VF, FS, SER, TOK], ["can_be_bare decides whether quotes are needed", "the tokenizer's bare-scalar start and continuation classes decide what is read"]),
    P("P03", "Escaped strings decode to the characters that were escaped",
      "The escape sequences a Styx writer puts between quotes are decoded by every Styx reader (event parser, serde reader, CST) to exactly the original characters, and quote, backslash and line breaks are never left unescaped. All readers agree on the meaning of each escape sequence.",
      ["inputs"], "every character and every escape sequence, in every reader and writer",
      "There are four escape tables in four crates; tests exercise a handful of escapes per table and none compares the tables.",
      [SCAL, LEX, DE, "crates/styx-cst/src/ast.rs"], ["escape_quoted writes", "process_escapes / unescape_quoted read"]),
    P("P04", "Malformed escape sequences are always reported",
      "A quoted string containing an escape sequence that the format does not define, or a malformed, surrogate or out-of-range Unicode escape, makes parsing report an error whose span lies inside the string. Reporting it never panics.",
      ["inputs"], "every quoted string, with any characters around the malformed escape",
      "Tests contain one or two bad escapes followed by ASCII text; the guarantee covers every position, length and neighbouring multi-byte character.",
      [PAR, LEX], ["validate_escapes walks the raw text", "escape processing decides validity"]),
    P("P05", "The syntax tree's text is the source, byte for byte",
      "For every source text, valid or not, the concatenated text of the concrete syntax tree equals the source: no token is dropped, duplicated, reordered or altered while the tree is built. Whitespace, newlines, comments and erroneous tokens are kept too.",
      ["inputs"], "every source text, including malformed ones",
      "Tests compare round trips on a fixed list of snippets; error-recovery paths are combinatorial.",
      [CSTP, "crates/styx-cst/src/lib.rs"], ["every token read is added to the tree exactly once by the single consuming operation", "the parse loop ends only at end of input"], ["Parser position / current token", "GreenNodeBuilder"]),
    P("P06", "Building the syntax tree never unbalances its nodes",
      "Building a concrete syntax tree opens and closes nodes in matching pairs on every path, so the builder never fails and the root is closed exactly once. Numeric node kinds convert to named kinds and back without loss, and no two token kinds share a node kind.",
      ["inputs"], "every source text, every early return of every parse routine, every kind value",
      "An unbalanced path only shows on the particular malformed input that takes it.",
      [CSTP, SK], ["start_node / finish_node pairing", "SyntaxKind <-> raw conversion"]),
    P("P07", "Event and syntax parsing terminate on every input",
      "Every loop in lexing, event parsing, syntax-tree parsing and tree building consumes at least one token or event per round, or ends. Consequently parsing any finite input ends after a number of steps bounded by its length.",
      ["inputs"], "every source text, in particular malformed ones that take error-recovery paths",
      "A loop that stalls on one unusual token sequence is invisible to any finite test list that lacks it.",
      [LEX, PAR, CSTP, TB], ["loops consume a lexeme, a token or an event each round"]),
    P("P08", "Parse events are well bracketed",
      "For every source text the event stream starts with document start and ends with document end, and every object, sequence and entry start has exactly one matching end in proper nesting. This holds for malformed sources as well.",
      ["inputs"], "every source text, including ones cut off inside any construct",
      "Unbalanced event streams arise only on particular early exits of error recovery.",
      [PAR], ["state machine over a stack of frames; a frame's end event is emitted when it is popped"], ["Parser.stack / event queue"]),
    P("P09", "A parse error is never silently dropped",
      "Every error the parser detects reaches the caller: loading a document tree from such a source fails, typed deserialization fails, and the C interface, the command line and the language server report it. No consumer discards an error event or an error token.",
      ["inputs", "programs"], "every source text with an error anywhere, for every consumer of parse events",
      "Tests check a few errors through one consumer; the guarantee is per error kind and per consumer.",
      [PAR, TB, FP, FFI, CLI, SRV], ["Event::Error handling in each consumer", "error lexemes are turned into error events"]),
    P("P10", "Formatting keeps every token and comment",
      "Formatting a document emits every scalar, tag, attribute, separator-relevant construct and comment of the source; nothing is dropped. A document with syntax errors is returned unchanged.",
      ["inputs"], "every source text and every formatting option",
      "The formatter handles each kind of node in a separate routine with its own loop over the children; a kind missed in one routine only shows for that nesting.",
      [CF], ["per-node-kind dispatch over child nodes and tokens", "early return of the source when the parse had errors"]),
    P("P11", "Structural parse errors are reported at every nesting depth",
      "Duplicate keys (in objects, attributes and dotted paths), reopened paths and paths into plain values, commas in sequences, unclosed objects and sequences, doc comments with nothing to document, extra values in an entry, invalid tag names and keys, missing whitespace before a block and trailing content are each reported as the corresponding error. None of them is reported where its condition does not hold.",
      ["inputs"], "every document containing such a construct at any depth",
      "Each error kind has one or two sample documents in the tests.",
      [PAR, "crates/styx-parse/src/events.rs"], ["one guard per ParseErrorKind construction"]),
    P("P12", "Writers close every container they open with the right bracket",
      "Whatever sequence of values is serialized, each opened object, sequence and tag payload is closed exactly once with the bracket matching how it was opened, in both multi-line and inline layout; switching an object to multi-line layout afterwards changes only separators and white space between tokens. Every line of a written doc comment starts with the doc-comment marker.",
      ["programs", "inputs"], "every call sequence the serializers can make, every doc comment text",
      "The combination of layouts, nesting and early closing is unbounded; tests use a few shapes.",
      [WR, FS, SER], ["StyxWriter container stack", "begin_*/end_* pairs"], ["StyxWriter.stack"]),
    P("P13", "Numbers are never silently truncated",
      "Converting between Styx text and typed numbers either yields the exact integer (or nearest float) or reports an error; no path narrows an integer or discards digits silently. This holds for every number width in the typed and serde readers and writers, for the JSON conversion, and for integer bounds carried into generated code. Text whose type is not known becomes a float only when no 64-bit integer fits it; bytes read from hex digits use every digit.",
      ["inputs"], "every numeric value and every target width",
      "Tests use small numbers.",
      [FP, FS, SER, DE, WR, "crates/styx-wasm/src/lib.rs", "crates/styx-gen-go/src/types.rs"], ["scalar-to-number parsing", "number formatting"]),
    P("P14", "Schema constraints are all enforced, in the right direction",
      "Validation of a value against a schema enforces every declared constraint (lengths, numeric bounds, pattern, element types, key types, enum variants, required fields, unknown fields) and reports an error exactly on the violating side of each bound. Errors found in nested values are always part of the result.",
      ["inputs", "configurations"], "every schema and every document",
      "Constraints combine freely and each bound has two sides and two boundary values; tests sample a few.",
      [SV], ["one validate routine per schema construct", "results of nested validations are merged"]),
    P("P16", "Editor positions count UTF-16 units and never split a character",
      "Converting between byte offsets and editor positions counts columns in UTF-16 code units, as the language-server protocol requires, in both directions and at every place the server reports or receives a position. Conversions never slice a string inside a character.",
      ["inputs"], "every document with non-ASCII characters, every request",
      "All test documents are ASCII, where every unit coincides.",
      [SRV, SEM, EXT], ["offset_to_position / position_to_offset and the places that compute columns themselves"]),
    P("P17", "The language server only runs extension commands the user allowed",
      "An extension process named by a document's schema is started only if its command equals an entry of the user's allow list, and nothing else in the language server starts a process. A command that merely begins with, ends with or contains an allowed command is refused.",
      ["inputs", "configurations"], "every document, schema and configuration",
      "The security boundary is about all strings an attacker may put in a document; tests use one allowed command.",
      [EXT, SRV, "crates/styx-lsp/src/config.rs"], ["is_allowed gates the spawn call"]),
    P("P18", "Document locks are not held while waiting for extensions",
      "While the language server waits for an extension process or sends notifications to the editor, it holds no lock on its documents (nor on its table of extensions), so a slow or hung extension cannot block other requests. Locks are acquired in one global order.",
      ["schedules"], "every interleaving of requests, edits and extension replies",
      "A deadlock or stall needs a particular interleaving with a slow peer.",
      [SRV, EXT], ["lock guards are dropped before the await"], ["documents map", "extension map"]),
    P("P19", "The command line fails visibly and leaves files intact on errors",
      "A command that meets an error (unreadable or malformed input, validation failure, failed write, failed subprocess) prints a diagnostic and exits with a non-zero status, and never writes an output file from input that failed to parse; the syntax dumps (tokens, events, cst, tree as s-expression) show syntax errors as part of their output instead. No user-controlled text is passed to a shell.",
      ["inputs", "configurations", "fault_sequences"], "every command line and every input file",
      "Tests run few commands on good input.",
      [CLI], ["Result propagation to the process exit code", "formatting writes only after parsing succeeded"]),
    P("P20", "The C interface tolerates null pointers and never panics across it",
      "Every exported C function checks each pointer argument for null before using it and returns the documented failure value. Every object handed out has exactly one matching release function, and no exported function can unwind into its caller.",
      ["programs", "inputs"], "every call sequence of a C program and every argument",
      "The C example exercises one happy path.",
      [FFI], ["null checks in extern functions", "Box::into_raw / from_raw pairs", "CString construction"]),
    P("P21", "Extracting embedded schemas never reads outside the file or panics",
      "Scanning any file for embedded schemas stays within the file's bounds, checks the recorded sizes and the content hash before trusting the data, and reports malformed blobs as errors rather than panicking; a malformed blob does not hide the well-formed ones beside it. What the embedding macro writes is laid out exactly as the reader expects.",
      ["inputs", "fault_sequences"], "every binary, including truncated and hostile ones",
      "Hostile length fields have 2^64 values; tests use well-formed blobs.",
      [EMB, EMBM], ["offset arithmetic on header fields", "hash verification", "blob layout in writer and reader"]),
    P("P22", "Readers implemented in other languages agree on the lexical grammar",
      "The Go, Python and JavaScript implementations treat the same characters as bare-scalar starts and continuations, as escapes with the same meaning, and as the same punctuation as the Rust tokenizer. A document is split into the same tokens whichever implementation reads it.",
      ["inputs"], "every source text, every implementation",
      "The shared compliance corpus samples a few dozen documents.",
      [TOK, "implementations/styx-go/lexer.go", "implementations/styx-py/src/styx/lexer.py", "implementations/styx-js/src/lexer.ts"], ["per-language character tests in the lexers"]),
    P("P23", "Generated Go code covers every schema construct",
      "Code generation handles every construct a schema can contain: each either produces Go code that represents it or makes generation fail with an error. No construct is silently skipped, and generated identifiers are valid.",
      ["inputs"], "every schema",
      "Tests generate code for three sample schemas.",
      ["crates/styx-gen-go/src/lib.rs", "crates/styx-gen-go/src/types.rs"], ["match over schema constructs"]),
    P("P24", "Reading a document never panics",
      "For every source text and every cursor position, tokenizing, parsing, building trees, formatting and validating never panic: no out-of-bounds index, no slice inside a character, no arithmetic overflow, no failed unwrap. Malformed input is reported through results.",
      ["inputs"], "every source text shorter than 4 GiB",
      "Panics hide in index arithmetic on unusual inputs (multi-byte characters next to delimiters, truncated constructs).",
      [TOK, LEX, PAR, CSTP, CF, TB, FP, DE], ["all panic sites reachable from the entry points"]),
    P("P25", "Semantic highlighting reports valid token types and ordering",
      "Each highlighted token names a type and modifier that exist in the legend the server advertised, and tokens are sent in document order without overlap. Lengths and columns are in the units the protocol prescribes.",
      ["inputs"], "every document",
      "The index tables are only tested on small documents.",
      [SEM], ["legend array and token-type indices", "delta encoding"]),
    P("P26", "Cached schemas stay inside the cache directory",
      "The language server writes schemas only below its cache directory: no name or identifier taken from a document can point a read or write elsewhere. Each component of the path taken from a document is sanitised first.",
      ["inputs"], "every document with an embedded or remote schema reference",
      "The attack is one particular identifier string.",
      [CACHE], ["embedded_cache_path joins document-supplied names"]),
    P("P27", "The two serde serializers write the same data",
      "The multi-line and the compact serde serializer accept the same types and write the same keys, tags and values in the same order, differing only in layout. Every serializer method either writes its value or reports an error.",
      ["programs"], "every serializable type",
      "There are about thirty methods in each serializer; tests call a few.",
      [SER], ["parallel Serializer implementations"]),
    P("P28", "Nesting depth cannot exhaust the stack",
      "Reading a deeply nested document ends with a result or an error, never by exhausting the thread's stack. Each recursive reader limits its own depth.",
      ["inputs"], "every nesting depth",
      "Tests nest a handful of levels.",
      [PAR, CSTP, TB, DE], ["recursion in parse routines"]),
    # -- behaviour this family does not decide here
    P("P40", "Value round trip through text", "Writing any value and reading it back yields an equal value, for the value tree, the typed and the serde interface.",
      ["inputs", "programs"], "every value of every type", "The value space is infinite; tests sample it.", [VF, FS, SER, DE, FP], ["writers and readers together"]),
    P("P41", "Formatting is idempotent and keeps the meaning", "Formatting formatted output changes nothing, and a formatted document parses to the same value as the original.",
      ["inputs", "configurations"], "every document and option set", "Tests cover a fixed corpus.", [CF], ["layout decisions depend on lengths and contents"]),
    P("P42", "Generated schemas accept exactly the values of the type", "The schema generated for a type accepts every serialized value of that type and rejects values that cannot be deserialized into it.",
      ["programs", "inputs"], "every type shape and value", "Relates three interpreters over unbounded types.", ["crates/facet-styx/src/schema_gen.rs", SV], ["schema generation and validation"]),
    P("P43", "Editor state follows edits under concurrency", "After any history of edits and requests, diagnostics and answers refer to the latest text the editor sent.",
      ["schedules", "histories"], "every interleaving of notifications and requests", "Needs schedules and message histories.", [SRV], ["document store, diagnostics publishing"], ["documents map"]),
    P("P44", "Interrupted writes leave old or new file contents", "If the process is killed while formatting a file in place, storing a schema or saving the configuration, the file holds either its old or its new contents.",
      ["crash_points"], "every crash point during a write", "Needs crash injection.", [CLI, CACHE], ["file writes"]),
    P("P45", "Editor grammars accept the language the parser accepts", "The tree-sitter grammar and the parser accept the same documents with the same structure.",
      ["inputs"], "every document", "Tests compare a corpus.", ["crates/tree-sitter-styx/grammar.js", PAR], ["LR grammar plus external scanner against a hand-written parser"]),
    P("P46", "Parsing takes linear time and memory", "Parsing time and memory grow linearly with the size of the document.",
      ["inputs"], "every document", "Performance is not tested.", [PAR, CSTP], ["token look-ahead and buffering"]),
]

NA = {
    "P22": "The lexers in Go, Python and JavaScript decide characters with ad-hoc tests whose meaning has to be computed by an abstract interpreter for each of those languages; only Rust's compiler IR is analysed here. Comparing character lists found by text search would judge how the code is written, not what it does.",
    "P23": "There is no oracle in the source for what Go code represents a schema construct: several constructs are deliberately mapped to interface{}, and whether a Go type represents a constraint is a relation between two languages' run-time values. That no construct is skipped by the readers of a schema is claimed for validation as P14.",
    "P24": "About 450 instructions below the reading entry points can panic (slices, indices, arithmetic, unwraps); most are safe because of relations between run-time lengths and text contents kept across functions and calls, which no sound static argument in reach bounds without reporting correct code. The parts that are decided: embedded blobs (P21), offsets and units (P16), recursion (P28), termination (P01, P07).",
    "P40": "Equality of a run-time value with its re-read copy quantifies over value contents and layouts; the statically decidable parts (bare class, escapes, bracket pairing, number conversion) are claimed as P02, P03, P12 and P13.",
    "P41": "Layout decisions depend on run-time widths and contents; equality of two runs of the formatter is a relation between outputs that no dataflow rule in reach bounds. The decidable part (nothing is dropped) is P10.",
    "P42": "Relates generated schema, serializer and validator over unbounded type shapes at run time; there is no static abstraction in reach that decides acceptance.",
    "P43": "Which text an answer refers to depends on message histories and task schedules; the decidable part (no lock across waits) is P18.",
    "P45": "Language equality between an LR grammar with an external scanner and a recursive-descent parser is undecidable in general and not approximated soundly by any analysis in reach.",
    "P46": "Amortised cost bounds need a resource analysis over run-time sizes; no such analyser for Rust is installed. Termination is claimed as P01 and P07.",
}
