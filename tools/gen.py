#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.

Run `python3 tools/gen.py` in /verif after editing; both files are committed.
"""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe,
         technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mechanism=mechanism, observe=observe,
                  technique=technique, note=note, state=state or []))

A = "lib/osi/src/"
T = "lib/tmp/src/"
S = "lib/sys/src/"

prop("C01", "Command lines resolve to the documented command, flags and parameters",
 "For every schema and argument list, the parser enters the longest chain of leading non-flag arguments that matches defined command paths, resolves each long flag only against the command reached so far and then its defined ancestors from the inside out (an exact name wins over a `no-` negation), stops recognizing flags and commands after `--`, and hands every other argument to the selected command as a parameter, in order. A value-taking flag receives its inline `=value`, or else the next argument verbatim. The call returns the index of the selected command, or reports that no command is defined for the entered path.",
 ["inputs", "configurations"],
 "All schemas (command trees with gaps, flags shadowing and `no-` collisions, any order of definition) and all argument lists, including empty, non-UTF-8 and dash-only arguments.",
 "Unit tests run a handful of hand-picked command lines on one or two schemas; the claim ranges over all pairs of schema and argument list.",
 [A+"args/parse.rs", A+"args.rs"],
 [("command cursor", A+"args/parse.rs: Cursor, Parser::parse_command"), ("flag resolution", A+"args/parse.rs: find_flag, parse_long")],
 ["callbacks received by the flag, command and parser reports", "return value of the parse call"],
 "Online trace monitor against an executable reference model of the argument grammar, random and adversarial schemas",
 "Held on the generated (schema, argv) pairs only. Trusts the reference model in harness/src/bin/c01.rs, written from the documented grammar.")

prop("C02", "Every unusable argument yields exactly one error and changes no target",
 "Each argument that cannot be applied (unknown long or short flag, negation of a flag that cannot be negated, a value for a valueless flag, a missing value, non-UTF-8 data for a text target, a parameter where none is accepted) produces exactly one error of the matching kind carrying the documented text, changes no flag or parameter target, and every other argument still takes effect. Typed targets end up holding exactly the last accepted value, or for collections all accepted values in order. If the error handler requests a stop, parsing ends at once with the handler's value and no later argument has any effect.",
 ["inputs", "configurations", "fault_sequences"],
 "All combinations of typed flag and parameter targets, all argument lists, and every error position at which the handler may stop.",
 "Unit tests check single errors on single targets; mixes of target types, repeated flags and a stop at each error position are not enumerated.",
 [A+"args/report.rs", A+"args/parse.rs", A+"args.rs"],
 [("typed report implementations", A+"args/report.rs"), ("error construction", A+"args/parse.rs")],
 ["collected errors", "final contents of typed targets", "parse return value"],
 "Reference-model monitor over error log and final target state, with an enforced stop at every error index",
 "Held on the generated runs only. Trusts the model in harness/src/bin/c02.rs.")

prop("C03", "Help output mirrors the schema of the command it was requested for",
 "After parsing, help is produced if and only if it was last requested and not negated, and then lists, in this order, the program info, the usage line of the command that was current when help was requested, that command's own flags sorted by name, and exactly its direct sub-commands sorted by name, omitting empty sections. Each listed entry carries its own help text, mode and the common column width of its section. If the output sink stops, no further output is produced and the sink's value is returned.",
 ["inputs", "configurations", "fault_sequences"],
 "All schemas, all argument lists with help flags at any position, every output call at which the sink may stop.",
 "The existing test renders one schema once; nothing checks other trees, nested commands, negation or a stopping sink.",
 [A+"args/help.rs", A+"args/parse.rs"],
 [("help rendering", A+"args/help.rs: Help::help, try_help")],
 ["calls made on the help writer", "return value"],
 "Recording sink compared with a reference renderer; stop injected at every output call",
 "Held on the generated runs only. Trusts the renderer model in harness/src/bin/c03.rs.")

prop("C04", "SHA-256 digests match FIPS 180-4 for any message and any chunking",
 "For every byte message, the digest equals the SHA-256 of the message regardless of how the message is split into pushes or zero-fill requests. Finalizing or resetting always leaves the engine in its initial state, reported as such, so that an engine can be reused for any sequence of messages without influence from earlier data. The hexadecimal form is the lower-case big-endian rendering of the digest.",
 ["inputs", "histories"],
 "All messages (in particular all lengths around block and padding boundaries), all splits, all reuse histories.",
 "Tests use a few reference vectors and one split; block-boundary lengths, mixed zero-fill and reuse after partial input are unbounded.",
 [A+"hash/sha256.rs", A+"hash.rs"],
 [("buffering and padding", A+"hash/sha256.rs: push, push_zero, finalize"), ("hex form", A+"hash.rs: Hash::to_hex")],
 ["finalize return value", "is_reset", "to_hex"],
 "Differential monitor against an independent SHA-256 over exhaustive lengths and randomized chunk histories",
 "Every length 0..=N is enumerated, contents and splits are sampled. The independent implementation is itself checked against published vectors and sha256sum at start-up.")

prop("C05", "HMAC-SHA-256 matches RFC 2104 for any key, message and chunking",
 "For every key (shorter than, equal to, or longer than a block) and every message, the authentication code equals HMAC-SHA-256 of RFC 2104, however the message is split into pushes or zero-fill requests. The keyed engine can be reused for any number of messages: after finalizing or resetting it, results depend only on the key and the data pushed since.",
 ["inputs", "histories"],
 "All keys, all messages, all splits and reuse histories.",
 "Tests use RFC vectors, each with a fresh engine; key lengths around the block size and reuse histories are not covered.",
 [A+"hmac.rs"],
 [("key preparation and two-pass hashing", A+"hmac.rs")],
 ["finalize return value", "is_reset"],
 "Differential monitor against an independent HMAC over exhaustive key lengths and randomized histories",
 "Key lengths 0..=N enumerated, contents and histories sampled. Independent implementation is validated with RFC 4231 vectors at start-up.")

prop("C06", "Character-level JSON tokenizer is independent of splits and prior use",
 "For any Unicode text the reported sequence of tokens and errors is the same whether it is pushed character by character, in arbitrary pieces, or at once, and whether the tokenizer is new, was reset, or already completed other texts. The status is busy exactly while a token is unfinished. When the report handler stops, its value is returned, nothing more is reported for that call, and the tokenizer then behaves like a fresh one.",
 ["inputs", "histories", "fault_sequences"],
 "All texts, all splits, all reuse histories, and every report call at which the handler may stop.",
 "Tests feed fixed strings in one piece; splits, reuse after errors and a stop inside each token are not enumerated.",
 [A+"json/token.rs"],
 [("incremental state machine", A+"json/token.rs: Tokenizer::push, push_str, parse_str, reset, status")],
 ["reported tokens and errors", "returned status or stop value"],
 "Trace-equivalence monitor (metamorphic) over split, reuse and stop injections",
 "Held on generated texts; every stop index of each generated text is enumerated (up to a cap).")

prop("C07", "Character-level JSON tokens carry exact content and diagnose malformed text",
 "For any Unicode text, tokens appear in source order with exact content: number digits and signs, unescaped string characters, whitespace and keywords, and for a text free of errors the raw parts concatenate to the input. Every deviation from JSON (unknown keywords, comments, stray characters, disallowed leading zero or plus sign, incomplete numbers or strings, bad escapes, unpaired surrogates, raw control characters) is reported at its place as the matching error, after which tokenization continues as documented. A text is accepted without errors if and only if all its lexemes are valid JSON lexemes (plus those enabled by the leniency flags).",
 ["inputs", "configurations"],
 "All Unicode texts and all combinations of leniency flags.",
 "Tests pin a few dozen lexemes; combinations of escapes, surrogates, number shapes and separators are unbounded.",
 [A+"json/token.rs"],
 [("token state machine", A+"json/token.rs")],
 ["reported tokens and errors"],
 "Reference-lexer monitor over grammar-based, mutated and exhaustive short texts",
 "All texts up to a small length over a hostile alphabet are enumerated, longer ones sampled. Trusts the independent lexer in harness/src/bin/c07.rs.")

prop("C08", "Foreign-endian integers keep their value and their fixed byte order",
 "For every integer type (signed, unsigned, non-zero, 8 to 128 bit and pointer-sized), storing a native value in a big- or little-endian container places the bytes in exactly that order in memory and reading it back yields the same value. Reinterpreting raw memory as such a container reads the value in that byte order. Equality, ordering, hashing, default and display all follow the native value, never the stored byte pattern.",
 ["inputs", "configurations"],
 "All values of all supported integer types in both byte orders.",
 "Tests check one or two constants per type; ordering and hashing relations quantify over all pairs of values.",
 [A+"ffi/endian.rs"],
 [("byte swapping on conversion", A+"ffi/endian.rs: NativeEndian, BigEndian, LittleEndian")],
 ["memory bytes of containers", "to_native", "comparison, hash and formatting results"],
 "Value-level differential monitor against to_be_bytes/to_le_bytes, boundary plus random pairs; Miri on a sample",
 "Exhaustive for 8-bit (and 16-bit in thorough) types, boundary and random values for others.")

prop("C09", "FFI integers and packed values have exact layout and act like their value",
 "For every value and alignment parameter, the fixed-alignment integer has exactly the requested alignment and a size rounded up to it, the packed wrapper has alignment one and the value's size, and both keep impossible-value niches usable. Reading, writing, replacing, taking, comparing, hashing and formatting act exactly as on the wrapped value at any (also unaligned) address, and owned values are dropped exactly once. No operation performs a misaligned or uninitialized access.",
 ["inputs", "configurations", "histories"],
 "All supported value types and alignments, all values, all operation sequences, all placements in memory.",
 "Layout tests cover a few types with one value; operation histories with owned values at unaligned addresses are not run, and misaligned access is invisible without instrumentation.",
 [A+"ffi/integer.rs", A+"ffi/packed.rs", A+"align.rs", A+"ffi/abi.rs"],
 [("alignment by zero-sized marker", A+"align.rs, "+A+"ffi/integer.rs"), ("unaligned copies", A+"ffi/packed.rs")],
 ["size_of/align_of", "operation results", "drop counts", "Miri reports"],
 "Model-based operation histories with drop-counting values, native and under the Miri UB interpreter",
 "Held on sampled histories; UB detection is limited to what Miri executes.")

prop("C10", "Ownership conversions neither lose, duplicate nor move the referent",
 "Converting any smart pointer or reference into a one-time reference and back (also pinned) yields a handle to the very same object at the same address, with the reference count and the number of destructor runs exactly as if no conversion had taken place. Maybe-owned values and pinned-pointer helpers expose the same referent whether owned or borrowed, and compare, hash, clone and format like it. No sequence of such conversions is undefined behaviour.",
 ["inputs", "histories"],
 "All supported pointer kinds (shared and unique references, boxed, single- and multi-threaded reference-counted; sized and unsized targets) and all conversion sequences.",
 "Tests convert once per type and check a value; leaks, double drops and aliasing violations over sequences need instrumentation.",
 [A+"convert.rs", A+"ptr.rs", A+"pin.rs", A+"mown.rs"],
 [("raw ownership transfer", A+"convert.rs: IntoDeref, FromDeref"), ("one-time reference", A+"ptr.rs: OnceRef")],
 ["addresses, strong/weak counts, destructor counts", "Miri reports"],
 "Random conversion histories with drop and count accounting, native and under Miri",
 "Held on sampled histories; UB detection is limited to what Miri executes.")

prop("C11", "Tagged and identity pointers keep address and tag independent",
 "A tagged pointer accepts exactly the suitably aligned addresses, and through any sequence of updates always returns the last stored address and the last stored two tag bits, neither disturbing the other and out-of-range tag bits being ignored. Copyable and identity pointers compare, order and hash by address alone, consistently with each other, and convert to and from references without changing the address. No such operation is undefined behaviour.",
 ["inputs", "histories"],
 "All addresses and alignments, all tag values, all update sequences.",
 "Tests check a few tag values once; interleaved updates of pointer and tag and provenance errors are not covered.",
 [A+"ptr.rs", A+"cmp.rs"],
 [("tag bits in low pointer bits", A+"ptr.rs: NonNull4"), ("address comparison", A+"ptr.rs: Ptr, "+A+"cmp.rs: Identity")],
 ["accessor results", "comparison, hash and formatting results", "Miri reports"],
 "Shadow-state monitor over random update histories, native and under Miri",
 "Held on sampled histories; UB detection is limited to what Miri executes.")

prop("C12", "Raw memory helpers copy, swap and compare exactly the specified bytes",
 "For every pair of sizes and alignments, the copying transmute yields the source's leading bytes with any excess left uninitialized, the byte-swapping copy reverses exactly the value's bytes, byte views expose exactly the object's bytes, and byte equality holds exactly when sizes and all bytes agree. The typed offset query returns the field's true offset, and moving between a structure and one of its fields by offset is lossless. No helper reads or writes outside its operands or at a misaligned address.",
 ["inputs", "configurations"],
 "All type sizes and alignments (including zero-sized, odd-sized and over-aligned), all byte contents, all placements.",
 "Tests cover two or three sizes; out-of-bounds or misaligned access produces the right value by luck and is only visible to instrumentation.",
 [A+"mem.rs", A+"meta.rs"],
 [("byte-wise copy paths", A+"mem.rs: transmute_copy_uninit, bswap_copy, eq"), ("field offsets", A+"meta.rs")],
 ["resulting bytes", "Miri reports"],
 "Byte-level shadow monitor over a grid of sizes, alignments and offsets, native and under Miri",
 "Sizes 0..=64 and all offsets modulo 16 are enumerated in native runs; a subset under Miri.")

prop("C13", "Random generators reproduce the published algorithms from any seed",
 "From every seed, each generator produces exactly the sequence of its published reference algorithm (64-bit mixing, splittable, and 256-bit shift generator), including the sequence after splitting and after the short and long jumps. Deriving a larger generator from a smaller one uses consecutive outputs for its state words, and an all-zero seed never yields a stuck generator. Equal seeds always give equal sequences.",
 ["inputs", "histories"],
 "All seeds and all interleavings of drawing, splitting and jumping.",
 "Tests check the first outputs for a few seeds; splits, jumps and interleavings from arbitrary state are unbounded.",
 [A+"rng.rs"],
 [("state update and output mixing", A+"rng.rs: Mix64, SplitMix64, Xoshiro256pp")],
 ["drawn values"],
 "Differential monitor against independent implementations; jumps checked against polynomial arithmetic over GF(2)",
 "Sampled seeds and histories. Jump references are recomputed as x^(2^128) and x^(2^192) modulo the generator's characteristic polynomial, not copied from the tables.")

prop("C14", "Natural string order is a total order and symbols are always identifiers",
 "Natural comparison is a total order on all strings: reflexive only on equal strings, antisymmetric and transitive, and it orders digit runs by numeric value and everything else by text. Symbolizing any string yields a non-empty string of only letters, digits and underscores that does not start with a digit, leaves such strings unchanged, and is idempotent. The optional-string helper maps exactly the empty string to none.",
 ["inputs"],
 "All pairs and triples of strings, including non-ASCII digits, leading zeros and digit runs of any length.",
 "Tests compare a fixed list; order laws quantify over all triples.",
 [A+"str.rs"],
 [("digit-run splitting", A+"str.rs: cmp_natural"), ("character filter", A+"str.rs: symbolize")],
 ["comparison results", "symbolized strings", "sorted order"],
 "Order-law monitor over all triples of adversarial string pools plus a big-integer reference comparison",
 "All triples of each generated pool are checked; pools are sampled and cover all strings up to length 3 over a hostile alphabet.")

prop("C15", "OS strings, write bridges and uncaught errors pass data through unchanged",
 "Converting between OS strings, text and bytes preserves every byte, accepts text exactly when it is valid UTF-8, and orders and compares by bytes. Text formatted through the write bridge reaches the sink byte for byte and in order, and a sink failure surfaces as a formatting error with nothing written after it. A captured error of any kind formats, downcasts by kind and exposes its cause exactly as documented for that kind.",
 ["inputs", "fault_sequences"],
 "All byte strings, all formatted outputs and every sink write at which an error or a short write may occur, all captured error values.",
 "Tests use ASCII strings and sinks that never fail; invalid UTF-8 and failing or short-writing sinks are not exercised.",
 [A+"compat.rs", A+"error.rs"],
 [("transparent byte string", A+"compat.rs: OsStr"), ("io to fmt bridge", A+"compat.rs: Write"), ("type-erased errors", A+"error.rs: Uncaught")],
 ["converted strings", "bytes received by sinks", "formatting results"],
 "Byte-shadow monitor with fault-injecting sinks (short writes, interruptions, errors at every write)",
 "Every failing write index of each generated output is enumerated; contents are sampled.")

prop("C16", "D-Bus signatures are accepted exactly when they form one complete type",
 "A signature is accepted if and only if it is exactly one complete type of the type grammar (basic types, variant, array, maybe, structure, and dictionary entry with a basic key and exactly one value), and any rejection names the first offending element and the reason. Accepted signatures of any length report their length and render back to the same text, also after copying. Parsing into a caller-provided buffer of any size either succeeds or reports insufficient space, and always terminates without undefined behaviour.",
 ["inputs", "configurations"],
 "All byte strings of any length (valid, truncated, mispaired, deeply nested), all buffer sizes.",
 "Tests list a few dozen short signatures; nesting, long signatures and buffer sizes are unbounded.",
 [T+"fmt/dbus/signature.rs", T+"fmt/dbus/element.rs"],
 [("signature parser", T+"fmt/dbus/signature.rs: Sig::parse"), ("element table", T+"fmt/dbus/element.rs")],
 ["accept/reject result and error fields", "length, text form, clone"],
 "Recursive-descent reference monitor over exhaustive short and random long signatures; Miri on a sample",
 "All strings up to a fixed length over the full element alphabet are enumerated. Trusts the reference parser in harness/src/sigmodel.rs.")

prop("C17", "Walking a D-Bus signature follows its type tree",
 "For every accepted signature and every element, the reported sub-signature, position within the container, type length, alignments, size and class of the element equal those of the corresponding node of the type tree, independent of signature length. Moving next, previous, into, out of and over types reaches exactly the corresponding tree node or is refused without moving, and a cursor never leaves the signature. Signatures compare, order and hash as their text does.",
 ["inputs", "histories"],
 "All valid signatures (short and long representation), all elements, all cursor movement sequences.",
 "Tests walk a few signatures once; long signatures and random walks are not covered.",
 [T+"fmt/dbus/signature.rs", T+"fmt/dbus/element.rs"],
 [("per-element offsets", T+"fmt/dbus/signature.rs: Node8, Node64"), ("cursor", T+"fmt/dbus/signature.rs: Cursor")],
 ["cursor results", "element properties", "comparison and hash results"],
 "Type-tree reference monitor: exhaustive per-element queries plus random walks; Miri on a sample",
 "All elements of each generated signature are queried; signatures and walks are sampled beyond a small exhaustive set.")

prop("C18", "D-Bus encoder emits the exact marshalled bytes of the value",
 "For every signature and matching value the encoder's committed output equals the D-Bus marshalling of that value in the chosen byte order: alignment padding of zeroes, length-prefixed strings and arrays, and inline variant signatures. The output is the same whether parts are written directly or through nested encoders. Committing succeeds exactly when the value is complete, and publishes exactly those bytes.",
 ["inputs", "programs"],
 "All signatures and values of the supported types, both byte orders, all ways of nesting encoders, any start offset and any sink that maps memory in arbitrary pieces.",
 "Tests encode a couple of fixed values; nesting, alignment combinations and piecewise sinks are unbounded.",
 [T+"fmt/dbus/dvar.rs", T+"io/map.rs"],
 [("encoder", T+"fmt/dbus/dvar.rs: Enc")],
 ["bytes committed to the sink", "operation results"],
 "Reference-marshaller monitor over random typed values and random encoder programs; Miri on a sample",
 "Sampled values and programs. Trusts the reference marshaller in the harness.")

prop("C19", "D-Bus encoder refuses wrong steps without side effects",
 "An operation that does not match the type expected next is refused with a mismatch error, and an operation whose output cannot be mapped fails with the sink's error; in both cases the encoder behaves afterwards exactly as if the operation had not been attempted. A nested encoder that is dropped without being committed leaves no trace in the result. Committing an incomplete value is refused as pending and publishes nothing.",
 ["programs", "fault_sequences"],
 "All interleavings of valid and invalid operations, abandoned nested encoders, and sink failures at any point.",
 "Tests contain almost no negative steps; the set of wrong steps at each state and of failure points is unbounded.",
 [T+"fmt/dbus/dvar.rs"],
 [("type cursor checks", T+"fmt/dbus/dvar.rs: Enc"), ("sub-encoders", T+"fmt/dbus/dvar.rs: enc, enc_with, commit")],
 ["operation results", "bytes committed to the sink"],
 "Fault-injecting random encoder programs against a reference state machine: every wrong operation at every state, sink failure at every mapping",
 "Wrong operations are enumerated at each visited state; programs are sampled.")

prop("C20", "D-Bus decoder recovers exactly the encoded value",
 "For every signature and value of the types the decoder supports, decoding the marshalled bytes in the matching byte order, directly or through nested decoders, yields exactly the encoded values, with the end of every array recognized precisely. A read that does not match the type expected next, or whose source fails, is refused without changing the decoder or the target. A nested decoder that is dropped without being committed leaves the outer decoder where it was, and committing before the end of the value is refused as pending.",
 ["inputs", "programs"],
 "All supported signatures and values, both byte orders, all ways of nesting decoders, all interleavings of wrong reads and source failures.",
 "Tests decode a couple of fixed buffers; array extents, alignment and nesting combinations are unbounded.",
 [T+"fmt/dbus/dvar.rs"],
 [("decoder", T+"fmt/dbus/dvar.rs: Dec")],
 ["decoded values", "operation results"],
 "Round-trip and reference-marshaller monitor with wrong reads injected at every state; Miri on a sample",
 "Sampled values and programs. Trusts the reference marshaller in the harness.")

prop("C21", "D-Bus decoder survives any input with bounded memory",
 "For arbitrary, truncated or corrupted input bytes, every decoder operation returns either data that is actually present in the input or an error; it never panics, never loops without progress, and never reads outside the input. Memory allocated is bounded by a small multiple of the input size, whatever lengths the input claims. Non-UTF-8 text is reported as such and leaves the target untouched.",
 ["inputs", "programs"],
 "All byte inputs, all signatures, all decoder operation sequences.",
 "Tests only decode well-formed data; hostile lengths, truncation at each byte and bit flips are not covered and over-allocation is invisible to them.",
 [T+"fmt/dbus/dvar.rs", T+"io/map.rs"],
 [("length handling", T+"fmt/dbus/dvar.rs: Dec::str8, str32, array")],
 ["operation results", "allocation sizes", "panics"],
 "Mutation fuzzing under a counting allocator with a reference decoder oracle; Miri and AddressSanitizer on a sample",
 "Truncation at every byte of each base input is enumerated; mutations are sampled.")

prop("C22", "Mapped reads and writes transfer exactly the requested bytes",
 "Reading from and writing to mapped storage transfers exactly the requested bytes at the requested position and advances the position by exactly the bytes transferred, also when a transfer fails part-way and when the storage maps memory in smaller or larger pieces than requested. Requests whose end exceeds the readable data or the address range are refused with the matching error. For a growable byte buffer, committed data is appended after its existing content, which is never changed, and no uncommitted byte is ever exposed.",
 ["inputs", "histories", "fault_sequences"],
 "All positions, lengths and contents, all piecewise mappings, failures at any mapping, all histories of writes and commits.",
 "Tests use one buffer and one write; piecewise mappings, failures and repeated commits are not covered.",
 [T+"io/map.rs"],
 [("mapped helpers", T+"io/map.rs: Read, Write")],
 ["bytes read or committed", "positions", "errors", "Miri reports"],
 "Shadow-buffer monitor with adversarial mappings and failure injection, native and under Miri",
 "Sampled histories; failure positions enumerated per history.")

prop("C23", "Streamed reads and writes never lose, repeat or invent bytes",
 "Data mapped from a stream is always the not-yet-consumed prefix, at least as long as requested, unchanged by repeated mapping, and consuming removes exactly the requested bytes; asking for more than is available reports how much is needed and consumes nothing. Data written to a growable buffer is appended exactly once, in order, and becomes visible only when committed, for any minimum and any size hint. Conditional mapping extends over exactly the longest prefix satisfying the predicate, resuming where it left off when more data arrives.",
 ["inputs", "histories"],
 "All contents, all arrival patterns of data, all minimum and hint values, all operation histories.",
 "Tests map one fixed slice; arrival patterns, extreme hints and resumption are not covered.",
 [T+"io/stream.rs"],
 [("stream helpers", T+"io/stream.rs: Read, Write, read_map_while")],
 ["mapped bytes", "consumed counts", "need-more reports", "Miri reports"],
 "Shadow-stream monitor over random operation histories with piecewise arrival, native and under Miri",
 "Sampled histories.")

prop("C24", "Byte-stream JSON tokenizer yields exact tokens however data arrives",
 "For any byte input the sequence of tokens and errors, with their raw and decoded contents, depends only on the bytes and not on how they arrive; a token is delivered as soon as its end is determined and never before. For valid JSON the tokens are exactly the JSON lexemes, with strings unescaped and numbers split into their parts, and the raw parts and structural characters concatenate to the input. Finishing the input reports each unfinished token exactly once and then signals the end, and finishing with unread data left reports that.",
 ["inputs", "histories"],
 "All byte inputs and all arrival patterns.",
 "Tests tokenize short fixed inputs in one piece; arrival patterns at each byte and the end of input inside each token are not covered.",
 [T+"fmt/json/token.rs"],
 [("resumable tokenizer", T+"fmt/json/token.rs: Dec::pop, complete")],
 ["popped tokens", "need-more reports", "completion results"],
 "Reference-lexer monitor over exhaustive short and random long inputs with byte-wise and random arrival",
 "All inputs up to a small length over a hostile alphabet are enumerated. Trusts the independent lexer in the harness.")

prop("C25", "Byte-stream JSON tokenizer diagnoses every malformed lexeme",
 "Every malformed lexeme is reported as the matching error at its place: raw control characters, unknown or short escapes and unpaired surrogates in strings, non-UTF-8 strings and items, unknown items, extra or leading plus signs, empty number parts, and an unterminated string at the end. Unusable escapes decode to the replacement character and all other content is kept exactly once. Tokenization continues with the following data as if the lexeme had been valid, and no input makes it panic or stall.",
 ["inputs"],
 "All byte inputs, in particular all malformed lexemes in all contexts.",
 "Tests contain few malformed lexemes, each alone; combinations within one string and at the end of input are unbounded.",
 [T+"fmt/json/token.rs"],
 [("error paths of the tokenizer", T+"fmt/json/token.rs")],
 ["popped tokens and errors"],
 "Reference-lexer monitor over mutation-heavy and exhaustive malformed lexemes",
 "All strings up to a small length over an escape- and surrogate-heavy alphabet are enumerated. Trusts the independent lexer in the harness.")

prop("C26", "JSON event stream is the pre-order walk of the document",
 "For every valid JSON document followed by whitespace, the event stream is exactly the pre-order walk of the document: opening and closing events for arrays and objects, a key event for each member name and a primitive event for each scalar, in source order and without error events, however the data arrives. For every invalid sequence of JSON lexemes at least one error event is reported. Nesting depth is limited only by memory.",
 ["inputs", "histories"],
 "All documents, all invalid lexeme sequences, all arrival patterns.",
 "Existing tests do not cover nested or multi-element documents.",
 [T+"fmt/json/stream.rs"],
 [("structure state machine", T+"fmt/json/stream.rs: DecInner, Dec::pop")],
 ["popped events"],
 "Tree-walk reference monitor over generated documents and exhaustive short lexeme sequences",
 "All lexeme sequences up to a small length are enumerated against a recursive-descent acceptor; larger documents are sampled.")

prop("C27", "MZ and PE definitions match the file formats byte for byte",
 "Every MZ header read from bytes exposes each field's little-endian value at its specified offset and writes back the identical bytes, and the checksum helper is the wrapping sum of little-endian words with an odd last byte zero-extended. The bundled stub program is a well-formed MZ program whose header describes it and whose words sum to all ones. PE header structures, sizes and constants equal the published format.",
 ["inputs"],
 "All header contents and all byte strings for the checksum; all published constants.",
 "Tests check total sizes and the stub only; field placement over all contents and the constant tables are not compared with the specification.",
 [T+"msdosmz.rs", T+"pecoff.rs"],
 [("repr(C) headers", T+"msdosmz.rs, "+T+"pecoff.rs")],
 ["field values", "bytes written back", "checksum results", "constant values"],
 "Byte-shadow monitor with an independent little-endian field reader; independently transcribed constant tables; Miri on a sample",
 "Sampled header contents; constants are compared with tables transcribed from the published PE/COFF specification.")

prop("C28", "ELF, errno and C ABI definitions match the system's own headers and files",
 "Every ELF constant, structure size and field offset equals the published one (the generic ABI's, the system ELF header's, or the registry's for vendor extensions), and overlaying the structures on any real ELF file reads the same header values as an independent reader. Every error number equals the kernel's for each supported platform. The C integer and pointer types of each supported platform have the size and alignment its ABI prescribes, and those of the native platform equal the compiler's.",
 ["inputs", "configurations"],
 "All constants and structures, all ELF files, all supported platforms.",
 "Tests check a few sizes; the constant tables are not compared with any independent source and no ELF file is read.",
 [S+"ffi/elf.rs", S+"ffi/linux", A+"ffi/abi.rs"],
 [("constant tables and repr(C) structs", S+"ffi/elf.rs"), ("errno tables", S+"ffi/linux/common"), ("ABI aliases", A+"ffi/abi.rs")],
 ["constant values", "overlaid header fields", "size_of/align_of"],
 "Differential monitor against elf.h/errno.h and an independent ELF reader over ELF files found on the system and synthesized ones",
 "Constants are compared with a committed copy of the values of the installed headers and, for vendor extensions absent there, of their registries; one interim number without an independent source is left out. ELF files are those in the sandbox.")

prop("C29", "FFI pointers round-trip addresses and reject null",
 "For every address representation (native or foreign-endian, plain or non-zero, any alignment), creating a pointer from a non-null address, reference or raw pointer and reading it back yields the same address, null is representable exactly where the representation allows it and is rejected otherwise, and the stored bytes are in the representation's byte order. Dereferencing a pointer made from a live object yields that object. Casting, replacing, comparing, hashing and formatting depend only on the address, and none of it is undefined behaviour.",
 ["inputs", "configurations", "histories"],
 "All address values, all representations, all target types, all operation sequences.",
 "Tests convert one address per type; foreign-endian non-zero combinations and provenance are not covered.",
 [A+"ffi/pointer.rs", A+"ffi/endian.rs", A+"ffi/integer.rs"],
 [("address trait", A+"ffi/pointer.rs: NativeAddress"), ("pointer type", A+"ffi/pointer.rs: Pointer")],
 ["addresses, stored bytes, dereferenced values", "Miri reports"],
 "Shadow-address monitor over random operation histories, native and under Miri",
 "Held on sampled histories; UB detection is limited to what Miri executes.")

prop("C30", "Compiled schemas list, link and find every command and flag",
 "For every set of distinct commands and flags, in whatever order it was given, the compiled schema lists exactly the given commands sorted by path and each command's flags sorted by name, each with its own mode, help text and report target. Searching finds an entry exactly when it exists and otherwise names its place in that order, and iteration from any position yields exactly the rest. The upward link of a command names the longest defined proper prefix of its path, or nothing if there is none.",
 ["inputs", "configurations"],
 "All sets of command paths (with gaps, shared prefixes, any depth) and flag names, in all orders of definition.",
 "Tests only count the entries of three small schemas; order, links and lookups over arbitrary trees are never compared with a reference.",
 [A+"args/layout.rs"],
 [("command tree compilation", A+"args/layout.rs: CommandSet::compile"), ("flag compilation", A+"args/layout.rs: FlagSet::compile"), ("lookup", A+"args/layout.rs: search_by, up_from, iter_from")],
 ["listed commands and flags", "search results, upward links", "addresses of report targets", "Miri reports"],
 "Entry-by-entry monitor against a sorted reference list, over random, large and all small definition orders",
 "Held on the generated schemas only. Trusts the reference in harness/src/bin/c30.rs.")

prop("C31", "Conditional blocks, brands, markers and lifetime overrides act as given",
 "In a list of conditional code blocks exactly the block of the first condition that holds is compiled in, the final block without condition only if none holds, and no other block has any effect. Marker and brand values take no space, force no alignment, and all values of one marker type are equal, equally ordered and hash alike; creating a brand invokes the given operation exactly once and hands on its result. Overriding the lifetime of a value yields that very value, moved once.",
 ["inputs", "configurations"],
 "All lists of conditions with and without a final block, all marked types, all nestings of brands, all values overridden.",
 "Tests try a handful of block lists and one brand; orders, hashes and layouts of markers over many types, long lists and nested brands are never observed.",
 [A+"cfg.rs", A+"brand.rs", A+"marker.rs", A+"polonius.rs", A+"never.rs", A+"test.rs"],
 [("conditional blocks", A+"cfg.rs: cond"), ("markers", A+"marker.rs: PhantomInvariant"), ("brands", A+"brand.rs: unique"), ("lifetime overrides", A+"polonius.rs: coerce_unsafe")],
 ["order and set of blocks run", "sizes, alignments, comparisons, recorded hash input", "addresses and counts of values passed through", "Miri reports"],
 "Log of executed blocks vs. first-true rule over generated block lists; laws and layout of markers; shadow values through brands and overrides, native and under Miri",
 "Held on the generated lists and types only. What only the compiler can refuse (mixing brands, wrong variance) is not observed at run time and not claimed.")

prop("C32", "The build metadata query reports versions and allowed lints",
 "Run on any workspace with the three packages and both lint tables, the build metadata query succeeds and prints four lines: the version of each of the three packages in a fixed order, and the comma-separated list of the allowed lints. That list names every lint allowed in the workspace exactly once and no other, whichever way its level is written, and under the name the compiler knows: lints of the linter carry its prefix, those of the compiler none. The result depends only on the workspace asked for, not on the directory the query is run from.",
 ["inputs", "configurations"],
 "All version numbers, all lint tables of either kind with any levels and notations, all locations of the workspace.",
 "No test runs the query; a wrong name or a dropped lint only shows in the arguments of a later lint run.",
 ["lib/util/cargo-query.py"],
 [("manifest query", "lib/util/cargo-query.py")],
 ["exit status and output lines"],
 "Differential monitor of the query over generated workspaces and, for the real one, against cargo's own metadata",
 "Held on the generated workspaces only.")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "state": p["state"],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "harness/src/bin", p["id"].lower() + ".rs"))]
    checks = [{
        "property": p["id"],
        "quick_cmd": "tools/check %s" % p["id"],
        "thorough_cmd": "tools/check %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in have]
    m = {"version": 1, "setup_cmd": "tools/setup", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": "Check not built yet."} for p in P if p not in have]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(have), "checks")

main()
