#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording of the properties)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

L = "src/lib/"; H = "include/Srl/"

prop("P01", "A document written in any format reads back as the same document",
 "For every document (a tree of objects and arrays holding named values and named sub-scopes), writing it as JSON (compact or spaced), MessagePack or the library's own binary format and loading the result gives an equal document: same scope kinds, same names in objects, same values and same sub-scopes, each in the same order. This holds for any shape, any number of fields, any repetition of names and any size of text or blob.",
 ["inputs"], "all document shapes up to a bound on scopes and fields, all name-sharing patterns, all lengths/counts in dense ranges around every size boundary of the encodings",
 "Format encoders switch representation at size boundaries and keep cross-field state (name tables, scope stacks); a defect shows only for particular shapes, counts or lengths that hand-picked tests miss.",
 [L+"PJson.cpp", L+"PMsgPack.cpp", L+"PSrl.cpp", L+"Node.cpp", L+"Environment.cpp"],
 [("JSON encoder/decoder", L+"PJson.cpp write/read"), ("MessagePack encoder/decoder with back-patched counts", L+"PMsgPack.cpp write/write_scope/read"), ("name table and variable-length integers", L+"PSrl.cpp write_head/read_head/encode_integer/decode_integer"), ("recursive scope writer/reader", L+"Node.cpp to_source/read_source")],
 ["bytes of Tree::to_source", "tree contents after Tree::load_source"],
 [("scope stack", "open scopes of the document being written or read", L+"PJson.cpp, PMsgPack.cpp, PSrl.cpp"), ("name table", "names already emitted, by position", L+"PSrl.cpp")])

prop("P02", "Numbers, booleans and nulls keep their value across every format",
 "Every integer of 8 to 64 bits, every boolean, null and every float or double written to any format and read back as that type has the same numeric value (NaN stays NaN, infinities stay infinities); in the binary formats a 32-bit or 64-bit float comes back bit for bit.",
 ["inputs"], "all 8- and 16-bit integers, all boundary neighbourhoods (every power of two and ten, plus/minus small offsets) of wider integers, all floats over an exhaustive grid of exponents and mantissa patterns (every 32-bit float in the thorough tier)",
 "The value space is astronomically larger than a test's handful; errors sit at isolated boundaries (fixnum limits, sign changes, 2^63, shortest-digits rounding).",
 [L+"PSrl.cpp", L+"PMsgPack.cpp", L+"ToolsStrConv.cpp", L+"fpconv/fpconv.c"],
 [("integer/float to text", L+"ToolsStrConv.cpp conv_type, fpconv/fpconv.c fpconv_dtoa"), ("text to number", L+"ToolsStrConv.cpp str_to_type"), ("binary number encodings", L+"PMsgPack.cpp write_scalar/read_scalar, "+L+"PSrl.cpp write/read_num")],
 ["Node::unwrap_field after a write/load round trip"])

prop("P03", "Text and field names arrive unchanged whatever characters they hold",
 "Any text, given as UTF-8, UTF-16 or UTF-32 string, C array or single character, and any field name, written to any format and read back in any of those encodings, is the same sequence of code points, including quotes, backslashes, control characters, NUL in counted strings, and characters outside the basic plane. A fixed-size character array receives the whole text properly terminated or the restore is refused.",
 ["inputs"], "all code points as single characters, all short strings over an alphabet of structurally significant characters, all encodings on both sides, all lengths through the in-place/out-of-place storage and buffer limits",
 "Escaping, transcoding and small-string storage interact per character and per length; tests use a few friendly strings.",
 [L+"PJson.cpp", L+"ToolsStrConv.cpp", H+"Resolve.hpp", H+"String.h", L+"Environment.cpp"],
 [("escape/unescape", L+"PJson.cpp write_escape/read_unescape"), ("string paste into arrays", H+"Resolve.hpp Switch<char array>::Paste"), ("name interning", L+"Environment.cpp store_string")],
 ["strings returned by unwrap_field, names seen by foreach_value/foreach_node"])

prop("P04", "Binary data survives, and malformed base64 or hex text is refused",
 "Any byte sequence stored as binary data comes back byte for byte from every format, and base64 and hex encoding are exact inverses of their decoding and match the standard alphabets. Text that is not well-formed base64 (bad length, foreign characters, misplaced padding) or hex is refused with the library's exception, without writing outside the destination.",
 ["inputs"], "all byte strings up to length 2 and patterned strings through all lengths of a dense range, all 4-character base64 groups over a covering alphabet, all single-byte corruptions of valid text",
 "Padding, length remainders and out-of-alphabet bytes form a combinatorial input space where a wrong branch still decodes typical samples.",
 [L+"ToolsBtsConv.cpp", H+"Resolve.hpp", H+"BitWrap.h", L+"PMsgPack.cpp", L+"PSrl.cpp"],
 [("base64 and hex codecs", L+"ToolsBtsConv.cpp"), ("binary paste", H+"Resolve.hpp Switch<BitWrap>::Paste, "+H+"BitWrap.h VecWrap")],
 ["bytes delivered to BitWrap/VecWrap/Bytes", "return values and exceptions of Srl::Tools base64/hex functions"])

prop("P05", "Loading from a stream gives exactly what loading from memory gives",
 "For every document or byte sequence and every way the stream delivers it (any chunking, any position of a token relative to the internal read-ahead), loading or restoring from an input stream yields the same tree or object, or the same refusal, as from the complete bytes in memory.",
 ["inputs", "schedules"], "all alignments of every token kind relative to the read-ahead boundary, token lengths spanning one to several refills, all short-chunk delivery patterns up to a bound",
 "The buffered reader preserves, moves and refills windows; only particular alignments of token and refill expose stale or misplaced bytes, and small test documents never refill.",
 [L+"In.cpp", H+"In.hpp", L+"PJson.cpp", L+"PMsgPack.cpp", L+"PSrl.cpp"],
 [("refill with preserved window", L+"In.cpp try_fetch_data"), ("token scanning", H+"In.hpp move_until/read_block/read_substitue"), ("stream-mode copies of names", L+"PSrl.cpp read_head, "+L+"PMsgPack.cpp read_name")],
 ["trees and objects restored from std::istream versus memory"],
 [("window", "start/pos/end/anchor of buffered bytes", H+"In.h")])

prop("P06", "Writing to a stream produces exactly the bytes written to memory",
 "For every document and object, the bytes appended to an output stream are identical to the bytes produced in memory, whatever the document size relative to the internal buffer, wherever the stream is already positioned, and without disturbing content written to the stream before or after.",
 ["inputs", "histories"], "all document sizes across several buffer lengths, all positions of back-patched counts relative to flushes, all prior-content lengths of a set, sequences of several writes to one stream",
 "Scope counts are patched after the scope closed, possibly after their bytes were flushed; only documents larger than the buffer with particular alignments take that path.",
 [L+"Out.cpp", H+"Out.hpp", L+"PMsgPack.cpp"],
 [("buffered output and flush", L+"Out.cpp write_to_stream, "+H+"Out.hpp alloc"), ("reserve/patch tickets", H+"Out.hpp reserve/write(Ticket)")],
 ["content of std::ostringstream versus std::vector output"],
 [("segments flushed", "decides whether a reserved slot is still in memory", H+"Out.h State")])

prop("P07", "No input makes loading corrupt memory, hang or fail in undocumented ways",
 "Whatever bytes are given to any of the format readers, from memory or from a stream, loading or typed restoring terminates after work proportional to the input, touches no memory outside the input and its own buffers, and either succeeds or reports the library's exception type, nothing else.",
 ["inputs"], "all byte strings up to a length over full or structural alphabets, all single-byte substitutions, deletions, insertions and truncations of a corpus covering every construct, all extreme length fields",
 "Memory errors hide in specific byte combinations (lengths, indices, end-of-input positions) and are silent without instrumentation, so passing tests say nothing.",
 [L+"PJson.cpp", L+"PMsgPack.cpp", L+"PSrl.cpp", L+"In.cpp", H+"In.hpp", L+"Node.cpp", L+"ToolsStrConv.cpp"],
 [("bounds-checked reads", H+"In.hpp peek/move/read_block"), ("format state machines", L+"PJson.cpp read, "+L+"PMsgPack.cpp read, "+L+"PSrl.cpp read")],
 ["exception type, termination and address-sanitizer reports of load_source/restore"])

prop("P08", "A truncated document is refused",
 "Every proper prefix of a document written by the library, in any format, loaded from memory or from a stream, is refused with the library's exception and never accepted as a shorter document; the same holds for whatever an output stream holds when writing to it is interrupted at any point. A typed restore from such a prefix is refused or yields the complete object (when only unneeded bytes at the end are missing).",
 ["crash_points", "inputs"], "every truncation point of every document in a covering corpus, from memory and stream",
 "A torn write can stop at any byte; tests load only complete documents.",
 [H+"In.hpp", L+"In.cpp", L+"PJson.cpp", L+"PMsgPack.cpp", L+"PSrl.cpp"],
 [("end-of-input detection", H+"In.hpp peek/try_peek, "+L+"In.cpp fetch_data"), ("scope completion", L+"Node.cpp read_source")],
 ["exception thrown by Tree::load_source"])

prop("P09", "Every valid JSON document is read with its standard meaning",
 "Every JSON document whose root is an object or array, in any legal spelling (whitespace between tokens, escape sequences including \\u escapes and surrogate pairs, number notations), loads as the document the JSON standard assigns to it, also when /* */ or // comments stand between tokens. Integers up to 64 bits load exactly, other numbers as the nearest double.",
 ["inputs"], "all documents derivable from a grammar up to a size bound combined with all placements of each whitespace/comment/spelling variant, all \\u code units and surrogate pairs, number spellings over all short digit/sign/point/exponent strings",
 "The set of legal spellings is infinite and foreign producers choose other spellings than the library's own writer, which is all that round-trip tests see.",
 [L+"PJson.cpp", L+"ToolsStrConv.cpp"],
 [("tokenizer", L+"PJson.cpp read/process_char/process_quote/skip_comment"), ("escapes", L+"PJson.cpp read_unescape/uc_literal"), ("number parsing", L+"ToolsStrConv.cpp str_to_type")],
 ["tree contents after Tree::load_source<PJson> versus an independent JSON parser"])

prop("P10", "JSON output is always standard JSON that means the document",
 "For every document without NaN or infinity, the JSON written (compact or spaced) is accepted by a strict standard parser and denotes the same document: same names, texts, numbers and nesting, binary data as its base64 text.",
 ["inputs"], "all documents up to the shape bound, every character in names and texts, every number boundary",
 "The library's own lenient reader accepts its own mistakes, so round-trip tests cannot show that other programs can read the output.",
 [L+"PJson.cpp", L+"ToolsStrConv.cpp", L+"Environment.cpp"],
 [("JSON writer", L+"PJson.cpp write/insert_spacing/write_escape"), ("number formatting", L+"ToolsStrConv.cpp type_to_str")],
 ["bytes of to_source<PJson> under an independent strict parser"])

prop("P11", "MessagePack is exchanged correctly with other implementations",
 "Everything written as MessagePack is decoded by an independent implementation of the specification to the same document, and every specification-conformant encoding of a document with text keys (any of the alternative widths for integers, text, binary, arrays and maps) is read as that document; map keys which are other scalars load as unnamed fields with their values intact, and encodings outside what is supported (scopes or extension types as keys, unknown prefixes) are refused rather than misread.",
 ["inputs"], "all type prefixes with all boundary lengths and values, all width choices for every element of documents up to a bound",
 "Writer and reader can agree on a wrong layout, which every round-trip test then confirms.",
 [L+"PMsgPack.cpp"],
 [("prefix dispatch and lengths", L+"PMsgPack.cpp write_str/write_bin/get_str_size/get_bin_size/get_scope_info"), ("number encodings", L+"PMsgPack.cpp write_scalar/read_num/read_fixnum")],
 ["bytes of to_source<PMsgPack>; tree after load_source<PMsgPack> of independently encoded bytes"])

prop("P12", "Objects restore equal to what was stored, by every route",
 "An object graph built from supported types (numbers, text, pairs, tuples, fixed arrays, sequence, set and map containers, nested and user-resolved classes, unique pointers) stored in any format through any storing route and restored through any restoring route, from memory or stream, whole or by field, equals the original; all storing routes yield equivalent documents.",
 ["inputs", "programs"], "the product of value types x structure shapes (including empty containers) x storing routes x restoring routes x formats x sources, exhaustively",
 "The direct streaming route and the in-memory tree route are separate code for every type, so the number of combinations exceeds any test list.",
 [H+"Resolve.hpp", H+"Context.hpp", H+"Node.hpp", L+"Node.cpp", L+"Tree.cpp", H+"Tree.hpp"],
 [("per-type insert/paste", H+"Resolve.hpp Switch specialisations"), ("lazy scope consumption", L+"Node.cpp consume_value/consume_node/consume_scope"), ("routes", H+"Tree.hpp store/restore/load_object/pack/unpack")],
 ["restored objects compared with the originals"])

prop("P13", "Restoring does not depend on field order and tolerates unknown fields",
 "An object restores to the same value from a document holding its fields in any order and any number of additional fields or nested scopes at any place, at every nesting level; a missing required field is refused with the library's exception, and a missing optional field leaves the target untouched (references to one shared object are read in the order they were written, or refused).",
 ["inputs", "histories"], "all permutations of fields at two nesting levels, all placements of extra values/scopes up to a bound, every subset of missing fields, both restore routes, all formats",
 "The streaming restore buffers, skips and resumes differently for each order; the number of orders and insertion places is factorial.",
 [L+"Node.cpp", H+"Node.hpp", H+"Context.hpp"],
 [("out-of-order buffering", L+"Node.cpp consume_value/consume_node"), ("skipping the rest of a scope", L+"Node.cpp consume_scope"), ("optional fields", H+"Context.hpp paste, "+L+"Node.cpp has_value/has_node")],
 ["restored object or exception"],
 [("parsed flag", "whether a scope was read to its end", H+"Node.h")])

prop("P14", "Shared references are stored once and restored with the same sharing",
 "Whatever pattern of shared and weak pointers without cycles refers to whatever set of objects, restoring yields the same pattern: two references are the same object after restoring exactly if they were the same object when stored, with equal content, whether they are held as pointers to the object's own class or to any registered polymorphic base of it, and null references stay null; a document referring to one object from pointers of unrelated types is refused, and so are a reference read before the place which holds the object and a cycle of references. Consecutive store operations, also on one tree, are independent of each other.",
 ["inputs", "histories"], "all aliasing patterns (set partitions) of up to five references including null and weak ones, in fields and containers, all store/restore routes and formats, repeated operations on one tree",
 "Identity tables live across fields and calls; wrong sharing shows only for particular partitions or repeated use.",
 [H+"Resolve.hpp", L+"Node.cpp", L+"Environment.cpp", L+"Tree.cpp"],
 [("shared key tables", L+"Node.cpp insert_shared/find_shared"), ("shared/weak pointer switch", H+"Resolve.hpp Switch<shared_ptr>/<weak_ptr>")],
 ["pointer equality and pointees after restore"],
 [("shared tables", "address to key and key to object", H+"Environment.h")])

prop("P15", "Polymorphic objects come back as their own dynamic type",
 "Objects held by raw, unique or shared pointer to a registered base class restore with their original dynamic type and contents in every combination, container and format; an unknown type name, or one registered for a class not derived from the requested base, is refused with the library's exception, leaving nothing leaked or destroyed twice.",
 ["inputs"], "all sequences of dynamic types up to a length, all holders, routes and formats, all unknown/missing type names, pre-filled targets",
 "Dispatch depends on a registry and on type names inside the document; combinations of holder, route and failure are not enumerated by tests.",
 [H+"Resolve.hpp", H+"Registration.h", L+"Registration.cpp"],
 [("polymorphic switch", H+"Resolve.hpp Switch<polymorphic pointer>"), ("type registry", H+"Registration.h create, "+L+"Registration.cpp")],
 ["dynamic type, fields and destructor counts"])

prop("P16", "Numeric conversion is exact or refused, never silently wrong",
 "Reading a number (or numeric text) into any integer type gives the mathematically equal value (fractions are cut off toward zero) if it fits the target's range and is refused with the library's exception otherwise; reading into a floating-point type gives the nearest representable value, refused if out of range. A refused conversion does not disturb other fields.",
 ["inputs"], "all source types x all target types x all boundary values (every target's limits and neighbours, powers of two, zero, extremes, fractions, NaN and infinities), as stored number, through each format and as decimal text; all 8/16-bit values exhaustively",
 "Overflow checks fail only in corners of a type-pair matrix of more than a hundred cells.",
 [H+"TpTools.h", H+"Resolve.hpp", L+"ToolsStrConv.cpp"],
 [("range-checked assignment", H+"TpTools.h overflows/try_apply"), ("text to number", L+"ToolsStrConv.cpp str_to_int/str_to_double")],
 ["value or exception of unwrap_field<T>"])

prop("P17", "Every history of edits leaves the document the edits describe",
 "After any sequence of inserting values, arrays, sub-scopes and copies of nodes (also between trees), and removing by name, position or reference, a node enumerates exactly the values and sub-scopes a simple ordered list model predicts, and writing and reloading it agrees with that.",
 ["histories"], "all edit sequences up to a depth over a small alphabet of operations, names and positions",
 "List, memory-reuse and name-interning state couple distant operations; only histories, not single calls, expose errors.",
 [L+"Node.cpp", H+"Node.hpp", L+"Environment.cpp", H+"Heap.hpp"],
 [("insert/remove", L+"Node.cpp insert_node/insert_value/find_link/get_link_at_index"), ("node copy", L+"Environment.cpp store_node/create_link")],
 ["foreach_value/foreach_node/num_values/num_nodes and to_source after each step"])

prop("P18", "Look-ups return the right item or refuse, never garbage",
 "In any document, looking up a value, node or item by name (in any encoding) or index, with or without recursion, through a node, a tree or a generic item, returns the first matching item or all matching items in order; an absent name or index, an empty item, or an impossible conversion yields the library's exception or an empty result, and try-style look-ups never throw.",
 ["inputs"], "all document shapes up to a bound with all repetition patterns of names, all look-up functions with all present and absent keys and indices, all conversions of all item kinds",
 "Absent keys, out-of-range indices and kind mismatches multiply with the number of accessors; tests touch a few.",
 [L+"Node.cpp", H+"Union.hpp", H+"Union.h", L+"Tree.cpp"],
 [("look-ups", L+"Node.cpp value/node/get/try_get/find_values/find_nodes/has_value/has_node"), ("generic items", H+"Union.hpp unwrap/copy_to/unwrap_if")],
 ["returned items and exceptions"])

prop("P19", "A used tree or parser behaves like a fresh one",
 "After any history of loading, storing, restoring, packing, clearing and moving, including operations that failed half-way or whose user code threw, the next operation on the same tree and the same parser object gives the same result as on fresh ones.",
 ["histories"], "all sequences up to a depth over an alphabet of successful and failing operations, all formats, sharing tree and parser objects",
 "State left by one operation (scope stacks, name tables, shared keys, mode flags) harms a later one; tests run each operation on fresh objects or in one fixed order.",
 [L+"Tree.cpp", L+"Environment.cpp", L+"PJson.cpp", L+"PMsgPack.cpp", L+"PSrl.cpp", L+"In.cpp", L+"Out.cpp"],
 [("reset of environment and parsers", L+"Environment.cpp clear/set_input/set_output, Parser::clear implementations"), ("tree prologue", L+"Tree.cpp prologue_in/to_source/operator=")],
 ["result of the last operation versus a fresh tree and parser"],
 [("environment", "heap, name table, shared tables, input/output and mode flags", H+"Environment.h")])

prop("P20", "The hash table behaves as a map under every history",
 "Under every sequence of insert, look-up, remove, clear, move and iteration, with any hash collisions and any number of entries, the library's hash table contains exactly the entries of a reference map, pointers to entries stay valid until their removal, and every entry is destroyed exactly once.",
 ["histories"], "all operation sequences up to a depth over a few keys including colliding ones, all table sizes through several growth steps",
 "Bucket chains, growth and entry reuse are coupled; collisions and growth at the wrong moment are not reached by plain tests.",
 [H+"Hash.h", H+"Hash.hpp", L+"Hash.cpp"],
 [("insert/remove/grow", H+"Hash.hpp"), ("move", H+"Hash.hpp operator=")],
 ["get/insert/remove/foreach/num_entries results, destructor counts"])

prop("P21", "The arena hands out disjoint, aligned, stable memory",
 "Under every sequence of allocations of any size and alignment, releases and resets, memory blocks handed out by the library's arena lie in live memory, are aligned as requested, never overlap a block still in use, and keep their contents until released or reset; nothing is leaked.",
 ["histories"], "all operation sequences up to a depth over sizes around every internal limit, alignments and release orders",
 "Overlap requires a specific mix of segment exhaustion, alignment padding and free-list reuse.",
 [L+"Heap.cpp", H+"Heap.h", H+"Heap.hpp"],
 [("segments and free lists", L+"Heap.cpp alloc/set_segment/put_mem/clear"), ("typed allocation", H+"Heap.hpp create, HeapAllocator")],
 ["addresses and contents of blocks"])

prop("P22", "Deep nesting is loaded up to the limit and refused beyond it",
 "A document nested up to the documented limit loads and round-trips in every format; one nested deeper, by any amount and through any mix of scope kinds, is refused with the library's exception instead of exhausting the stack, also where the nested part is an unknown field skipped or buffered by a typed restore.",
 ["inputs"], "all depths from 1 to well past the limit and selected depths up to a million, all scope-kind mixes of the outer levels, all formats, memory and stream, typed restores with the deep part before and after known fields",
 "Stack exhaustion needs depths no test document has, and the limit is an exact boundary.",
 [L+"Node.cpp"],
 [("depth check", L+"Node.cpp read_source"), ("skipping", L+"Node.cpp consume_scope/consume_node/consume_value")],
 ["exception or loaded tree"])

prop("P23", "Text conversion between encodings is exact and refuses invalid input",
 "Converting any sequence of valid code points between UTF-8, UTF-16 and UTF-32 gives exactly the standard encoding of the same code points, whatever the target buffer's previous size and write position; ill-formed input (overlong, truncated, surrogate, out of range) is refused rather than passed on as something else.",
 ["inputs"], "every Unicode code point, all pairs over a boundary set, all ill-formed sequences of up to four bytes over a covering byte set, all buffer sizes and offsets around the needed size, all encoding pairs",
 "Over a million code points, six directions and growing buffers cannot be sampled meaningfully.",
 [L+"ToolsStrConv.cpp", H+"String.hpp"],
 [("conversion loop", L+"ToolsStrConv.cpp conv_charset"), ("string unwrap", H+"String.hpp unwrap")],
 ["output bytes or exception of Tools::conv_charset and String::unwrap"])

prop("P24", "Separate trees do not influence each other, in one thread or several",
 "Operations on separate trees and parsers, interleaved in one thread in any order or running in different threads at the same time, give the same results as when run alone, without data races.",
 ["schedules"], "all orders of the calls of two sessions in one thread, all nestings of one session in a callback of another, all schedules of two threads with one preemption at the entry of any function of the library (thorough: also at exits, two preemptions), and all pairs of sessions run concurrently under a happens-before race detector, which shows that finer interleavings are equivalent to the explored ones",
 "Hidden shared state (static buffers, lazily built tables) shows only under particular interleavings.",
 [L+"Tree.cpp", L+"Environment.cpp", L+"Registration.cpp", L+"ToolsBtsConv.cpp", L+"ToolsStrConv.cpp"],
 [("per-tree environment", H+"Environment.h"), ("global registry and constants", L+"Registration.cpp, file-scope objects in src/lib")],
 ["results of each tree; race reports"])

prop("P25", "A load, restore or store that fails anywhere leaks nothing and leaves everything usable",
 "If a load, restore or store is cut short at any point, by malformed data, a conversion error, a missing field, an exception from user code or lack of memory, every object created so far is destroyed exactly once, targets remain valid and destructible, no memory is lost, and the same tree and parser then work normally.",
 ["fault_sequences", "crash_points"], "a failure injected at every field, element, constructor and resolve call of a covering set of object types, and at every truncation point of their documents, for all routes and formats",
 "Each failure point is a different path through partially built objects; tests fail at one or two places.",
 [H+"Resolve.hpp", H+"Tree.hpp", L+"Tree.cpp", L+"Node.cpp", H+"Aux.h"],
 [("ownership while pasting", H+"Resolve.hpp pointer switches"), ("scope of parser and mode flags", L+"Tree.cpp read_source/to_source")],
 ["live-object and live-byte counts, subsequent operations"])

prop("P26", "A tree owns its data and is independent of its sources",
 "After inserting or loading, a tree's contents do not change and remain valid when the caller's buffers, strings, objects, streams, parsers or other trees are altered or destroyed, when the tree is moved, and when other parts of the tree are edited.",
 ["histories"], "all insertion/loading routes x all kinds of source destroyed or overwritten x all value sizes around the in-place storage limit x tree moves",
 "Retained references work by luck until the source memory is reused, so ordinary tests pass.",
 [L+"Environment.cpp", H+"Value.h", H+"Blocks.h", L+"Tree.cpp"],
 [("copy into the arena", L+"Environment.cpp store_value/store_string"), ("in-place storage", H+"Blocks.h try_store_local"), ("cross-tree node copy", L+"Environment.cpp store_node")],
 ["tree contents after the source was overwritten and freed"])

prop("P27", "Packing and unpacking items matches building and reading a document",
 "Writing any sequence of named items directly to an output, including nested scopes written by callbacks, gives the same document as inserting the same items into a tree and writing that; reading named items back directly in any order gives the same results as loading the document and looking them up.",
 ["programs", "inputs"], "all item sequences up to a length over all item kinds including nested callback scopes, all read-back orders, all formats, memory and stream",
 "The direct path duplicates the tree path per item kind; combinations and orders are not covered by tests.",
 [H+"Tree.hpp", L+"Tree.cpp", H+"ScopeWrap.h", H+"Node.hpp"],
 [("pack/unpack", H+"Tree.hpp pack/unpack"), ("callback scopes", H+"ScopeWrap.h, "+H+"Node.hpp insert<ScopeWrap>"), ("direct write mode", L+"Node.cpp insert_value, "+H+"Node.hpp open_scope")],
 ["packed bytes reloaded; unpacked values"])

prop("P28", "Results do not depend on settings of the process or of the streams",
 "Loading, storing, look-ups and conversions give the same bytes, values and refusals whatever the locale of the process or thread (set by setlocale, uselocale or std::locale::global, changed between calls), the value of errno beforehand, and the format flags, field width, imbued locale, tied stream and exception mask (of bad and fail) of the given streams; what is written under one setting is read under any other, and the library leaves all these settings as they were.",
 ["histories", "inputs"], "all assignments of two locales to the calls of every kind of session (thorough: of eight), all short texts over digits, signs and separators of several locales and all spellings of literals in eight locales, doubles of every exponent written and read in eight locales, all combinations of stream settings with documents of all formats, complete and cut",
 "Tests run in the C locale with default streams; a call which formats or parses by the locale works there for every input.",
 [L+"ToolsStrConv.cpp", L+"In.cpp", L+"Out.cpp", L+"PJson.cpp", L+"fpconv/fpconv.c"],
 [("text to number", L+"ToolsStrConv.cpp str_to_double/str_to_type"), ("number to text", L+"ToolsStrConv.cpp type_to_str"), ("reading ahead", L+"In.cpp read_ahead"), ("writing to a stream", L+"Out.cpp write_to_stream, "+H+"Out.hpp write")],
 ["bytes written, values and refusals; settings after the call"])

prop("P29", "Work and memory grow in proportion to the input",
 "Loading, writing, visiting, restoring, storing, unpacking, copying, editing and converting take an amount of work and of memory which grows no faster than the amount of data, for every kind of content (many items, names, scopes, long texts, names, blobs, numbers, comments), every format and every route (memory, streams delivering any pieces, typed restore, skipped fields); lengths and counts announced by a document cost nothing before the data is there; using one tree and parser again and again, or editing one tree, does not get slower or take more memory than what it holds calls for.",
 ["inputs", "histories"], "20 families of documents x 14 uses x 4 formats, 16 families of JSON texts x 5 uses, 15 kinds of containers x 6 uses x 4 formats, each at two sizes 32 (thorough: up to 200) times apart; every byte of a document replaced by announcing values in all formats; conversions, tables, arenas and histories of repeated use at two lengths",
 "Quadratic behaviour and allocations by announced length give right results, so tests of small documents pass.",
 [L+"In.cpp", L+"Heap.cpp", L+"Out.cpp", L+"Node.cpp", H+"Hash.hpp", L+"PMsgPack.cpp", L+"PSrl.cpp", H+"Resolve.hpp"],
 [("refilling the read buffer", L+"In.cpp try_fetch_data"), ("arena and reuse of memory", L+"Heap.cpp alloc/put_mem"), ("growth of tables", H+"Hash.hpp redistribute"), ("output segments", L+"Out.cpp inc_cap/write_to_buffer"), ("announced lengths", L+"PMsgPack.cpp, "+L+"PSrl.cpp read")],
 ["number of executed basic blocks and of copied, compared and filled bytes; peak of allocated memory"])

prop("P30", "What was stored once stays readable: the layout of stored documents is fixed",
 "The library's binary format is one fixed encoding (flag bytes, integers in groups of seven bits, names spelled out once and referred to by number afterwards, floats and doubles as in memory, doubles which are floats as floats), which is written byte for byte and read back by every build; and objects of each kind are stored as one fixed shape of document in every format and by every route: fields in the order of resolving, containers as arrays, maps as arrays of key/value, pairs as first/second, tuples and arrays as arrays, null pointers as null, shared and weak pointers as srl_shared_key with srl_shared_value on first occurrence, polymorphic classes with srl_type_id in front.",
 ["inputs"], "all documents with up to 4 (thorough: 5) items over names and values, all 8- and 16-bit values, neighbourhoods of all powers of two, floats of every exponent, text and name lengths around all boundaries, all sequences of 5 names, up to 16400 names; 54 types of objects with all choices of values and of sharing",
 "Reading and writing can be changed together: every round trip in the tests passes, only documents stored before are lost.",
 [L+"PSrl.cpp", H+"Resolve.hpp", H+"Environment.h"],
 [("flags and integers", L+"PSrl.cpp build_flag/encode_integer"), ("table of names", L+"PSrl.cpp write_head/read_head"), ("shapes of objects", H+"Resolve.hpp Switch"), ("keys of shared objects", H+"Environment.h SharedTable")],
 ["bytes written; documents and objects read from bytes of an independent encoder"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
