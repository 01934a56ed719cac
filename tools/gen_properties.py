#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
L = "nanvm-lib/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[L+f if not f.startswith(("nanvm/", "nanvm-lib/")) else f for f in files],
            mechanism=[dict(name=n, where=L+w if not w.startswith("nanvm") else w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=L+w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("M01", "A shared value is destroyed exactly once, when its last reference goes",
  "However references to a value are cloned, dropped, turned into generic values, put inside other values or turned back, the value and everything only it keeps alive is destroyed and its memory returned exactly once, when the last reference goes and never earlier. The memory is returned with the size and alignment it was allocated with. A value still referenced anywhere keeps its content unchanged.",
  ["histories", "inputs"],
  "every finite sequence of create/clone/drop/convert/store operations over values of every kind (fixed, array, string, object, bigint, nested), any sharing shape, with plain and atomic counters and every allocation manager",
  "tests check a handful of straight-line create/clone/drop sequences on one or two values; no test drops a shared graph in an arbitrary order, none checks the layout handed back to the allocator, none drops the last generic reference to each kind of value",
  ["mem/block.rs", "mem/ref_.rs", "mem/mut_ref.rs", "mem/optional_ref.rs", "mem/optional_block.rs", "mem/block_header.rs", "js/any_internal.rs", "mem/flexible_array/mod.rs"],
  [("reference count update on clone/drop", "mem/optional_ref.rs"), ("type dispatch of the final delete", "js/any_internal.rs"), ("layout recomputation on delete", "mem/block.rs"), ("element and header drop", "mem/flexible_array/mod.rs")],
  ["custom allocation manager's alloc/dealloc calls with layouts", "drop counters of stored values", "reference count in the block header"],
  [("reference count", "number of extra references besides the one implied by existence", "mem/block_header.rs")])

p("M02", "A value can be changed in place only while it has a single owner",
  "Asking for exclusive access to a shared value succeeds exactly when the reference asked through is the only one, and then gives the very same value; otherwise it is refused and the reference handed back still works (values of an arena, which keeps no counts, always refuse). No change made through an exclusive reference is ever visible through a reference obtained before it.",
  ["histories"],
  "every interleaving of clone, drop, wrap-as-generic-value, unwrap, exclusive-access request and in-place change over any number of references to any kind of value",
  "tests try one success and one refusal with at most two references and never through generic values or nested containers",
  ["mem/ref_.rs", "mem/mut_ref.rs", "mem/optional_ref.rs", "js/any.rs", "mem/local.rs", "mem/arena.rs"],
  [("exclusive-access test on the reference count", "mem/ref_.rs"), ("conversion of an exclusive to a shared reference", "mem/mut_ref.rs")],
  ["result of the exclusive-access request against a model count of live references", "content seen through every live reference after each in-place change"])

p("M03", "Converting any input leaks no memory and never touches memory it may not",
  "Tokenizing, parsing (with imports), serializing and all number operations, on any input, valid or not, with or without read failures, return every block they allocated once the results are dropped, and never read or write outside live allocations, read uninitialized memory or produce an invalid value. This holds on error paths as on success.",
  ["inputs", "fault_sequences"],
  "all texts, module graphs with arbitrary read failures and cycles, and all operand values",
  "unit tests run without a sanitizer and without balance checks on a few valid and invalid inputs; they never abort a parse in the middle of a nested structure with shared constants",
  ["mem/flexible_array/constructor.rs", "mem/manager.rs", "mem/field_layout.rs", "js/any.rs", "js/any_internal.rs", "js/js_bigint.rs", "parser/any_state.rs", "parser/parser.rs", "serializer/to_djs.rs"],
  [("raw-pointer layout arithmetic", "mem/field_layout.rs"), ("in-place construction", "mem/flexible_array/constructor.rs"), ("pointer tagging", "js/any_cast.rs")],
  ["live blocks and bytes of a tracking manager after every case", "AddressSanitizer and Miri reports"])

p("M04", "Allocated values are aligned, in bounds, disjoint; bad requests are refused",
  "Every value handed out by any allocation manager lies entirely inside memory owned by that manager, is aligned for its type and overlaps no other live value, for any element type, header type and length. A request that does not fit (a full arena, or a length whose size cannot be represented) is refused instead of yielding memory, and leaves earlier values intact. The per-manager byte count always equals the total size of the blocks still alive and returns to zero.",
  ["histories", "inputs", "configurations"],
  "every sequence of allocations and releases with element/header sizes 0..64 and alignments 1..64, any lengths, any arena size and start misalignment",
  "tests allocate a handful of values of one or two primitive types from one aligned 1 KiB arena and one counting manager",
  ["mem/arena.rs", "mem/local.rs", "mem/global.rs", "mem/manager.rs", "mem/field_layout.rs", "mem/block.rs", "mem/flexible_array/mod.rs"],
  [("bump pointer with alignment", "mem/arena.rs"), ("header layout before the block", "mem/local.rs"), ("field layout arithmetic", "mem/field_layout.rs")],
  ["addresses and extents of the values handed out", "byte counter of the counting manager", "refusal (panic or abort) for oversized requests"],
  [("remaining range", "bump start and end", "mem/arena.rs"), ("size", "bytes alive", "mem/local.rs")],
  "the arena manager is private: a hook exposes it")

p("M05", "Atomically counted values survive concurrent sharing by threads",
  "When values are managed with the atomic reference count, any number of threads may clone and drop references to the same value at the same time: the value is destroyed exactly once, after every thread's last use of it has happened, and no count update is lost. Exclusive access obtained after other threads dropped their references sees no unfinished use of theirs.",
  ["schedules", "histories"],
  "every interleaving of clone, read, drop and exclusive-access requests by any number of threads on shared values",
  "no test starts a thread; the counter's own unit test is single-threaded",
  ["mem/block_header.rs", "mem/optional_ref.rs", "mem/ref_.rs"],
  [("atomic read-modify-write of the count with acquire/release ordering", "mem/block_header.rs")],
  ["destruction events and per-thread use events", "Miri data-race reports under many schedules"],
  [("atomic count", "extra references", "mem/block_header.rs")])

p("V01", "A dynamic value keeps its kind and content, and never passes for another kind",
  "A number, boolean, null, string, object, array or big integer put into a generic value reports exactly that one kind and comes back with the same content, bit for bit for numbers except that any NaN comes back as some NaN. Taking it out as any other kind is refused, and its children are enumerated completely, in order and with the right keys.",
  ["inputs", "histories"],
  "all 2^64 number bit patterns including every NaN payload, all strings of 16-bit units, all nested arrays/objects and big integers of any sign and length",
  "tests check eight numbers and one instance of every other kind; most of the bit-pattern space shares an encoding with pointers and is never tried",
  ["js/any.rs", "js/any_cast.rs", "js/number.rs", "js/bitset.rs", "js/visitor.rs", "common/bit_subset64.rs", "js/null.rs", "js/bool.rs"],
  [("disjoint bit subsets for kinds", "js/bitset.rs"), ("number encoding", "js/number.rs"), ("kind test before unwrap", "js/any.rs")],
  ["kind queries, conversions and visitor results for each stored value"])

p("N01", "Big-integer addition, subtraction, multiplication, negation and power are exact",
  "For all operands, the sum, difference, product, negation, bitwise complement and (non-negative, representable) power of big integers equal the mathematical result, in canonical form: no leading zero words and a single zero. Operands are left unchanged.",
  ["inputs"],
  "all pairs of canonical big integers of any sign and length; exponents whose result is of feasible size",
  "tests use one to six-word operands with tiny digits; carry and borrow chains, sign mixes and near-power-of-two words are not sampled",
  ["js/js_bigint.rs"],
  [("word-wise add/sub with carry", "js/js_bigint.rs"), ("schoolbook multiplication", "js/js_bigint.rs"), ("square-and-multiply power", "js/js_bigint.rs")],
  ["sign and words of each result against an independent reference"])

p("N02", "Big-integer division gives the truncated quotient and the matching remainder",
  "For all a and b with b not zero, dividing gives the quotient truncated toward zero and the remainder that makes quotient times b plus remainder equal to a, with the remainder smaller in magnitude than b and carrying the sign of a. Both are canonical; division by zero is always refused.",
  ["inputs"],
  "all pairs of canonical big integers of any sign and length, b not zero",
  "four divisions are tested, with divisors of one word or a power of the base: no multi-word quotient-digit estimate ever needs more than one correction",
  ["js/js_bigint.rs"],
  [("quotient digit estimation and correction", "js/js_bigint.rs")],
  ["sign and words of quotient and remainder against an independent reference"])

p("N03", "Big-integer bitwise operations and shifts follow infinite two's complement",
  "For all operands, and/or/xor/not of big integers equal the operation on infinite two's complement, a left shift multiplies by the power of two and a right shift is the floor of the division by it, with negative shift counts shifting the other way. Results are canonical, whatever the signs and lengths.",
  ["inputs"],
  "all pairs of canonical big integers of any sign and length; shift counts of either sign up to feasible result sizes, and arbitrarily large counts where the result is 0 or -1",
  "about seven hand-picked cases per operation; negative multi-word results, word-boundary borrows and in-word shifts by more than one bit across words are not sampled",
  ["js/js_bigint.rs"],
  [("two's complement conversion", "js/js_bigint.rs"), ("word and bit shift with carry between words", "js/js_bigint.rs")],
  ["sign and words of each result against an independent reference"])

p("N04", "Big-integer comparison and equality agree with the mathematical order",
  "Comparing two big integers gives their numerical order, whatever their signs and lengths, so it is a total order consistent with subtraction; equality holds exactly when the numerical values are equal. Sign, zero test and lowest bit report the true values.",
  ["inputs"],
  "all pairs of canonical big integers of any sign and length",
  "one test with four comparisons, none between two negative multi-word values of the same length",
  ["js/js_bigint.rs"],
  [("length-then-words comparison", "js/js_bigint.rs")],
  ["ordering and equality results against an independent reference"])

p("N05", "The literal big-number types compute exactly and stay in canonical form",
  "The unsigned and signed big numbers used for literals compute sums, differences, products, powers, comparisons, shifts, quotients and remainders exactly (unsigned difference saturating at zero, division truncating), with results in canonical form. Conversion from machine integers is exact for every machine integer, and turning a literal's number into a big-integer value keeps its magnitude and sign, and refused operations (division by zero) are always refused.",
  ["inputs"],
  "all pairs of values of any length and sign, all machine integers, all feasible shift counts and exponents",
  "tests use small hand-picked operands; multi-word quotient estimates, word-boundary carries and extreme machine integers are not sampled",
  ["big_numbers/big_uint.rs", "big_numbers/big_int.rs", "parser/shared.rs"],
  [("word-wise arithmetic", "big_numbers/big_uint.rs"), ("sign handling", "big_numbers/big_int.rs")],
  ["words and sign of each result against an independent reference"])

p("N06", "A decimal number literal denotes the nearest double-precision number",
  "Every valid decimal literal, of any length and any exponent, in a document or module becomes the double nearest to its exact decimal value, ties to even, with overflow to infinity, underflow to zero, correct subnormals and the sign of zero kept; an integer literal marked as big becomes exactly that big integer. Conversion always finishes in time related to the literal's length.",
  ["inputs"],
  "all decimal literals: any number of integer, fraction and exponent digits, including halfway cases, subnormals, overflow thresholds and exponents beyond machine integers",
  "tests sample some dozens of literals; halfway cases with long tails, long fractions, extreme exponents and the sign of zero are not sampled",
  ["tokenizer/mod.rs", "big_numbers/big_float.rs", "big_numbers/big_uint.rs"],
  [("decimal-to-binary scaling and rounding", "big_numbers/big_float.rs"), ("assembly of the double", "tokenizer/mod.rs"), ("digit accumulation", "tokenizer/mod.rs")],
  ["bit pattern of the number token / parsed value against a correctly rounding reference"])

p("T01", "Text is split into tokens exactly as the lexical grammar says",
  "For every text, the token sequence is the one the lexical grammar defines: longest-match identifiers, numbers, big integers, strings with all escapes (surrogate pairs included) decoded, punctuation, line breaks and comments that carry no meaning; anything outside the grammar gives an error token, never a different valid token or a lost character. After an error token reading goes on: an unknown escape leaves its string going on, half a surrogate pair ends its string, a broken number ends before the character that doesn't fit, and anything else is skipped. Reading tokens lazily gives the same sequence as reading them all at once. Two tokens compare equal exactly when their kinds and contents are equal.",
  ["inputs"],
  "all strings of Unicode scalar values",
  "tests list about two hundred short inputs; the state machine has dozens of states times character classes and is not exercised on combinations (a token ended by each other kind of character, end of input in each state)",
  ["tokenizer/mod.rs", "range_map.rs"],
  [("per-state transition maps", "tokenizer/mod.rs"), ("end-of-input handling per state", "tokenizer/mod.rs")],
  ["token sequence of eager and lazy tokenizer against an independent lexer"],
  [("tokenizer state", "partial token", "tokenizer/mod.rs")])

p("T02", "Range maps: lookup after any construction or merge equals pointwise composition",
  "A range map answers every lookup with the value assigned to the range that contains the key, for every key including the lowest and the highest, and with the default elsewhere. Merging two maps gives, at every key, the combination of the two answers, independently of how many ranges were merged before; a map built from single characters or character ranges covers exactly those characters.",
  ["inputs", "histories"],
  "all maps built from any characters and ranges (including the lowest and highest character and the gap in the code space), all merge sequences, all keys",
  "tests compare stored entries of five small maps; boundary characters and pointwise agreement over all keys are never checked",
  ["range_map.rs", "tokenizer/mod.rs"],
  [("sorted boundary list with binary search", "range_map.rs"), ("two-pointer merge", "range_map.rs")],
  ["lookups at all interesting keys against a pointwise model"])

p("P01", "Every valid JSON text parses to exactly the value it denotes",
  "Every valid JSON text is accepted as JSON and gives the value the JSON standard assigns to it: numbers to the nearest double, strings decoded exactly, array order kept, the last of repeated keys winning (an escape naming half a surrogate pair alone is reported as an error: it is no text). A text truncated at any point, or with unbalanced or missing structure, is rejected rather than given a value.",
  ["inputs"],
  "all valid JSON texts of any nesting and whitespace layout, and all proper prefixes and single-token deletions/insertions/replacements of them",
  "tests parse about twenty small documents",
  ["parser/parser.rs", "parser/any_state.rs", "parser/json_state.rs", "parser/root_state.rs", "parser/shared.rs", "tokenizer/mod.rs"],
  [("push-down parser states", "parser/any_state.rs"), ("end-of-input check", "parser/json_state.rs")],
  ["result kind, data type and full value tree against an independent JSON parser"],
  [("parser stack", "open containers", "parser/any_state.rs")])

p("P02", "Modules are accepted per the grammar and mean what JavaScript says they mean",
  "A module made of constant definitions, imports and one exported value (ES-module style, CommonJS style or bare) is accepted exactly when it follows the data subset of the language, is reported as the matching kind, and yields the value a JavaScript engine computes for it (a key `__proto__`, special in JavaScript, is a recorded finding). Each use of a constant yields the very same shared value, a name used before or without its definition is rejected, and mixing the two module styles is rejected.",
  ["inputs", "programs"],
  "all token sequences; in particular all well-formed modules in the subset and all single-token mutations of them",
  "tests parse about thirty hand-written modules, mostly one construct each; combinations (a constant inside nested containers, unquoted keys after the first, separators between statements) are not sampled",
  ["parser/parser.rs", "parser/root_state.rs", "parser/const_state.rs", "parser/any_state.rs", "parser/shared.rs"],
  [("statement-level state machine", "parser/root_state.rs"), ("constant table lookup", "parser/shared.rs"), ("value-level state machine", "parser/any_state.rs")],
  ["accept/reject, data type and value tree with identities against an independent reference parser, and values against a JavaScript engine"],
  [("constant table", "names defined so far", "parser/any_state.rs")])

p("P03", "No input crashes or hangs the reader: every text ends in a value or an error",
  "For every text, however malformed, reading it ends with a value or a reported error, in time bounded by a low polynomial of its length; it never aborts, panics or loops. Serializing whatever was read ends the same way.",
  ["inputs"],
  "all strings, nesting depth bounded by 1000 (the readers of deeper documents recurse on release)",
  "tests feed a few malformed inputs; unfinished statements, huge exponents, stray separators and arbitrary bytes are not tried",
  ["parser/parser.rs", "parser/const_state.rs", "parser/any_state.rs", "tokenizer/mod.rs", "big_numbers/big_float.rs", "serializer/to_json.rs", "serializer/to_djs.rs"],
  [("error states of the parser", "parser/json_state.rs"), ("error tokens", "tokenizer/mod.rs")],
  ["panics, aborts and CPU-time budget of each call in a supervised process"])

p("I01", "Imports resolve relative to the importing file and equal inlining the value",
  "A module that imports others, at any depth and through any relative path with parent and current-directory steps, reads exactly the file the path names relative to the importing module, and gives the value obtained by writing the imported values in place. Two spellings with the same normal form are the same module, and resolved paths are in normal form (absolute paths stay absolute).",
  ["inputs", "programs", "configurations"],
  "all acyclic module graphs spread over nested directories with any relative spellings, in either module style; all relative and absolute path strings",
  "tests import one module from the same directory, and normalize five paths",
  ["parser/parser.rs", "parser/path.rs", "parser/root_state.rs"],
  [("path join and normalization", "parser/path.rs"), ("import evaluation", "parser/parser.rs")],
  ["paths passed to the file system and the resulting value tree against a reference loader"],
  [("current path", "file being parsed", "parser/parser.rs")])

p("I02", "Each module is read once, its value shared; cycles and only cycles are refused",
  "In one run every module is read at most once however many importers it has, and all of them receive the very same value. A module graph is refused as circular exactly when some module reachable from the root imports itself directly or indirectly, and a cache that has seen successes and failures gives later runs the same answers as a fresh one.",
  ["histories", "programs"],
  "all module graphs (trees, diamonds, cycles of any length, self-imports) and all sequences of runs over one cache",
  "tests load one two-module cycle and one diamond-free graph once",
  ["parser/parser.rs", "parser/shared.rs"],
  [("completed-module table", "parser/shared.rs"), ("in-progress set", "parser/shared.rs")],
  ["file-read event log per path", "identity of the imported values", "result of every run in the sequence"],
  [("complete", "modules already evaluated", "parser/shared.rs"), ("progress", "modules being evaluated", "parser/shared.rs")])

p("I03", "A failed read or write surfaces as an error and leaves no wrong output behind",
  "If reading the root or any imported file fails (missing, unreadable, not valid text), the whole conversion reports an error naming a read failure and nothing is written to the output. If writing the output fails the conversion reports that failure; no failure is turned into success or a crash. A value written piece by piece is written as successful only if every piece was accepted.",
  ["fault_sequences", "programs"],
  "every choice of failing file operation (by position or by path) in every conversion of any module graph",
  "two tests cover a missing import; no fault is ever injected in the root read, deep imports or the write",
  ["parser/parser.rs", "app/mod.rs", "serializer/to_json.rs", "serializer/to_djs.rs"],
  [("error propagation from nested parses", "parser/parser.rs"), ("output only after success", "app/mod.rs"), ("error propagation from each piece written", "serializer/to_json.rs")],
  ["file-operation event log of a fault-injecting file system, result, and output content", "result of writing to a sink that refuses chosen pieces"])

p("S01", "JSON output is valid and denotes exactly the serialized value",
  "Writing any JSON-representable value (null, booleans, finite numbers, strings, arrays, objects) as JSON gives valid JSON that any conforming parser, and this system's own, reads back as exactly the same value: numbers bit for bit, strings by code unit, order and keys kept. Values JSON cannot represent are never written as a different value or as invalid text without an error.",
  ["inputs"],
  "all finite doubles, all strings of Unicode scalar values (and of arbitrary 16-bit units for validity), all nestings",
  "one test serializes one value",
  ["serializer/to_json.rs"],
  [("string escaping", "serializer/to_json.rs"), ("number formatting", "serializer/to_json.rs")],
  ["output text read by two independent parsers and by the system itself"])

p("S02", "Module output keeps value and sharing and is readable by JavaScript and itself",
  "Writing any value graph as an ES or CommonJS module gives a program that a JavaScript engine evaluates to the same value, with exactly the containers that were shared still shared and the others distinct, and that the system's own reader accepts with the same outcome. Definitions precede their uses (a NaN, which the language has no literal for, is refused) and the output size is linear in the number of containers and their contents.",
  ["inputs", "programs"],
  "all acyclic value graphs with any sharing (diamonds, chains of diamonds), all strings and numbers including big integers, both module styles",
  "one test compares one output text; no output is ever read back",
  ["serializer/to_djs.rs", "serializer/to_json.rs"],
  [("reference counting pass over the graph", "serializer/to_djs.rs"), ("dependency-ordered constant emission", "serializer/to_djs.rs")],
  ["output evaluated in a JavaScript engine and reparsed by the system: value tree and identity classes"],
  [("const_refs", "containers already given a name", "serializer/to_djs.rs")])

p("S03", "Output is a function of the value: same input, same bytes, stable when repeated",
  "Converting the same input gives the same output bytes in every run and process, independent of memory addresses and hash seeds, and converting an output again to the same format reproduces it byte for byte. Reformatting the input (whitespace, comments, key order, quoting of keys) does not change the output.",
  ["inputs", "histories", "configurations"],
  "all values and module graphs, any number of repetitions in fresh processes",
  "no test runs a conversion twice or on two layouts of one value",
  ["serializer/to_djs.rs", "serializer/to_json.rs", "parser/any_state.rs", "app/mod.rs"],
  [("order of constant emission", "serializer/to_djs.rs"), ("key order of objects", "parser/any_state.rs")],
  ["output bytes of repeated and layout-varied runs"])

p("C01", "The command line converts by output extension and reports every failure",
  "Given an input and an output path, the program writes exactly the converted document in the format the output's extension names and ends successfully, for any valid input of any accepted kind. With an unknown extension, missing arguments, unreadable or invalid input or an unwritable output it ends with a failure status, without crashing, and without creating or altering the output file.",
  ["inputs", "configurations", "fault_sequences"],
  "all argument lists, all input documents and module trees on a real file system, all output names",
  "tests drive an in-memory file system with eight fixed scenarios and ignore the program's exit status",
  ["app/mod.rs", "nanvm/src/main.rs"],
  [("extension dispatch", "app/mod.rs"), ("error propagation to the exit status", "nanvm/src/main.rs")],
  ["exit status, stderr and files of the real program in a scratch directory"])

p("N07", "Scaling and rounding of big floating-point numbers round exactly once",
  "A number given as a whole significand of any length, a power of two and a note that some non-zero part was cut off becomes the double nearest to its exact value, ties to even, with subnormals, underflow, overflow and the sign as for any double. Rewriting a decimal number with a requested number of binary digits gives the leading binary digits of its exact value, and the note tells exactly whether anything was cut off; so a decimal number becomes the double nearest to it.",
  ["inputs"],
  "all significands of any length and either sign, all binary and decimal exponents, with and without a cut-off remainder, all requested widths",
  "tests convert some dozens of small numbers; carries out of the top bit, halfway cases decided by a cut-off remainder, and the edges of the exponent range are not sampled",
  ["big_numbers/big_float.rs", "tokenizer/mod.rs"],
  [("decimal-to-binary scaling with a sticky remainder", "big_numbers/big_float.rs"), ("rounding to a double", "big_numbers/big_float.rs"), ("conversion used for literals", "tokenizer/mod.rs")],
  ["bits of the resulting double, and significand, exponent and remainder note of the binary form, against exact integer arithmetic"])

p("T03", "A reader fed by single characters depends on nothing but the text fed to it",
  "Feeding a text to a tokenizer character by character gives, at each moment, a prefix of the text's token sequence that lacks at most what the end of the text decides, whatever other tokenizers do meanwhile with the same tables, whichever copy of the tables each character is looked up in, and wherever the tokenizer is moved in between. Abandoning it at any point, or feeding any text to the analyzer built on it, neither fails nor leaks.",
  ["inputs", "schedules", "histories"],
  "all texts, all interleavings of any number of tokenizers over shared tables, all points at which one is moved, given other tables or dropped",
  "tests tokenize one complete text at a time with fresh tables; none interleaves readers, shares tables, abandons a reader or feeds the analyzer more than a line",
  ["tokenizer/mod.rs", "parser/analyzer.rs", "range_map.rs"],
  [("incremental state", "tokenizer/mod.rs"), ("shared transition tables", "tokenizer/mod.rs"), ("analysis by character", "parser/analyzer.rs")],
  ["tokens given after each character against the tokens of the whole text", "live blocks of a tracking manager"])

p("V02", "Bit subsets: membership, join, common part and split are exact set operations",
  "A set of 64-bit words given by fixed and free bits contains exactly the words that agree on all fixed bits. The join of two sets contains both, and is refused by the checked form when their free bits differ; the common part contains exactly the words in both and is refused when there is none; a split gives two disjoint sets that together are the original one and is refused unless it is along free bits. A value stored in the free bits comes back unchanged.",
  ["inputs"],
  "all pairs of sets of 64-bit words, all words, all ways to split, all storable values",
  "tests check three constant sets of at most six bits; the kinds of all dynamic values rest on these operations over the full 64 bits",
  ["common/bit_subset64.rs", "common/cast.rs", "js/bitset.rs"],
  [("membership by mask and tag", "common/bit_subset64.rs"), ("join, common part and split", "common/bit_subset64.rs")],
  ["membership of probe words, tags, masks and refusals against sets of words computed independently"])

p("V03", "Equality and hash of generic values follow identity, and cost no reference",
  "Two generic values (and two references) are equal exactly when they are the same immediate value bit for bit, or refer to the very same object, however they were obtained; equal values hash equally. So sets and maps of values find exactly the values put in. Comparing, hashing and storing for comparison neither adds nor drops a reference once done.",
  ["inputs", "histories"],
  "all pools of values of every kind, with equal contents in different objects, shared and nested references, obtained by cloning, by way of a typed reference or out of containers",
  "tests compare a few values for equality as a means of checking other things; no test compares different objects of equal content or uses values as keys",
  ["js/any_internal.rs", "js/any.rs", "mem/optional_ref.rs", "mem/optional_block.rs"],
  [("comparison of the raw word", "js/any_internal.rs"), ("comparison of references", "mem/optional_ref.rs")],
  ["results of comparisons, hashes and set operations against a model of identities", "exclusive access and balance of the manager afterwards"])

p("M06", "Building a value in place takes every item exactly once, in order",
  "A value built in memory from a source of items holds exactly the source's items in the source's order, each moved exactly once: none is copied twice, dropped early, dropped twice or forgotten, for items of any size (including none) and any number. Changing a place by a function hands it the old content and stores the new one exactly once; turning an array into a vector moves every item once. A source that fails midway never leads to a destruction of an item that was not there.",
  ["inputs", "fault_sequences"],
  "all item types with destructors, all lengths, all managers, all kinds of sources, failure of the source at any item",
  "tests build arrays of plain numbers, whose duplication or loss is invisible; none uses items that own memory or sources that fail",
  ["mem/flexible_array/constructor.rs", "mem/flexible_array/mod.rs", "mem/manager.rs", "mem/fixed.rs", "common/ref_mut.rs", "common/array.rs", "js/js_string.rs", "js/js_array.rs", "js/js_object.rs"],
  [("in-place construction", "mem/flexible_array/constructor.rs"), ("change by function", "common/ref_mut.rs"), ("array to vector", "common/array.rs")],
  ["a bank of items that records creation, position, content and destruction of each", "blocks and contents of a tracking manager", "AddressSanitizer and Miri reports"])

p("P04", "Reading token by token gives what reading the whole document gives",
  "Pushing the tokens of a document one by one into the incremental parser, with each import it announces supplied, ends in the same value with the same sharing, the same document kind, or the same error, as reading the complete document. An error never goes away by pushing more. An import nobody supplies leads to an error where its value is needed, never to a crash or to a wrong value, and a reading may be given up after any token without a leak.",
  ["inputs", "histories"],
  "all token sequences of all texts (valid, mutated, hostile), all points at which reading stops, imports supplied or not",
  "no test pushes tokens into the incremental parser; its states are shared with the complete reader but its transitions are separate code",
  ["parser/json_state.rs", "parser/const_state.rs", "parser/root_state.rs", "parser/any_state.rs", "parser/parser.rs"],
  [("state after a token", "parser/json_state.rs"), ("constants", "parser/const_state.rs"), ("statements and announced imports", "parser/root_state.rs")],
  ["state, announced imports and final result against the complete reader", "live blocks of a tracking manager"])

p("R01", "Independent runs in different threads neither race nor influence each other",
  "Work on values, texts, files and numbers of its own gives in any thread exactly what the same work gives alone, whatever other threads do meanwhile, also when the first use of everything in the process happens in several threads at once. No schedule of such threads contains a data race, a deadlock or a crash, and each thread's memory is balanced by itself.",
  ["schedules", "inputs", "histories"],
  "all sets of threads with work of their own (reading, writing, converting, arithmetic, range maps), all interleavings, in a fresh process or a used one",
  "no test starts a thread; tests of one process run side by side, but each result is fixed by chance of the schedule, and state shared by mistake (a static table, a counter, a buffer) shows only under particular interleavings",
  ["static_ref_default.rs", "tokenizer/mod.rs", "parser/parser.rs", "parser/path.rs", "serializer/to_json.rs", "serializer/to_djs.rs", "range_map.rs", "big_numbers/big_float.rs", "js/js_bigint.rs", "app/mod.rs", "mem/global.rs"],
  [("state owned by the run, constants shared read-only", "static_ref_default.rs"), ("tables built for each reader", "tokenizer/mod.rs"), ("numbering of constants within one output", "serializer/to_djs.rs")],
  ["results of the same work in threads and alone", "ThreadSanitizer and Miri data-race reports", "balance of a tracking manager of each thread"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
