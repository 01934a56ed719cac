"""What each check runs, and how its cases are made."""
import glob, json, os, subprocess
from check import NoAnswer, Stage, GB

HERE = os.path.dirname(os.path.abspath(__file__))

def node_post(prop, st, out, r, tier):
    """Evaluates the texts the monitors handed over in a JavaScript engine."""
    files = sorted(glob.glob(os.path.join(out, "*.node.jsonl")))
    procs = []
    for f in files:
        p = subprocess.Popen(["node", "--max-old-space-size=3000", "--stack-size=3900", os.path.join(HERE, "oracle.mjs"), f],
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        procs.append((f, p))
    for f, p in procs:
        o, e = p.communicate(timeout=3000)
        if p.returncode != 0:
            raise NoAnswer(f"{st.label}: the JavaScript engine ended with {p.returncode}: {e[-800:].decode(errors='replace')}")
        d = json.loads(o)
        r.events["texts evaluated by the JavaScript engine"] = r.events.get("texts evaluated by the JavaScript engine", 0) + d["evaluated"]
        r.events["texts refused by the JavaScript engine"] = r.events.get("texts refused by the JavaScript engine", 0) + d["refused"]
        for k, v in d["known"].items():
            e = r.known.setdefault(k, {"count": 0, "detail": v["detail"]})
            e["count"] += v["count"]
        for b in d["bad"]:
            r.violations.append(dict(b, seed=int(b["seed"]), binary=st.binary, flavor=st.flavor, tier=st.tier or tier))


def two_profiles(binary, **k):
    return lambda tier: [Stage(binary, "dev", **k), Stage(binary, "release", scale=0.3, **k)]


NUM_T = "runtime monitoring: differential oracle over generated operands, debug and release builds"
NUM_N = ("Holds on the sampled operands only; the generators aim at word boundaries, carries, sign mixes and quotient "
         "estimates. Trusts the reference arithmetic in harness/src/refbig.rs{}.")

NUM = ("case = operands from boundary-word generators (0, 1, all ones, powers of two, sparse, random, operands "
       "derived from each other; thousands of cases with hundreds of words and hundreds with over 65000), checked against base-2^32 reference arithmetic; non-trivial = {}; distinct = "
       "different operands")

MEM_T = ("runtime monitoring: tracking allocation manager and ownership model over random histories; AddressSanitizer "
         "and Miri builds")
MEM_N = ("Holds on the sampled histories (all kinds of values, four managers). Released blocks are watched in quarantine "
         "for 64 KiB of later releases.")
MEM_R = ("case = a history of create/clone/drop/convert/store/exclusive-access operations over values of all kinds, "
         "checked after every step against a model of the owners (blocks live, content, address, destructions); or a "
         "shape (chains, wide values, very many references to one value); distinct = different history")


def mem_stages(tier):
    return [Stage("mem", "dev"), Stage("mem", "release", scale=0.5), Stage("mem", "asan", scale=0.1),
            Stage("mem", "miri", shards=4)]


TEXT_N = ("Holds on the sampled texts only. Trusts the independent lexer and parsers in harness/src/text.rs, and the standard "
          "library's number parser.")

PROPS = {
    "N01": dict(level="exploration", technique=NUM_T, note=NUM_N.format(""),
                stages=two_profiles("num"),
                rule=NUM.format("both operands nonzero (or a power computed)"),
                need=["lengths", "operations", "both multiword", "mixed signs", "powers", "long powers", "refusals",
                      "operands of hundreds of words", "operands of over 65000 words"]),
    "N02": dict(level="exploration", technique=NUM_T, note=NUM_N.format(""),
                stages=two_profiles("num"),
                rule=NUM.format("dividend larger in magnitude than the divisor"),
                need=["lengths", "divisions", "exact remainders", "division by zero", "both multiword",
                      "divisions of hundreds of words", "divisions of over 65000 words"]),
    "N03": dict(level="exploration", technique=NUM_T, note=NUM_N.format(""),
                stages=two_profiles("num"),
                rule=NUM.format("operands nonzero, shift count positive"),
                need=["lengths", "bit operations", "shifts", "far shifts", "inexact negative right shifts",
                      "operands of hundreds of words", "operands of over 65000 words", "shifts over 65000 words"]),
    "N04": dict(level="exploration", technique=NUM_T, note=NUM_N.format(""),
                stages=two_profiles("num"),
                rule=NUM.format("both operands nonzero; or a set sorted by the order under test"),
                need=["lengths", "less", "equal", "greater", "sorted sets", "operands of hundreds of words", "operands of over 65000 words"]),
    "N05": dict(level="exploration", technique=NUM_T, note=NUM_N.format(""),
                stages=two_profiles("num"),
                rule=NUM.format("operands nonzero"),
                need=["lengths", "unsigned operations", "unsigned divisions", "signed divisions", "division by zero", "powers",
                      "far shifts", "conversions", "operands of hundreds of words", "operands of over 65000 words",
                      "divisions of hundreds of words", "divisions of over 65000 words"]),
    "N06": dict(level="exploration", technique=NUM_T,
                note=NUM_N.format(" and the standard library's decimal parser, cross-checked with exact midpoints"),
                stages=lambda tier: [Stage("num", "dev"), Stage("num", "release", scale=0.3)],
                rule="case = one decimal literal (random digits and exponents; exact halfway points between doubles "
                     "and their decimal neighbours computed with exact arithmetic; exponents beyond machine integers; "
                     "big-integer literals; literals inside documents), its double compared bit for bit with a "
                     "correctly rounding reference; distinct = different text",
                need=["lengths", "halfway literals", "subnormals", "overflows", "zeros", "normals", "big integer literals",
                      "documents"]),
    "M01": dict(level="exploration", technique=MEM_T, note=MEM_N, stages=mem_stages, rule=MEM_R,
                need=["lengths", "operations", "generic releases", "chains", "references counted", "handles moved into values",
                      "plain counter histories", "atomic counter histories", "interpreter runs"]),
    "M02": dict(level="exploration", technique=MEM_T, note=MEM_N, stages=mem_stages, rule=MEM_R,
                need=["exclusive access given", "exclusive access refused", "changes in place", "arena refusals",
                      "interpreter runs"]),
    "T01": dict(level="exploration", note=TEXT_N,
                technique="runtime monitoring: token sequences (eager and lazy) against an independent lexer",
                stages=two_profiles("tok"),
                rule="case = a text: every lexer state followed by every class of character, by end of input and by "
                     "continuations; lexical pieces glued together; modules with layout noise; strings with all escapes; "
                     "numbers of all shapes; every character of the code space in every state (compared token by "
                     "token, errors included); non-trivial = the text has a token besides an error; distinct = different text",
                need=["lengths", "texts of over 65000 parts", "strings", "numbers", "big integers", "identifiers", "punctuation", "line breaks", "errors",
                      "texts with comments", "characters in all states", "stray characters", "tokens after errors",
                      "tokens compared with each other"]),
    "T02": dict(level="exploration", note="Maps of up to some dozens of ranges, single ones of up to 260000, over numbers and characters; lookups at all "
                                           "boundaries, their neighbours, the extremes and random keys.",
                technique="runtime monitoring: lookups after construction and merging against a pointwise model",
                stages=two_profiles("tok"),
                rule="case = a set of maps built from lists, single characters or ranges and merged in random orders, looked up at "
                     "every boundary, its neighbours, both extremes, surrogate gap edges; distinct = different maps",
                need=["lengths", "lookups", "merges", "lookups of characters", "conflicts refused", "maps of many ranges", "empty maps"]),
    "P01": dict(level="exploration", note=TEXT_N + " The JavaScript engine's JSON.parse is a third opinion on a sample.",
                technique="runtime monitoring: parsed values against independent JSON readers (own, and a JavaScript engine)",
                stages=lambda tier: [Stage("parse", "dev", post=node_post), Stage("parse", "release", scale=0.3)],
                rule="case = a text: all sequences of up to four JSON tokens; JSON texts of random values with random "
                     "layout; all proper prefixes; one or a few token/character changes; deep, wide and long values; "
                     "the result (acceptance, kind, whole value tree, doubles by bits) compared; distinct = different text",
                need=["lengths", "texts of over 65000 parts", "valid JSON texts", "invalid JSON texts", "cut texts", "changed texts", "large texts", "token sequences",
                      "texts evaluated by the JavaScript engine"]),
    "P02": dict(level="exploration", note=TEXT_N + " Unspecified (never compared): empty statements, line breaks inside "
                                          "statement heads, reserved words as names, text after U+2028/9 in line comments.",
                technique="runtime monitoring: parsed module values and identities against an independent reference parser and "
                          "a JavaScript engine",
                stages=lambda tier: [Stage("parse", "dev", post=node_post), Stage("parse", "release", scale=0.3)],
                rule="case = a module text: all sequences of up to two tokens after 14 beginnings; each of 60 "
                     "fragments in each of 24 places under each of 18 beginnings; names without definition in 10 places; random statement lists "
                     "with names used before/after/without definition; modules of random value graphs in all styles and "
                     "layouts; mutations of them; compared with the reference: acceptance, kind of error, module kind, "
                     "value with shared containers; a sample also with the value a JavaScript engine computes",
                need=["lengths", "texts of over 65000 parts", "well-formed modules", "modules with imports", "changed modules", "changed modules still accepted",
                      "statement sequences", "token sequences", "places filled", "names",
                      "read as JSON", "read as bare modules", "read as CommonJS",
                      "read as ES modules", "rejected", "rejected as unreadable",
                      "texts evaluated by the JavaScript engine"]),
    "P03": dict(level="exploration", note="Nesting bounded by 1000 (deeper: recorded finding). Time bound observed: 40 s of processor "
                                          "time per text of up to 200 KB.",
                technique="runtime monitoring: supervised processes watched for panics, aborts and processor time over hostile texts",
                stages=two_profiles("parse"),
                rule="case = hostile texts (random characters and bytes, unfinished statements, number and escape fragments, "
                     "repeated openers, leftovers after values, mutated modules) read through every entry point and written "
                     "back in every format, with a tracking manager on half of them; long texts of 24 shapes; chains of "
                     "shared values; distinct = different text",
                need=["hostile texts", "long texts", "chains of shared values", "values", "errors",
                      "bytes of JSON written", "bytes of modules written", "values refused as JSON"]),
    "I01": dict(level="exploration", note="Module trees of up to some dozens of files on an in-memory file system. Trusts the reference "
                                          "loader in harness/src/files.rs.",
                technique="runtime monitoring: log of file reads and resulting values against a reference module loader, and a "
                          "JavaScript engine running the same module tree",
                stages=lambda tier: [Stage("imp", "dev", post=node_post), Stage("imp", "release", scale=0.3)],
                rule="case = path strings (random segments, separators, parent and current steps) normalized, split and joined; "
                     "or a random tree of modules in nested directories with random spellings of every import, in all styles, "
                     "whose file reads (exactly the reachable files, by their normal paths) and value (with sharing) are compared with "
                     "the reference; distinct = different paths / trees",
                need=["lengths", "module trees", "files read", "paths", "paths with parent steps", "modules with several imports",
                      "trees for the JavaScript engine", "texts evaluated by the JavaScript engine"]),
    "I02": dict(level="exploration", note="Graphs of up to some dozens of modules (large: hundreds; chains and cycles of up to 2500 modules in one another), "
                                          "histories of up to a dozen runs over one cache.",
                technique="runtime monitoring: event log of file reads, identity of imported values, and run histories against a model",
                stages=two_profiles("imp"),
                rule="case = a random module graph (acyclic, cyclic, with failing files), or a history of runs over one cache or one context; number "
                     "of reads per file, identity of what importers receive, kind of error, and agreement with a fresh cache are checked; "
                     "distinct = different graph / history",
                need=["lengths", "circular graphs", "acyclic graphs", "self-imports", "modules with several importers",
                      "successful runs over a used cache", "refused runs over a used cache", "runs with a failing file", "large graphs",
                      "graphs of over 65000 modules", "modules deep in one another", "runs over a used context",
                      "successful runs over a context which failed before"]),
    "I03": dict(level="fault_enumeration", note="Faults: open, read, create and write failures at every position and by path; of 12 kinds; short reads and writes, "
                                          "full disks, interrupted transfers; files that are not text; refused pieces of a value written at every position.",
                technique="runtime monitoring: fault-injecting file system, its event log and contents after each conversion",
                stages=two_profiles("imp"),
                rule="case = a conversion of a module tree repeated with a fault at every file operation in turn, or with chosen "
                     "failing files; result, named cause and the output's content are compared; or a value written to a sink that refuses "
                     "chosen pieces; distinct = different tree and faults",
                need=["conversions without fault", "read failures", "create failures", "write failures", "transfers in pieces",
                      "transfers interrupted", "failing files", "failing imports", "files that are not text", "sinks that refused"]),
    "S01": dict(level="exploration", note=TEXT_N,
                technique="runtime monitoring: written JSON read back by three readers (own, a JavaScript engine, the system)",
                stages=lambda tier: [Stage("ser", "dev", post=node_post), Stage("ser", "release", scale=0.3)],
                rule="case = a value (random graphs, numbers of all exponents and bit patterns, strings of arbitrary 16-bit units, every "
                     "single unit, values JSON cannot hold, large ones) written as JSON; output checked for validity and read back; "
                     "distinct = different value",
                need=["lengths", "values of over 65000 parts", "values written", "read back", "numbers", "strings", "strings with half a surrogate pair", "single units",
                      "refused values", "large values", "texts evaluated by the JavaScript engine"]),
    "S02": dict(level="exploration", note=TEXT_N + " A key `__proto__` is a recorded finding.",
                technique="runtime monitoring: written modules read back by an independent parser, the system and a JavaScript engine, "
                          "values and identity classes compared",
                stages=lambda tier: [Stage("ser", "dev", post=node_post), Stage("ser", "release", scale=0.3)],
                rule="case = a value graph (random sharing, chains of diamonds, wide fans, leaves of all kinds, NaN) written in both module "
                     "styles; value, shared containers, order of definitions and size are checked; distinct = different graph",
                need=["lengths", "values of over 65000 parts", "modules written", "read back", "modules with shared containers", "shared containers", "shapes", "leaves",
                      "values with NaN", "large values", "texts evaluated by the JavaScript engine"]),
    "S03": dict(level="exploration", note="Processes differ in address layout and hash seeds; layouts are those of the generators in harness/src/val.rs and text.rs.",
                technique="runtime monitoring: byte comparison of outputs across repetitions, layouts, allocators and processes",
                stages=two_profiles("ser"),
                rule="case = an input converted repeatedly, in several layouts, after converting its own output, in module trees, and in "
                     "other processes; all outputs compared byte for byte; distinct = different input",
                need=["repetitions", "outputs converted again", "layouts compared", "module trees", "other processes"]),
    "V01": dict(level="exploration", note="All 65536 patterns of the upper sixteen bits with chosen and random lower bits; values of up to some "
                                          "hundreds of parts, wide ones of 100000.",
                technique="runtime monitoring: every value put into a generic value is queried, refused and taken out as every kind "
                          "against a kind/content model, under a tracking manager; Miri build",
                stages=lambda tier: [Stage("value", "dev"), Stage("value", "release", scale=0.5), Stage("value", "miri", shards=4)],
                rule="case = a block of 256 upper-bit patterns of numbers; random numbers; one string/array/object/big integer moved in "
                     "and out; a value graph enumerated child by child; distinct = different value",
                need=["lengths", "numbers", "not-a-number patterns", "upper bit patterns", "simple values", "references", "children",
                      "enumerations stopped", "graphs", "wide containers", "ledgers balanced", "interpreter runs"]),
    "M04": dict(level="exploration", note="Element and header types: 55 combinations of sizes 0..64 and alignments 1..64, 256, 4096; managers: global, counting "
                                          "(several at once), tracking, arena at all misalignments. Blocks of the process's allocator are "
                                          "placed by the monitor exactly as aligned as asked, between red zones.",
                technique="runtime monitoring: extents, alignment, content patterns and byte counts of all live values checked in random "
                          "allocation histories; refusals watched in process and in child processes; Miri build",
                stages=lambda tier: [Stage("alloc", "dev"), Stage("alloc", "release", scale=0.5), Stage("alloc", "miri", shards=4)],
                rule="case = a history of allocations/rewrites/shares/releases with one manager, or requests that cannot be served, or a "
                     "document read with the counting manager; distinct = different sequence of sizes",
                need=["histories of large blocks", "large arenas", "values placed", "values aligned to 32 or 64", "rewritten in place", "values released", "byte counts compared",
                      "refusals of a full arena", "impossible requests refused", "unservable requests refused", "whole values counted",
                      "arenas", "raw blocks placed", "raw requests refused", "raw blocks of an arena", "raw requests refused by an arena", "interpreter runs"]),
    "M05": dict(level="exploration", note="Schedules: those of the machine's cores under stress (2 to 6 threads per case), and those the interpreter "
                                          "draws (2 to 3 threads, preemption at 10 % of the steps, weak memory emulation). Relaxed orderings that only matter "
                                          "on other processors are seen by the interpreter only.",
                technique="runtime monitoring: stress threads over atomically counted values with use/destruction events and a poisoning "
                          "manager; Miri's data-race detector over many seeds",
                stages=lambda tier: [Stage("thread", "dev", shards=3), Stage("thread", "release", shards=3),
                                     Stage("thread", "miri", shards=4, seeds=6,
                                           miriflags="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.1")],
                rule="case = threads that clone, read, drop and ask for exclusive access to one value, an array of watched parts, a value of the "
                     "counting manager or a graph of dynamic values; distinct = different seed of the schedule and operations",
                need=["threads", "uses", "exclusive access given", "exclusive access refused", "storms", "farewells", "heirs", "hammers",
                      "graphs of dynamic values", "values of the counting manager", "interpreter runs"]),
    "M03": dict(level="exploration", note="Holds on the sampled inputs. Uninitialized reads are seen by the interpreter, and by comparing "
                                          "results for different contents of fresh memory. AddressSanitizer does not see inside arenas.",
                technique="runtime monitoring: tracking manager and allocator ledger (balance, layouts, red zones, poison, fills) over "
                          "conversions and number operations on arbitrary input and faults; AddressSanitizer and Miri builds",
                stages=lambda tier: [Stage("conv", "dev", scale=0.7), Stage("conv", "release", scale=0.2), Stage("conv", "asan", scale=0.12),
                                     Stage("conv", "miri", shards=8)],
                rule="case = a piece of work (texts with imports, all cuts of a text, cut/reordered/abandoned token streams, values written, "
                     "module trees with faults, the whole program, number operations) done with several managers and contents of fresh "
                     "memory; all blocks must be back, all zones intact, all results equal; distinct = different input",
                need=["values read", "texts refused", "JSON texts written", "modules written", "token streams cut",
                      "token streams abandoned", "big integer operations", "number conversions", "values kept across runs",
                      "runs with a failing file", "circular imports refused", "programs run with a fault",
                      "results compared for two fills", "blocks of the process balanced", "byte counts balanced", "interpreter runs"]),
    "R01": dict(level="exploration", note="Schedules: those of the machine's cores under stress (2 to 4 threads, in one process up to 20), and those the "
                                          "interpreter draws. Races on state that only rare work touches are seen only when two threads do that work.",
                technique="runtime monitoring: the same work done in threads and alone, results compared, in one process and in fresh ones; "
                          "ThreadSanitizer build (with the standard library) and Miri's data-race detector",
                stages=lambda tier: [Stage("par", "dev"), Stage("par", "release", scale=0.5), Stage("par", "tsan", shards=4, scale=0.15),
                                     Stage("par", "miri", shards=7, seeds=2,
                                           miriflags="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.1")],
                rule="case = 2 to 4 threads with up to six pieces of work each (texts split, read, converted with imports, values written, big "
                     "integers, literals, range maps; all of one kind, all equal, or mixed) done at the same time and one after the "
                     "other; or one piece of work per thread repeated up to sixty times; or a fresh process whose first work is such; distinct = different work",
                need=["threads", "texts split into tokens", "texts read", "conversions", "values written", "big integers computed",
                      "literals rounded", "range maps merged", "fresh processes", "repetitions in storms", "first uses in two threads", "interpreter runs"]),
    "C01": dict(level="fault_enumeration", note="Real file system, scratch directories. A disk that fills up in the middle of writing is simulated by a "
                                          "limit on the file's size: then only the failure status is asked for.",
                technique="runtime monitoring: the real program run as a process; exit status, complaints and all files compared with an "
                          "independent reader and with the library's conversion",
                stages=lambda tier: [Stage("cli", "dev", also=("nanvm",)), Stage("cli", "release", scale=0.3, also=("nanvm",))],
                rule="case = a run of the program: a document (valid in all kinds, mutated, hostile) or a module tree with broken, missing, linked "
                     "files, converted to names of all extensions, in several spellings, over existing files or the input itself; or one of "
                     "sixteen ways a run must fail; distinct = different input and output name",
                need=["lengths", "JSON documents", "CommonJS modules", "ES modules", "failures reported", "unknown extensions refused", "files replaced",
                      "conversions in place", "module trees", "module trees with a broken file", "refusals", "a full device",
                      "a directory as output", "missing input", "no arguments", "outputs cut by the system", "inputs from a pipe",
                      "large documents", "names refused", "names written"]),
    "N07": dict(level="exploration", technique=NUM_T, note=NUM_N.format(" and the standard library's decimal parser"),
                stages=two_profiles("num"),
                rule="case = a number as significand, exponent, sign and note of a remainder: significands around places where two "
                     "doubles meet with tails that are nothing, half or nearly so, exponents at both ends of the range; its "
                     "double or its binary form compared with exact integer arithmetic; distinct = different number",
                need=["lengths", "doubles", "doubles of cut numbers", "subnormals", "subnormals of cut numbers", "overflows", "binary forms", "exact binary forms",
                      "decimal numbers", "zeros"]),
    "T03": dict(level="exploration", note="Up to four readers in turns in one thread (the states are not shared between threads). Compared with the "
                                          "tokens of the whole text, which T01 checks.",
                technique="runtime monitoring: tokens given by interleaved, moved and abandoned readers against those of the whole text, "
                          "under a tracking manager",
                stages=two_profiles("tok"),
                rule="case = one to four texts fed in random bursts to as many readers over shared or own tables, moved between tables "
                     "and places, abandoned now and then, or fed to the analyzer; distinct = different texts",
                need=["lengths", "texts fed", "characters fed", "readers in turns", "readers moved", "readers abandoned", "texts analyzed"]),
    "V02": dict(level="exploration", note="Random sets over 64 bits, and all pairs of sets over four bits placed anywhere.",
                technique="runtime monitoring: set operations against a model by masks and membership of probe words; Miri build",
                stages=lambda tier: [Stage("value", "dev"), Stage("value", "release", scale=0.5), Stage("value", "miri", shards=2)],
                rule="case = two sets of words: their members, join, common part, splits and refusals, probed with members, single "
                     "bits changed, and random words; or all pairs over four bits with all words; distinct = different sets",
                need=["membership tests", "joins", "joins refused", "common parts", "empty common parts refused", "splits",
                      "splits refused", "sets refused", "values in and out", "pairs of small sets", "interpreter runs"]),
    "V03": dict(level="exploration", note="Pools of up to sixty values of all kinds; not-a-number values are left out.",
                technique="runtime monitoring: comparisons, hashes and sets against a model of identities, under a tracking manager; "
                          "Miri build",
                stages=lambda tier: [Stage("value", "dev"), Stage("value", "release", scale=0.5), Stage("value", "miri", shards=4)],
                rule="case = a pool of values (numbers, simple values, objects of equal contents, the same object several times), all pairs "
                     "compared, hashed and put into sets; distinct = different pool",
                need=["comparisons", "comparisons of references", "sets", "exclusive access after comparing", "interpreter runs"]),
    "M06": dict(level="exploration", note="Items of sizes 0 to about 60 bytes, four managers. When a source fails, the items already taken may stay "
                                          "behind (unspecified); a change by a function that fails is outside of the property.",
                technique="runtime monitoring: a bank of items recording moves and destructions, over values built in place; "
                          "AddressSanitizer and Miri builds",
                stages=lambda tier: [Stage("mem", "dev"), Stage("mem", "release", scale=0.5), Stage("mem", "asan", scale=0.1),
                                     Stage("mem", "miri", shards=4)],
                rule="case = a value built from a source of recorded items (vectors, adapters, exact and inexact sizes), changed by "
                     "functions, cast, or cut off by a failing source; distinct = different items",
                need=["lengths", "arrays built", "items placed", "single values", "values without a size", "changes by a function",
                      "arrays made vectors", "sources of dynamic values", "sources that failed", "interpreter runs"]),
    "P04": dict(level="exploration", note="Compared with the complete reader, which P01 and P02 check. Imports are supplied by setting the public state as "
                                          "the complete reader does.",
                technique="runtime monitoring: states of the incremental parser driven token by token against the complete reader, under a "
                          "tracking manager",
                stages=two_profiles("parse"),
                rule="case = a text (JSON, module of a random value graph, statements in any order, mutated, hostile) pushed token by token, "
                     "with imports supplied or not, to the end or given up; distinct = different text",
                need=["lengths", "texts of over 65000 parts", "tokens pushed", "imports announced", "imports met in values", "documents accepted", "documents refused",
                      "readings ended", "readings given up"]),
}
