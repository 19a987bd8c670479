"""The table of checks: how each property's harness is built and described."""
MC = "stateless model checking of the real code: "
ALPH = "nothing outside the stated alphabet and bound"
CHECKS = {
    "C01": dict(src="c01_uuid.cc", variant="asan",
        technique=MC + "exhaustive enumeration of UUIDs and of UUID texts up to a length, judged by a reference codec",
        note="Every word pattern in the set x every flag, and every text up to the bound, is executed on the real codec under AddressSanitizer; trusts the reference codec in lib/ref.hpp.",
        rule="a case counts as nontrivial if it is a UUID that was written, a text the grammar accepts, or a pair of different ids"),
    "C03": dict(src="c03_parse.cc",
        technique=MC + "exhaustive token, character and W-method enumeration of frames against a reference parser",
        note="The W-method set also settles every input for any parser automaton with at most one state more than the grammar's, as far as acceptance at the suffixes goes; beyond that the bounds of the spaces apply. Trusts lib/ref.hpp and lib/nfa.hpp, which agree with each other on all cases.",
        rule="a case counts as nontrivial if at least one op can be read from it"),
    "C04": dict(src="c03_parse.cc", variant="asan", flags=["-DC04"],
        technique=MC + "exhaustive enumeration of byte texts under AddressSanitizer with a watchdog, all reading entry points",
        note="Each text lies in a heap block of exactly its size; a report, abort, or hang is attributed to the one text. Non-termination is judged by a 40 s watchdog per case.",
        rule="a case counts as nontrivial if at least one op can be read from it"),
    "C02": dict(src="c02_build.cc", flags=["-DC02"],
        technique=MC + "exhaustive enumeration of op sequences written by the real builder and read by the real parser and a reference parser",
        note="Values outside the alphabets and longer sequences are not covered; trusts lib/ref.hpp.",
        rule="every case writes at least one op and counts"),
    "C05": dict(src="c02_build.cc", flags=["-DC05"],
        technique=MC + "exhaustive enumeration of op runs and span texts, judged by a reference parser",
        note="Runs longer than the bound and characters outside the classes are not covered; trusts lib/ref.hpp.",
        rule="every case has at least one op and counts"),
    "C06": dict(src="c02_build.cc", flags=["-DC06"],
        technique=MC + "exhaustive enumeration of frames, pairs and triples of frames rewritten by the real builder until a fixpoint",
        note="Frames outside the token bound are not covered; trusts lib/ref.hpp.",
        rule="a case counts as nontrivial if its frame has an op, or, for comparisons, if equality and spelling differ"),
    "C07": dict(src="c07_unicode.cc",
        technique=MC + "exhaustive enumeration of all code points in all positions and of boundary byte sequences, against a reference codec",
        note="Positions in strings longer than the bound are not covered; malformed input is judged at ParseUtf8 and the frame parser (utf8read is for valid text only); trusts lib/ref.hpp.",
        rule="a scalar value, a string, or a byte sequence that is malformed or has a multi-byte char"),
    "C08": dict(src="c08_stream.cc",
        technique=MC + "exhaustive enumeration of piece sequences and builder call sequences, against a reference splitter and parser",
        note="Streams that are no frame sequence are only checked for safety (C04). An empty stream may yield one empty frame.",
        rule="a case counts as nontrivial if it holds more than one frame"),
    "C16": dict(src="c16_keys.cc", repo_src=["db/key.cc"],
        technique=MC + "exhaustive enumeration of key components over bit-boundary words, against a 128-bit reference layout",
        note="Words other than single bits, their complements, low-bit runs and a few mixed ones are not covered.",
        rule="every case counts"),
    "C24": dict(src="c24_hashtext.cc",
        technique=MC + "exhaustive enumeration of lengths, single-bit differences and illegal bytes, against a reference bit codec",
        note="Bit patterns other than the listed ones are covered only through single-bit differences.",
        rule="a case counts as nontrivial if it is a pattern, a difference, or a malformed text"),
    "C26": dict(src="c26_time.cc",
        technique=MC + "exhaustive enumeration of calendar boundaries over the supported range, against an independent calendar",
        note="Pairs of times are compared across one boundary each; order between distant times follows from the checked layout.",
        rule="every day counts"),
    "C27": dict(src="c27_stack.cc", variant="asan",
        technique=MC + "exhaustive enumeration of push/pop histories and iterator moves on the real stack, against a plain vector",
        note="Histories longer than the bound are not covered.",
        rule="a case counts as nontrivial if it pops and makes a run"),
}
CHECKS.update({
    "C09": dict(src="c09_sets.cc",
        technique=MC + "exhaustive enumeration of replica families over small event universes in all orders and groupings, against a set-union model",
        note="Universes beyond 8 events and families beyond the bound are not covered; the merge looks at ids only, so contents are sampled by one universe per form. Trusts lib/rdtref.hpp.",
        rule="a case counts as nontrivial if it merges several frames or repeats an event"),
    "C10": dict(src="c10_rga.cc",
        technique=MC + "exhaustive enumeration of causal trees, their connected pieces and all orders of them, against a depth-first tree walk",
        note="Trees beyond 7 events are not covered; pieces are connected subtrees in weave order, as the type itself produces. Trusts lib/rdtref.hpp.",
        rule="a case counts as nontrivial if it merges several pieces into one"),
    "C11": dict(src="c11_scan.cc",
        technique=MC + "exhaustive enumeration of causal tree frames of inserts, removals and undos, against the removal rules on the tree",
        note="Frames beyond 8 ops other than chains are not covered; trusts the rules as written in the harness.",
        rule="a case counts as nontrivial if it has a removal, or a fault"),
    "C12": dict(src="c12_max.cc",
        technique=MC + "exhaustive enumeration of families of patches and states in all orders and groupings, against a maximum over typed values",
        note="Values outside the universes are not covered (NaN cannot be written). Trusts lib/rdtref.hpp.",
        rule="a case counts as nontrivial if it merges several frames or yields a root and a value"),
    "C13": dict(src="c13_log.cc",
        technique=MC + "exhaustive enumeration of causally ordered logs and all versions in them, against a one-go merge of the prefix",
        note="Logs beyond 9 ops are not covered. Trusts lib/rdtref.hpp.",
        rule="a case counts as nontrivial if its log has more than two ops"),
    "C14": dict(src="c14_forms.cc", repo_src=["db/key.cc"],
        technique=MC + "exhaustive enumeration of form codes, names and lists of frame heads, against the registered table and the reference merges",
        note="Lists of more than 5 frames are not covered. Trusts lib/rdtref.hpp.",
        rule="a case counts as nontrivial if it has a registered form, or a conflict"),
    "C15": dict(src="c15_obj.cc", variant="asan",
        technique=MC + "exhaustive enumeration of write histories and their division into frames, against a map of the latest events",
        note="Values outside the 15 and longer histories are not covered; frames are freed after they are read, under AddressSanitizer.",
        rule="a case counts as nontrivial if it has more than one field write"),
    "C23": dict(src="c23_hash.cc",
        technique=MC + "exhaustive enumeration of op contents in all their representations, against a reference hashed form",
        note="Values outside the alphabet are not covered; trusts Botan's SHA-512/256 and the hashed form as written in the harness.",
        rule="a case counts as nontrivial if it has values, or compares contents"),
    "C25": dict(src="c25_meta.cc",
        technique=MC + "exhaustive enumeration of yarns of creations and references, against a reference tracker and hash chain",
        note="Yarns beyond 7 events are not covered; a loaded record knows neither its chain nor its predecessor, by design. Trusts Botan's SHA-512/256.",
        rule="a case counts as nontrivial if its yarn has more than two events, or is a record"),
    "C17": dict(src="c17_store.cc", repo_src=["db/key.cc", "db/rocks_store.cc"], ld=["-lrocksdb"],
        technique=MC + "exhaustive enumeration of write histories and of all placements of flushes, compactions and reopenings, against the merge of all that was written",
        note="Histories longer than the bound and other frames than the 6 of each form are not covered; the schedule of RocksDB's own background threads is not enumerated (flushes and compactions are placed by hand). Trusts lib/rdtref.hpp.",
        rule="every case counts: it holds all histories of one placement"),
    "C18": dict(src="c18_iter.cc", repo_src=["db/key.cc", "db/rocks_store.cc"], ld=["-lrocksdb"],
        technique=MC + "exhaustive enumeration of store contents, layouts, seek targets and iterator call sequences, against a sorted map",
        note="Contents of more than 5 keys and longer call sequences are not covered; cpp-btree is not installed, so the in-memory store runs over a strict stand-in for its map. Trusts lib/rdtref.hpp.",
        rule="a case counts as nontrivial if more than one record is iterated, or if calls are mixed"),
    "C21": dict(src="c21_joined.cc", repo_src=["db/key.cc", "db/rocks_store.cc"], ld=["-lrocksdb"],
        technique=MC + "exhaustive enumeration of histories of writes to base and overlay, reads, walks and drains, against lists of what was written",
        note="Longer histories and other frames are not covered; cpp-btree is not installed, so the in-memory store runs over a strict stand-in for its map. Trusts lib/rdtref.hpp.",
        rule="every case counts: it holds all histories of one form with one beginning"),
    "C20": dict(src="c20_branches.cc", repo_src=["db/key.cc", "db/rocks_store.cc"], ld=["-lrocksdb"],
        technique=MC + "exhaustive enumeration of histories of branch operations, against a map of lists read in full after every step",
        note="Longer histories and more than two branches beside the default store are not covered; repeated creation of the default store (which resets its tip) is left out.",
        rule="a case counts as nontrivial if it has three or more steps"),
    "C19": dict(src="c19_crash.cc", repo_src=["db/key.cc", "db/rocks_store.cc"], ld=["-lrocksdb"], level="fault_enumeration",
        technique="stateless model checking of the real code with fault injection: exhaustive enumeration of crash points (every file system call of the last step of every history, writes whole, torn and absent), against the acknowledged writes",
        note="The process dies, not the machine: what was handed to the kernel stays (see C29). Background work of the storage engine runs in its own order, so calls of a compaction may be numbered differently in two runs; every number is still tried.",
        rule="one evaluation is one killed execution, reopened and compared; distinct are the (history, call number, bytes done) triples"),
    "C22": dict(src="c22_replica.cc", repo_src=["db/key.cc", "db/rocks_store.cc", "db/replica.cc"], ld=["-lrocksdb"],
        technique=MC + "exhaustive enumeration of histories of received frames, good and bad, against a model of yarns, causality and merges; the whole database is compared around every refusal",
        note="Longer histories are not covered. Hash annotations, and writes through the text mapper (unfinished in the repository), are left out; cpp-btree and dmp_diff are not installed, so the replica runs over a strict stand-in for the first and an unused one for the second. Trusts lib/rdtref.hpp and lib/replx.hpp.",
        rule="a case counts as nontrivial if a frame has two or more events"),
    "C30": dict(src="c30_repair.cc", repo_src=["db/key.cc", "db/rocks_store.cc"], ld=["-lrocksdb"],
        technique=MC + "exhaustive enumeration of histories of branch operations with repairs among them, against a map of lists read in full after every step",
        note="A repair killed half way, and a repair of damaged files, are not covered (the storage engine does not promise anything there). Longer histories and more than three branches are not covered.",
        rule="a case counts as nontrivial if it has three or more steps"),
    "C31": dict(src="c31_text.cc", repo_src=["db/key.cc", "db/rocks_store.cc", "db/replica.cc"], ld=["-lrocksdb"],
        technique=MC + "exhaustive enumeration of causal trees and of the frames they arrive in, against the rules of visibility on a model tree",
        note="Texts are read only: writes through the text mapper are unfinished in the repository. Larger trees are covered in six shapes only. cpp-btree and dmp_diff are not installed, so the replica runs over a strict stand-in for the first and an unused one for the second. Trusts lib/visx.hpp and lib/rdtref.hpp.",
        rule="a case counts as nontrivial if something is removed, or values of several kinds meet"),
})
NOT_APPLICABLE = {
    "C28": "All synchronization is inside the prebuilt librocksdb.so, whose scheduling points cannot be controlled here; the repository's own code has no threads, locks or atomics to interleave.",
    "C29": "The guarantee is not offered: writes use the default rocksdb options (sync off), so an acknowledged write is only promised to survive a process crash, which C19 covers.",
}
