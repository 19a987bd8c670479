#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, qt, why, files, mech, state=None, obs=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": qt}, "why_tests_cant": why, "anchors": a})

p("C01", "UUID text coding is canonical, lossless and strict",
  "Every UUID (any value, origin, variety and version) is written as a text that reads back as exactly the same UUID, different UUIDs have different texts, and the written text drops only trailing zeros and default parts. Reading a text yields the UUID the RON grammar assigns to it, and every text outside the grammar (truncated, over-long word, foreign character, trailing garbage) yields the error UUID and never another identifier. UUIDs are ordered by value first and origin second, and a UUID known to be a number look-alike is recognised as such.",
  ["inputs"], "all byte strings up to a length bound plus all shapes of value/origin/variety/version near bit boundaries",
  "The tests parse about a dozen hand-picked UUIDs; the claim is over every text and every 128-bit value, including truncated texts and 6-bit boundaries.",
  ["ron/uuid.hpp", "ron/uuid.cc", "ron/uuid-parser.cc", "ragel/uuid-grammar.rl"],
  [("base64 word writing with trailing-zero zipping", "ron/uuid.cc Word::write_base64, Uuid::write_base64"),
   ("ragel UUID machine and acceptance test", "ron/uuid-parser.cc Uuid::Uuid(Slice)"),
   ("number look-alike detection", "ron/uuid.hpp Uuid::is_ambiguous")],
  obs=["Uuid(text)", "Uuid::str()", "Uuid comparisons"])

p("C02", "Any op written to a text frame is read back identical",
  "For every sequence of ops with any ids, references and any mix of integer, finite float, UUID and string values, writing them to a text frame and parsing it returns the same ops in the same order: same id, same reference, same number, types and values of atoms (64-bit exact), and the same chunk terminators. No value is dropped, split, retyped or truncated on the way, whatever its neighbours are.",
  ["inputs", "histories"], "all op sequences up to a length bound over value alphabets that contain every type's extremes and every look-alike (numbers that read as UUIDs and vice versa)",
  "The tests write a handful of literal values; type confusion (1.0 vs 1, 1e5 vs UUID 1e5), 64-bit limits and escapes only show for specific values in specific positions.",
  ["ron/text.hpp", "ron/text-builder.cc", "ron/text.cc", "ron/text-parser.cc", "ron/op.hpp"],
  [("value serialization", "ron/text.hpp Builder::WriteValues, ron/text-builder.cc WriteInt/WriteFloat/WriteUuid"),
   ("value parsing", "ron/text.cc Cursor::ParseInteger/ParseFloat, int_too_big; ron/cp-parser.cc"),
   ("spec defaults (sequential id, ref to previous)", "ron/text.hpp Builder::WriteSpec")],
  state=[("previous id", "id the next op's spec defaults are relative to", "ron/text.hpp Builder::prev_id_")],
  obs=["Frame data", "Cursor id/ref/atom/term, ReadString"])

p("C03", "The text parser reads exactly the RON grammar with its meaning",
  "For every input text that belongs to the open RON text grammar, the parser yields exactly the ops the grammar defines: spec defaults (next id, previous id as reference), every value with its type and content, span expansion, one term per op, and then a clean end of frame. For every input that does not belong to it, the parser yields the well-formed ops before the fault and then reports an error; it never reports a clean end of a frame it has not fully understood.",
  ["inputs"], "all token sequences up to a length bound over an alphabet with every kind of token, and all single edits of valid frames",
  "The tests parse a few dozen strings; whether an arbitrary token sequence is accepted, rejected or silently mis-read cannot be settled by samples of a regular language with dozens of states.",
  ["ron/text-parser.cc", "ragel/text-grammar.rl", "ragel/text-parser.rl", "ron/text.hpp"],
  [("ragel text frame machine", "ron/text-parser.cc Cursor::Next"),
   ("size limits on numbers and words", "ragel/text-grammar.rl end_int/end_float/end_*_uuid, ron/text.cc int_too_big")],
  state=[("parser state", "ragel state, remaining span ops, last id", "ron/text.hpp Cursor")],
  obs=["Cursor::Next status, ops and terms compared to an independent reference parser"])

p("C04", "No input can crash, hang or over-read the parser",
  "Whatever bytes a frame, a UUID or a string contains - truncated, malformed, over-long or hostile - parsing it and reading all its values terminates after a number of steps bounded by the input and the ops its spans declare, never reads outside the given buffer, never aborts the process, and ends with either the end of the frame or an error.",
  ["inputs"], "all byte strings up to a length bound over the full byte range and over a grammar-derived byte alphabet, in exactly sized buffers",
  "Tests feed well-formed text in NUL-terminated strings; over-reads and aborts need specific truncations or over-long tokens.",
  ["ron/text-parser.cc", "ron/cp-parser.cc", "ron/uuid-parser.cc", "ron/utf8-parser.cc", "ron/text.cc", "ron/slice.hpp"],
  [("bounded slices", "ron/slice.hpp"), ("word/number size checks", "ron/text.hpp word_too_big, ron/text.cc int_too_big"),
   ("span size accounting", "ragel/text-grammar.rl end_span_size/end_spread")],
  obs=["process exit, AddressSanitizer, step counts"])

p("C05", "Span compression of op runs is lossless",
  "A run of consecutive ops written in any way (one by one, or as a compressed span or character spread) denotes the same ops: reading a span of n ops yields exactly n ops with consecutive ids, each referencing its predecessor, with the repeated value or the next character of the spread; writing any run of ops, including runs cut by chunk ends, id or reference jumps, or value changes, reads back as the same run. Each op of a span but the last counts as in the middle of its chunk; the last one carries the terminator. This holds for every character, including multi-byte and escaped ones, at every position of the run, and a run of consecutive single characters or of one repeated UUID is written as one span.",
  ["inputs", "histories"], "all op runs up to a length bound over characters of every encoding class, UUID marks, and all placements of chunk ends and jumps",
  "Tests compress one or two ASCII runs; corruption depends on which character is first, on chunk ends in the middle of a run and on what preceded.",
  ["ron/text.hpp", "ron/text-builder.cc", "ron/text-parser.cc", "ron/cp-parser.cc"],
  [("span detection and extension", "ron/text.hpp Builder::is_same_span/ExtendSpan/WriteTerm"),
   ("span expansion", "ron/text-parser.cc Cursor::Next")],
  state=[("open span", "size and signature of the span being written", "ron/text.hpp Builder::span_size_, prev_2_")],
  obs=["ops read back, number of spans in the text"])

p("C06", "Re-serializing frames preserves ops and chunks and is a fixpoint",
  "Reading any valid frame and writing its ops with a frame builder yields a frame with the same ops, values and chunk terminators (an unfinished last chunk becomes finished); a frame written from ops in memory is rewritten byte for byte, and rewriting any valid frame settles on one spelling. Concatenating frames through the builder yields exactly the concatenated op sequences, and a builder reused for the next frame writes a frame that stands on its own. Comparing two frames that have ops says equal exactly when their ops are equal in id, reference and values, comment ops left out, however the values are spelled.",
  ["inputs"], "all frames that are token sequences up to a bound, and all pairs of small frames for concatenation",
  "Tests compare a few fixed strings; atoms are copied as raw byte ranges and terms are inferred, so faults depend on combinations of token, default and term.",
  ["ron/text.hpp", "ron/text-builder.cc", "ron/frames.hpp"],
  [("range-copy serialization", "ron/text-builder.cc Builder::WriteValues(Cursor)"),
   ("frame concatenation", "ron/frames.hpp AppendAll/AppendFrame/Reserialize"),
   ("frame comparison", "ron/frames.hpp CompareFrames")],
  obs=["frame data"])

p("C07", "Unicode text survives every conversion for every code point",
  "For every Unicode scalar value except the reserved zero, encoding to UTF-8 or UTF-16 and decoding yields the same code point, the bytes are the standard encoding, and writing it in a RON string (raw, escaped or as a hexadecimal escape) and reading it back yields the same code point in any position of the string. Malformed byte sequences are rejected rather than decoded to some other text.",
  ["inputs"], "all 0x10FFFF scalar values, in first, middle and last position, and all byte sequences up to 4 bytes over boundary bytes",
  "Tests sample ASCII, Cyrillic and one emoji; the boundaries of 1-4 byte forms, surrogates and trailing escapes are individual points in a million.",
  ["ron/encdec.hpp", "ron/utf8-parser.cc", "ron/cp-parser.cc", "ron/string-parser.cc", "ragel/utf8-grammar.rl"],
  [("UTF-8/16 encoders and readers", "ron/encdec.hpp"), ("code point machine with escapes", "ron/cp-parser.cc"),
   ("whole-string UTF-8 decoder", "ron/utf8-parser.cc ParseUtf8")],
  obs=["utf8append/utf16append/utf8read/utf16read, ParseUtf8, string atoms, ReadString/ReadString16"])

p("C08", "A stream splits into frames at terminators without losing bytes",
  "Splitting a received text stream yields one frame per frame terminator (and one for an unterminated tail), in order, such that the frames together carry every op of the stream exactly once and each frame parses on its own.",
  ["inputs"], "all streams up to a bound over frame pieces, terminators, spaces and partial terminators",
  "One test splits one stream; boundary positions (leading/trailing/adjacent terminators, lone dots) are combinatorial.",
  ["ron/text.cc", "ron/text.hpp", "ron/const.hpp"],
  [("terminator scan", "ron/text.cc TextFrame::Split"), ("terminator writing", "ron/text.hpp Builder::EndFrame")],
  obs=["list of frames"])

p("C09", "Merging op sets converges: sorted, complete, duplicate-free",
  "Merging any number of replicas' frames of a last-write-wins, yarn, meta or matrix object yields every op any of them has, each exactly once, in ascending event order with unchanged content, independent of the order, grouping and repetition of the merged frames. Merging never invents, alters or loses an op.",
  ["inputs", "histories"], "all families of up to n sorted op subsets of a universe of events, in all orders, groupings and duplications",
  "Tests merge 2-3 fixed frames; the heap merge has distinct paths for every relative order, exhaustion and duplication pattern.",
  ["rdt/merge.hpp", "rdt/lww.hpp", "rdt/meta.hpp", "rdt/mx.hpp", "rdt/rdt.hpp"],
  [("merging heap with duplicate skip", "rdt/merge.hpp MergeCursor"), ("per-type merge", "rdt/lww.hpp, rdt/meta.hpp, rdt/mx.hpp")],
  state=[("heap of cursors", "sources positioned at their next op", "rdt/merge.hpp cursors_")],
  obs=["ops of the merged frame"])

p("C10", "RGA merge converges to the one causal-tree order",
  "Merging any number of causally complete pieces of a causal-tree (RGA) object yields the single depth-first order of the tree in which concurrent children go newest first, containing every op once, whatever the order, grouping, repetition or fragmentation of the pieces (a piece is a connected subtree in that order, with or without the creation op). A piece that attaches to nothing in the others is reported as a causality error rather than merged silently.",
  ["inputs", "histories"], "all trees up to n events over 2 writers, all ways to take causally closed replicas and detached patches of them, all orders and groupings",
  "Tests weave three small fixed frames; convergence is a statement over every tree and every partition of it.",
  ["rdt/rga.hpp", "rdt/merge.hpp", "rdt/rdt.hpp"],
  [("weave by attaching sources at their parents", "rdt/rga.hpp RGArrayRDT::Merge"), ("descending heap", "rdt/merge.hpp")],
  obs=["op order of the merged frame, status"])

p("C11", "RGA visibility follows removals and undos exactly",
  "Scanning a causal-tree frame marks an inserted element invisible exactly when a removal that is still in force targets it: a chain of k removals removes the k nearest preceding elements, a chain of k undos takes back the last k removals of its chain, and concurrent removals or undos compose so that an element is hidden if any branch still removes it. Removals, undos, and anything attached to them, are never visible themselves; undos that follow no removal, and whatever is below them, neither. Broken order or references, and ops that refer to themselves, are reported as errors.",
  ["inputs"], "all valid causal-tree frames up to n ops over inserts, removals, undos and foreign marks",
  "Tests check about ten fixed frames; the scanner keeps a stack with ceilings whose unrolling depends on every combination of nesting and branching.",
  ["rdt/rga.hpp", "ron/inc_stack.hpp"],
  [("stack scan with ceilings", "rdt/rga.hpp ScanRGA"), ("compressed stack", "ron/inc_stack.hpp")],
  state=[("path stack", "ids, kill marks, positions and state ceilings of the current branch", "rdt/rga.hpp ScanRGA")],
  obs=["visibility bitmap"])

p("C12", "MAX object merge keeps the object and its largest value",
  "Merging any frames of a max object yields its creation op once (if any input has it) and the op carrying the largest value; the result is the same for every order, grouping and repetition of the inputs, and values are compared as values (integers signed, floats numerically, strings by bytes, different types by type; of equal values the later op stays).",
  ["inputs", "histories"], "all families of up to n states/patches over a small value universe in all orders and groupings",
  "One test merges one pair; order dependence and ties only show in other arrangements.",
  ["rdt/max.hpp", "rdt/rdt.hpp"],
  [("max selection", "rdt/max.hpp MaxRDT::Merge/Less")],
  obs=["ops of the merged frame"])

p("C13", "An object log replays to the state, at any version",
  "For every causally ordered object log, cutting it into chains and reducing them yields the same state as merging its ops in one go; asking for a past version yields exactly the state of the log prefix that ends with that version's op, neither one op more nor less.",
  ["inputs", "histories"], "all causally ordered logs up to n ops over two writers, with every op as a cutoff",
  "Tests replay one log with one cutoff; off-by-one cuts depend on whether the version is inside a chain, a span or at an end.",
  ["rdt/rdt.hpp", "rdt/log.hpp"],
  [("chain splitting with cutoff", "rdt/rdt.hpp SplitLogIntoChains/ObjectLogToState"), ("log append", "rdt/log.hpp")],
  obs=["state frame, list of chains"])

p("C14", "Merges are dispatched by form and never mix types",
  "The type of a merge is the one form its inputs name, wherever in the list it is named; inputs that name different forms are refused. Forms with no merge of their own are refused as not implemented, and inputs that name no known form are never merged by the rules of some type: the last one stands. Every registered form has its own name and code, and converting between them is one-to-one for all codes, with the unknown ones rejected.",
  ["inputs", "configurations"], "all 256 form codes, all pairs and triples of object heads over all registered names, and a patch among them",
  "Tests touch three forms; the mapping tables and the dispatch cover 20 forms and all their combinations.",
  ["ron/form.hpp", "rdt/rdt.hpp", "db/const.hpp", "ron/forms.txt"],
  [("form tables", "ron/form.hpp uuid2form/form2uuid"), ("form detection", "rdt/rdt.hpp GetForm"), ("dispatch", "rdt/rdt.hpp MasterRDT::Merge")],
  obs=["status and merged frame"])

p("C15", "A last-write-wins object shows the latest value of each field",
  "Reading a last-write-wins state through the object view returns, for each field, the value of the event latest in the state, with the right type and content; a field absent or of another type reads as empty. Later events override earlier ones field by field, in whatever order they are read. A write made through the view refers to the latest event the view has seen.",
  ["inputs", "histories"], "all states up to n field writes over two fields and all value types, plus updates",
  "One test reads one object; overriding, type mismatch and absent fields combine freely.",
  ["rdt/lww_obj.hpp"],
  [("field index", "rdt/lww_obj.hpp LWWObject::Update/atom/uuid/number/string")],
  obs=["accessor results"])

p("C16", "Storage keys are one-to-one, order-preserving and form-tagged",
  "The storage key of an event id and a form keeps both: different (id, form) pairs never collide, the id and form are recovered exactly, and the byte order of stored keys is form first, then origin, then time, so that all records of one kind and writer are adjacent and in time order.",
  ["inputs"], "all pairs over ids around every bit boundary of value and origin and all form codes",
  "Tests check one or two keys; bit packing over a 4-bit shift fails only at particular bits.",
  ["db/key.hpp", "db/key.cc"],
  [("bit packing", "db/key.hpp Key::Key, Key::id, Key::form, Key::be")],
  obs=["Key accessors and byte images"])

p("C17", "A read returns the merge of all writes, through any history",
  "After any sequence of single and batch writes interleaved with reads, flushes, compactions and close/reopen, reading a key of the database returns exactly the merge of all frames written to that key so far, in write order for logs, and never data of another key. Repeating a write of a convergent type changes nothing, and how often or when the data was flushed, compacted or partially merged never changes a result.",
  ["histories"], "all write sequences up to a depth over a small frame alphabet for every storable form, times all placements of flush, compaction and reopen",
  "The one store test writes and reads a few records in one session; merge operands are combined lazily at read, flush and compaction in groupings no unit test controls.",
  ["db/rocks_store.cc", "db/rocks_store.hpp", "rdt/rdt.hpp"],
  [("merge operator", "db/rocks_store.cc RDTMerge::FullMergeV2/PartialMergeMulti"), ("write/read", "db/rocks_store.cc RocksDBStore::Write/Read")],
  state=[("pending operands", "unmerged frames per key in memtables and files", "RocksDB")],
  obs=["Read results"])

p("C18", "Iteration visits every live key once, in order, with its value",
  "For every set of records, an iterator positioned at any key stands on that key or the nearest greater (or, when asked, nearest lesser) one, advances through all remaining keys in ascending order exactly once, yields at each the same merged value a read returns, and reports the end of data.",
  ["inputs", "histories"], "all subsets of a key universe with all seek targets in both directions, for the disk, in-memory and joined stores",
  "Tests iterate over one set of keys; off-by-one seeks depend on gaps, ends and unmerged records.",
  ["db/rocks_store.cc", "db/mem_store.hpp", "db/joined_store.hpp"],
  [("iterator", "db/rocks_store.cc Iterator"), ("in-memory iterator", "db/mem_store.hpp Iterator"), ("joined iterator", "db/joined_store.hpp Iterator")],
  obs=["key/value sequences"])

p("C19", "Acknowledged writes survive a process crash; batches are atomic",
  "If the process dies at any point of any write history, at any write to its files and with any part of that last write done, reopening the database succeeds and yields every write acknowledged before the crash, and for the write in progress either all of its records or none. Nothing that was never written appears.",
  ["crash_points", "histories"], "every file-system call of each history as a crash point, with whole, absent and torn last writes",
  "No existing test crashes the store; the crash points of one short history already number in the hundreds.",
  ["db/rocks_store.cc", "db/rocks_store.hpp"],
  [("write-ahead log through the storage engine", "db/rocks_store.cc Write(Key), Write(Records)"), ("options", "db/rocks_store.cc init_options"), ("reopen", "db/rocks_store.cc OpenAll")],
  obs=["contents after reopen compared to acknowledged writes"])

p("C20", "Branches are isolated and keep their identity across reopening",
  "A write to one branch is never visible in another, dropping a branch removes it and nothing else, and after closing and reopening the database the set of branches and the contents of each are exactly what they were, under the same names. Operations on a closed store, or on reserved keys, are refused without effect.",
  ["histories"], "all sequences up to a depth of create/write/drop/close/reopen over three branches",
  "Tests open one or two branches in one order.",
  ["db/rocks_store.cc", "db/rocks_store.hpp"],
  [("column family per branch", "db/rocks_store.cc Create/OpenAll/Drop/Close")],
  obs=["OpenAll branch map, Read results, statuses"])

p("C21", "The in-memory overlay and base store act as one merged store",
  "After any sequence of writes to a base store and to the overlay, a read or iteration through the joined view returns the merge of both for every key, the base is untouched by overlay writes, and draining the overlay into the base yields the same contents as writing directly. The in-memory store alone answers every read as the merge of all its writes.",
  ["histories"], "all write sequences up to a depth over keys of several forms split between base and overlay, with reads and iteration in between",
  "The tests of these components are not even built here; merges on read mutate the store, so results depend on the history of reads.",
  ["db/mem_store.hpp", "db/joined_store.hpp"],
  [("merge on read", "db/mem_store.hpp Read/Iterator::Next"), ("two-way merge", "db/joined_store.hpp Read/Iterator")],
  obs=["Read and Iterator results"])

p("C22", "A received frame is applied all or nothing, in causal order",
  "When a replica receives a frame, either all of it is applied - its events are in their object's log and state exactly once, its names stand, its queries, of an object's state or log (in full at the object's id, the part before it at any other event's), are answered with what was written before them - or an error is returned and nothing of it is visible. Refused are frames with a syntax error, with events that repeat, run backwards in their yarn, refer to unknown or later events, are of a yarn that is not known, or create what is no object type, and frames for a branch there is not. Events without a time are stamped with consecutive times greater than all of their yarn and all the replica has seen since it was opened. The tip, hashes and metadata of every yarn follow; other branches are not touched; all this, the set of branches, their names and the active one are the same after closing and reopening and, up to the operation in progress, after a crash.",
  ["histories", "inputs", "crash_points"], "all sequences up to a depth of received frames over a small event universe with valid, reordered, repeated and dangling references, of branch operations, of edits of frames, and all crash points",
  "The replica's tests are not built here and follow one happy path.",
  ["db/replica.cc", "db/replica.hpp", "ron/opmeta.hpp"],
  [("transaction", "db/replica.cc Commit::SaveChain/Save, Replica::Receive"), ("causality checks", "db/replica.cc CheckEventSanity, FindOpMeta, FindYarnTipMeta"), ("stamping", "db/replica.cc Commit::WriteNewEvents, Replica::Now/See"), ("branches", "db/replica.cc CreateBranch/ForkBranch/DropStore/SetActiveStore/Open")],
  obs=["Receive status, responses, store contents"])

p("C23", "An op's Merkle hash depends on its content only, and on all of it",
  "The Merkle hash of an op is the same however the op is represented (freshly built, parsed from any equivalent text, inside or outside a span, re-serialized), and it changes whenever the id, the reference, any value, the previous op's hash or the referenced op's hash changes. It is the SHA-512/256 of the id, the previous op's hash, the reference, the referenced op's hash and the values, big endian, as replicas of any build have to agree on it.",
  ["inputs"], "all pairs of ops over an alphabet of ids, refs and value tuples of every type, each in all its representations",
  "Tests hash two ops in one representation; equality over representations and inequality over contents are both universal statements.",
  ["ron/hash.hpp", "ron/op.hpp", "ron/frames.hpp"],
  [("hashable form", "ron/hash.hpp WriteOpHashable, WriteAtomRangeless"), ("string reading", "ron/frames.hpp ReadString")],
  obs=["SHA2 values"])

p("C24", "Hashes keep their bits through text and match by known prefix",
  "Writing a full hash in hexadecimal or Base64 and reading it back yields the same bits; a hash read from a prefix knows exactly the bits its text carries; two hashes match exactly when they agree on all bits both of them know. Malformed hash texts are rejected.",
  ["inputs"], "all prefix lengths of hashes with every single-bit difference, in both codings, and all illegal characters in all positions",
  "The existing tests of this are failing already and sample a few lengths.",
  ["ron/hash.hpp", "ron/encdec.hpp"],
  [("bit-exact coding", "ron/encdec.hpp encode/decode"), ("prefix matching", "ron/hash.hpp SHA2::matches/ParseHex/ParseBase64")],
  obs=["hex()/base64()/matches()"])

p("C25", "Op metadata tracks object, chain, predecessor and hash along a yarn",
  "Following any legal sequence of events of one writer, the tracked metadata always names the current event, its predecessor, the object and type it belongs to, the first event of its unbroken chain, and the running Merkle hash; saving and loading a record restores the identity, object, type and hash. An event is recognised as the continuation of a chain exactly when it directly follows and references its predecessor in the same yarn.",
  ["histories"], "all yarns up to n events over references to the tip, to older events, to other objects and object creations",
  "No test covers the metadata tracker.",
  ["ron/opmeta.hpp"],
  [("metadata step", "ron/opmeta.hpp OpMeta::Next/is_next/is_check"), ("record save/load", "ron/opmeta.hpp OpMeta::Save/Load")],
  obs=["OpMeta fields"])

p("C26", "Event timestamps grow with time",
  "For any two calendar times within the supported range, the later one (to 100 nanoseconds) gets the greater event timestamp and equal ones get equal timestamps, across second, minute, hour, day, month, leap-year and year boundaries; the timestamp always fits the identifier's payload.",
  ["inputs"], "every second boundary of every day class, every day of the supported range, with sub-second steps at the boundaries",
  "No test covers timestamps; calendar boundaries are individual points.",
  ["ron/uuid.cc", "ron/uuid.hpp"],
  [("calendar packing", "ron/uuid.cc Uuid::HybridTime/Now")],
  obs=["HybridTime values"])

p("C27", "The run-length stack behaves as a plain stack",
  "After any sequence of pushes and pops, the run-length compressed stack has the same size, ends and contents as an uncompressed one, uses one span per run of consecutive values, and iterating over it with single steps, jumps or span skips visits the same elements as the plain sequence.",
  ["histories"], "all push/pop sequences up to a depth over a value alphabet that makes and breaks runs, and all iterator moves",
  "One test pushes one sequence.",
  ["ron/inc_stack.hpp"],
  [("spans", "ron/inc_stack.hpp push_back/pop_back"), ("iteration", "ron/inc_stack.hpp const_iterator")],
  obs=["size, back, iteration"])

p("C30", "A repair keeps every branch and every record",
  "Repairing a closed database whose files are intact, as a clean close or the death of the process at any point of any history of writes, flushes and branch operations leaves them, succeeds and keeps the set of branches, their names and every acknowledged write of each, and brings back nothing that was dropped; the database can be written to and reopened afterwards as ever. An open database, or one that is not there, is not repaired.",
  ["histories", "crash_points"], "all sequences up to a depth of create/write/drop/flush/compact/reopen ending in a repair, and all file-system calls as crash points before one",
  "No test repairs a database; what a repair keeps depends on which branch's records are in table files, in the log, or dropped.",
  ["db/rocks_store.cc"],
  [("repair", "db/rocks_store.cc Repair"), ("branches", "db/rocks_store.cc OpenAll")],
  obs=["Repair status, OpenAll branch map, Read results"])

p("C31", "The text view of a document shows exactly its visible text",
  "Asked for the text of an RGA object at any moment, whichever way its events arrived, a replica answers with one op that carries the object's derived id and one string: the string values of the elements that are visible - not removed, or with the removal undone - in the order of the causal tree, each in full, and nothing else. Asking changes nothing, and the answer is the same after reopening.",
  ["inputs", "histories"], "all causal trees up to n ops with inserts, removals, undos and marks, in one frame or many, asked at the end or after each event, and all triples of values of all kinds",
  "The test of the text view is commented out as not ready.",
  ["db/map/txt.hpp", "rdt/rga.hpp", "db/replica.cc", "ron/frames.hpp"],
  [("text view", "db/map/txt.hpp TxtMapper::Read"), ("visibility", "rdt/rga.hpp ScanRGA"), ("dispatch", "db/replica.cc ReceiveMapQuery"), ("string reading", "ron/frames.hpp ReadString")],
  obs=["the response frame"])

p("C28", "Concurrent threads on one open store behave as if one at a time",
  "Reads, writes and iterations issued by several threads on one open store return results explained by some sequential order of the operations.",
  ["schedules"], "all interleavings of 2-3 threads with 1-2 operations each",
  "No test uses threads.",
  ["db/rocks_store.cc"],
  [("thread safety of the storage engine", "librocksdb (outside this repository)")],
  obs=["Read results"])

p("C29", "Acknowledged writes survive power loss",
  "A write acknowledged by the store is present after a power failure that loses every unsynced page.",
  ["crash_points"], "all crash points with any subset of unsynced blocks lost",
  "No test crashes the machine.",
  ["db/rocks_store.cc"],
  [("write options", "db/rocks_store.cc wo()")],
  obs=["contents after reopen"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
