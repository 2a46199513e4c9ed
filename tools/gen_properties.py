#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, id
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

RES = "include/Srl/Resolve.hpp"
prop("C01", "Objects stored through a stream come back equal",
 "Storing an object of any supported type in any of the three formats to an output stream, and restoring it from an input stream holding the same bytes, yields an equal object. This holds whatever the sizes of its fields relative to the buffers involved, however sink and source split the transfer into partial reads and writes, and at whatever position of the output stream the document starts. It holds equally for objects packed and unpacked field by field, and for objects unwrapped from a document that was first loaded as a tree.",
 ["inputs", "schedules", "configurations"],
 "every object graph of supported types x {PSrl, PMsgPack, PJson compact/spaced} x every splitting of the device transfers x every start position in the output stream x {store/restore, load_object/to_source, pack/unpack, load_source/unwrap}",
 "The test-suite stores a fixed set of small structures through a std::stringstream: only documents whose tokens happen to fall on a few fixed positions of the 1024-byte buffers are reached, never another start position and never a split transfer.",
 ["include/Srl/Tree.hpp", RES, "include/Srl/In.hpp", "src/lib/In.cpp", "include/Srl/Out.hpp", "src/lib/Out.cpp", "src/lib/PSrl.cpp", "src/lib/PJson.cpp", "src/lib/PMsgPack.cpp", "src/lib/Node.cpp"],
 [("refilling a sliding input window while preserving the token being read", "src/lib/In.cpp try_fetch_data"),
  ("buffered output with reserved, later patched positions", "include/Srl/Out.hpp alloc/reserve/write(Ticket)"),
  ("type resolution for storing and restoring", RES)],
 ["bytes received by the simulated device", "the restored object compared field by field with the stored one"],
 [("input window", "start/pos/end/anchor of the bytes fetched so far", "include/Srl/In.h"), ("output segment", "bytes not yet handed to the stream", "include/Srl/Out.h State")])

prop("C02", "Streams and memory are interchangeable",
 "For the same object, every way of producing a document (to memory, to a stream with any buffering, directly or by way of a tree) yields the same bytes for the same way of storing, and repeating it yields the same bytes again. For the same bytes, valid or damaged, reading from memory and reading from a stream with any splitting of the transfer agree: both accept with the same content or both reject.",
 ["inputs", "schedules", "configurations"],
 "every document or damaged document x every format x every splitting of the transfer, memory and stream side by side",
 "Tests compare memory and stream only on documents that fit one buffer fill, and never on damaged documents, where the two readers end at different bounds.",
 ["include/Srl/In.h", "include/Srl/In.hpp", "src/lib/In.cpp", "include/Srl/Out.hpp", "src/lib/Out.cpp", "include/Srl/Tree.hpp"],
 [("one reader for both kinds of source", "src/lib/In.cpp set/try_fetch_data"), ("one writer for both kinds of sink", "src/lib/Out.cpp flush/write_to_buffer/write_to_stream")],
 ["bytes produced", "accept/reject and content of the loaded tree"])

prop("C03", "A torn document is never mistaken for a whole one",
 "When the writing process or its device dies at any point of the write sequence, what a reader makes of the bytes left behind is either exactly the stored values or an error: restoring never invents, alters or silently drops a stored field. Loading such a file as a tree is accepted only if the whole document is there; a proper prefix is always refused.",
 ["crash_points", "inputs", "fault_sequences"],
 "every crash point in the sequence of device writes (each byte of each write, the seeks and patches included) of every document in every format, and every read error position on the way back",
 "No test interrupts a write or truncates a document other than a handful of fixed malformed inputs; the states in which counts are not yet patched exist only on the device, between two writes.",
 ["src/lib/PMsgPack.cpp", "include/Srl/Out.hpp", "src/lib/Out.cpp", "src/lib/In.cpp", "include/Srl/In.hpp", "src/lib/PSrl.cpp", "src/lib/PJson.cpp", "src/lib/Node.cpp"],
 [("element counts patched into the already written part when a scope closes", "src/lib/PMsgPack.cpp write"), ("end-of-source detection", "include/Srl/In.hpp peek/try_peek, src/lib/In.cpp"), ("scope end markers", "src/lib/PSrl.cpp, src/lib/PJson.cpp")],
 ["bytes on the simulated device at the crash", "result or exception of restore / load_source / unpack on them"])

prop("C04", "A failing output device is never reported as success",
 "If storing returns normally and the stream is in a good state, the device holds the complete document at the position where it started, everything handed over was flushed, and nothing outside the document's own range was touched. If any write, seek or flush of the device failed, the caller can tell from an exception or from the stream's state. Storing again to a healthy device with the same tree and format object then produces the complete document.",
 ["fault_sequences", "inputs", "configurations"],
 "every sequence of device faults (error at any byte, short write, full disk, failing seek or position query, failing flush, device that throws, stream with exceptions enabled) at every point of the write sequence of every document in every format",
 "Tests write only to string streams and vectors, which never fail, never seek-fail and always start at position 0.",
 ["include/Srl/Out.hpp", "src/lib/Out.cpp", "src/lib/Tree.cpp", "include/Srl/Tree.hpp", "src/lib/PMsgPack.cpp"],
 [("flush at the end of every store", "src/lib/Out.cpp flush"), ("seek, patch, seek back", "include/Srl/Out.hpp write(Ticket)"), ("state reset at the start of the next operation", "src/lib/Environment.cpp set_output")],
 ["bytes and operation log of the simulated device", "stream state and exceptions seen by the caller"])

prop("C05", "Hostile bytes are contained",
 "Reading any sequence of bytes in any format, from memory or from a stream, as a tree or directly into objects, ends after work bounded by the input's size with either a result or the library's exception. It never reads or writes outside its buffers, never depends on uninitialised memory, never crashes, does not allocate memory out of proportion to the input, and refuses to load documents nested deeper than the documented limit.",
 ["inputs", "fault_sequences", "schedules"],
 "every byte sequence (corrupted, spliced, truncated, adversarial or random documents) x every format x every splitting of the transfer x every object type it is read into",
 "The malicious-input tests hold about twenty hand-written byte strings; out-of-bounds reads by one byte, undefined shifts or oversized allocations do not fail them.",
 ["src/lib/PSrl.cpp", "src/lib/PJson.cpp", "src/lib/PMsgPack.cpp", "include/Srl/In.hpp", "src/lib/In.cpp", "src/lib/Node.cpp", RES, "src/lib/ToolsBtsConv.cpp", "src/lib/ToolsStrConv.cpp"],
 [("bounds checks on every read", "include/Srl/In.hpp peek/try_peek"), ("type and size checks on restore", RES + " check_*"), ("nesting limit", "src/lib/Node.cpp read_source")],
 ["sanitizer reports", "executed-step count", "bytes requested from the allocator", "exception type"])

prop("C06", "Running out of memory or descriptors is survivable",
 "If any allocation, or the opening of a character converter, fails during any operation, the operation either completes correctly or throws: it never crashes, corrupts or leaks memory or converter handles. Parts of a tree that existed before the failed operation keep their content, and the tree, format object and containers involved remain usable for further operations.",
 ["fault_sequences", "histories", "inputs"],
 "every operation of the public interface x failure of every single allocation or converter opening it performs, and repeated failures, followed by further operations",
 "No test makes an allocation fail; each operation has hundreds of allocation points and only the failing path exposes links created before their data or pointers left dangling.",
 ["src/lib/Heap.cpp", "include/Srl/Heap.hpp", "include/Srl/Hash.hpp", "src/lib/Environment.cpp", "src/lib/Node.cpp", "include/Srl/Tree.hpp", "src/lib/ToolsStrConv.cpp", RES],
 [("arena owned by the tree", "src/lib/Heap.cpp"), ("links created in the tree's lists", "src/lib/Environment.cpp create_link/store_value"), ("converter handle lifetime", "src/lib/ToolsStrConv.cpp conv_charset")],
 ["exception type", "live allocations and open converter handles after the run", "content of the tree before and after"])

prop("C07", "A reused tree or format object behaves like a fresh one",
 "After any history of operations on a tree and a format object, including operations that failed midway because of bad input, a device fault, a throwing user type or lack of memory, every further load, store, restore, pack or unpack with them behaves exactly as with a freshly constructed tree and format object. Moving a tree moves its content, and a cleared tree is empty.",
 ["histories", "fault_sequences", "inputs"],
 "every finite history of mixed operations, formats, failures and moves on one tree and a set of format objects",
 "Tests use a fresh tree for nearly every operation and never reuse one after a failure.",
 ["src/lib/Tree.cpp", "include/Srl/Tree.hpp", "src/lib/Environment.cpp", "src/lib/PSrl.cpp", "src/lib/PJson.cpp", "src/lib/PMsgPack.cpp", "src/lib/Heap.cpp"],
 [("reset on the next operation", "src/lib/Environment.cpp clear/set_input/set_output"), ("parser reset", "clear() of each parser"), ("arena reset", "src/lib/Heap.cpp clear")],
 ["bytes and content produced, compared with a fresh tree's"],
 [("storing mode", "whether inserts go to the output or into the tree", "include/Srl/Environment.h parsing"), ("shared-object tables", "keys of objects already stored/restored", "include/Srl/Environment.h")])

prop("C08", "Threads working on separate trees do not affect each other",
 "When several threads each use their own trees, format objects, streams and data, every interleaving of their execution gives each thread exactly the results it would get alone. This includes the first use of any part of the library and the creation of registered polymorphic types.",
 ["schedules", "inputs"],
 "every interleaving of 2 to 4 threads running arbitrary operations on disjoint objects, at the granularity of individual memory accesses and synchronisation operations of the library",
 "All tests are single threaded; an interference shows only in particular interleavings of accesses to hidden shared state.",
 ["src/lib/Registration.cpp", "include/Srl/Registration.h", "src/lib/Environment.cpp", "src/lib/ToolsStrConv.cpp", "src/lib/PJson.cpp", "src/lib/Node.cpp", "src/lib/Heap.cpp"],
 [("all mutable state lives in the tree, the format object or the call", "include/Srl/Environment.h"), ("registry filled before use, read-only afterwards", "src/lib/Registration.cpp"), ("function-local constants", "src/lib/Node.cpp, src/lib/PJson.cpp")],
 ["bytes, content and exceptions of each thread, compared with its solo run"])

prop("C09", "Editing a document follows a simple ordered model",
 "A document tree behaves as an ordered list of named values and an ordered list of named child nodes under every history of inserting, looking up, iterating, searching, removing, copying between nodes and wrapping: each operation affects exactly the item addressed, names and contents stay as given independently of the caller's buffers, and references to other items stay valid. Saving and reloading the document at any moment preserves it, and a failed operation reports an error and leaves all earlier content as it was.",
 ["histories", "inputs", "fault_sequences"],
 "every history of edit operations with arbitrary names, encodings, values and addressing (by name, index or pointer, present or not), with save/reload cycles and injected allocation failures in between",
 "Tests perform a few fixed edits on a small tree; aliasing, out-of-range and duplicate-name cases, removal followed by reuse, and copies across trees are not reached.",
 ["src/lib/Node.cpp", "include/Srl/Node.hpp", "include/Srl/Union.hpp", "include/Srl/Value.hpp", "src/lib/Environment.cpp", "include/Srl/ScopeWrap.h", "include/Srl/Heap.h"],
 [("linked lists of values and nodes with hashed names", "src/lib/Node.cpp find_link"), ("copying of names and data into the tree's arena", "src/lib/Environment.cpp store_string/store_value/store_node")],
 ["results of every query", "full content of the document after every operation"])

prop("C10", "The hash table refines a finite map",
 "Under every history of inserting, updating, looking up, removing, extracting, conditional removal, clearing, moving and iterating, the hash table answers exactly as a finite map does, visits each entry exactly once when iterated, and keeps the addresses of entries that are not removed. Every key and value is constructed and destroyed exactly once. An operation that throws, because of lack of memory or a throwing element type, leaves the entries already present intact and the table usable.",
 ["histories", "inputs", "fault_sequences"],
 "every history of operations over arbitrary keys (colliding and equal hashes included), capacities and load factors, with failing allocations and throwing constructors",
 "The table test inserts and removes one fixed sequence with trivially good hashes; moves, clears followed by reuse, updates with non-trivial values and failures are not combined.",
 ["include/Srl/Hash.h", "include/Srl/Hash.hpp", "src/lib/Hash.cpp", "src/lib/Heap.cpp", "include/Srl/Heap.h"],
 [("chained buckets redistributed on growth", "include/Srl/Hash.hpp redistribute/insert_hash"), ("entry recycling", "include/Srl/Hash.hpp mem_cache"), ("arena for entries", "src/lib/Heap.cpp")],
 ["results of every operation", "instance registry of keys and values"])

prop("C11", "Restoring tolerates reordered, extra and absent fields",
 "Restoring an object from a document gives the same result in whatever order the document lists its fields, at every nesting level, and ignores fields, values and nested scopes the object does not know. An absent optional field leaves the member as it was, and an absent mandatory field is an error naming the failure rather than a wrong value. A member gets the same number or text from a value of another kind (numbers of other types, numbers written as text, numbers or truth values for a text), or the restore is refused; only fractions are cut off. Members found by name, members found by their place and items asked for beforehand (has_value, has_node, lookups as a union) can be mixed and each get what the document holds for them. Restoring directly from a source and loading the source first and pasting from the tree give the same object.",
 ["inputs", "histories", "schedules"],
 "every permutation and enrichment of the document of every object, in every format, from memory and from streams with every splitting of the transfer",
 "Tests restore from documents in stored order with no unknown fields, apart from two fixed cases.",
 ["src/lib/Node.cpp", "include/Srl/Node.hpp", "include/Srl/Context.hpp", RES],
 [("fields met out of order are kept aside until asked for", "src/lib/Node.cpp consume_node/consume_value/consume_item"), ("rest of a scope is skipped", "src/lib/Node.cpp consume_scope")],
 ["the restored object", "exceptions"])

prop("C12", "Shared references keep their sharing",
 "An object graph whose members share objects through shared and weak pointers is restored with exactly the same sharing: two references refer to one restored object if and only if they referred to one object when stored, and each shared object's content is stored once and equal after restoring. Storing a graph never depends on graphs stored earlier with the same tree.",
 ["inputs", "histories", "schedules"],
 "every acyclic object graph with sharing (plain and polymorphic, across containers, nesting levels and several stores with one tree, objects freed and others allocated at the same address in between), in every format, through streams or trees",
 "Tests store one pair of shared pointers and one weak pointer; repeated stores with a reused tree, address reuse and sharing across containers are not reached.",
 [RES, "src/lib/Node.cpp", "include/Srl/Environment.h", "src/lib/Environment.cpp", "include/Srl/Tree.hpp", "src/lib/Tree.cpp"],
 [("table from object address to key on storing", "src/lib/Node.cpp insert_shared"), ("table from key to object on restoring", "src/lib/Node.cpp find_shared")],
 ["aliasing pattern and reference counts of the restored graph", "number of payloads in the document"])

prop("C13", "Restored objects are owned and destroyed exactly once",
 "Whether a restore succeeds or fails at any point, every object it constructed is destroyed exactly once, nothing is leaked, and objects the caller already held are either replaced, untouched or safely reset, never left dangling. On success each restored pointer owns exactly the object restored for it.",
 ["fault_sequences", "inputs", "histories"],
 "every object type with owning pointers, containers and polymorphic members x failure of the restore at every point (bad input, missing field, device error, allocation failure, throwing user constructor or resolve method)",
 "No test makes a restore into existing objects fail halfway, and none counts constructions and destructions.",
 [RES, "include/Srl/Registration.h", "src/lib/Node.cpp", "include/Srl/Hash.hpp"],
 [("ownership passed through unique pointers during restore", RES + " Switch for pointers, unique_ptr, shared_ptr"), ("registered factories", "include/Srl/Registration.h create")],
 ["instance registry of a tracked user type", "live allocations after the run", "caller-held pointers after a failure"])

prop("C14", "Documents on the device conform to their published formats",
 "Every JSON document written is well-formed JSON and every MessagePack document is well-formed MessagePack, and an independent reader recovers from them the same structure, names, order and values that were stored. Conversely, any document an independent conforming writer produces within the supported feature set is loaded with the same content, whatever legal encoding choices the writer made, and JSON comments between tokens are passed over. A compact JSON document has no white space between its tokens, and an indented one differs from it in white space only. Documents in the library's own format stay readable and identical across revisions.",
 ["inputs", "configurations", "schedules"],
 "every document x every legal encoding choice of a foreign writer (integer and length widths, escapes, white space, comments, number spellings) x every splitting of the transfer",
 "Tests read back only what the library itself wrote, so symmetric errors of writer and reader (byte order, escapes) cancel out.",
 ["src/lib/PJson.cpp", "src/lib/PMsgPack.cpp", "src/lib/PSrl.cpp", "src/lib/ToolsStrConv.cpp", "src/lib/ToolsBtsConv.cpp", "src/lib/fpconv/fpconv.c"],
 [("escape tables and literal parsing", "src/lib/PJson.cpp"), ("prefix tables and byte order", "src/lib/PMsgPack.cpp"), ("flags, size encoding and string index", "src/lib/PSrl.cpp")],
 ["device bytes decoded by independent readers", "tree loaded from independently written bytes"])

prop("C15", "Piped producer and consumer always finish",
 "When one side stores a document into a pipe and the other restores it from the same pipe, both finish within a bounded number of steps after the last external delay, whatever the pipe's capacity, the delays, and the splitting of the transfers, and the consumer ends up with the stored object. If either side closes early or fails at any point, the other finishes as well, with an error or with the exact object, and never waits for bytes it does not need once the writer has closed.",
 ["schedules", "fault_sequences", "inputs"],
 "every scheduling of the two parties, pipe capacity, delay and splitting, and every point of early close or failure, for every document in the formats that can be written to a pipe",
 "Tests have no second party: every source is complete before reading starts.",
 ["src/lib/In.cpp", "include/Srl/In.hpp", "src/lib/Out.cpp", "include/Srl/Out.hpp", "src/lib/Node.cpp"],
 [("fetch until the requested bytes or end of source", "src/lib/In.cpp try_fetch_data"), ("end-of-source is sticky", "src/lib/In.cpp eof_reached"), ("output handed over as buffers fill, flushed at the end", "src/lib/Out.cpp")],
 ["simulated event history", "results on both sides", "number of simulated steps to quiescence"])

prop("C16", "Number conversions are exact and range checked",
 "Converting any number to text and back, or between numeric types on restore, yields exactly the same number or an overflow error, never a different number.",
 ["inputs"],
 "every numeric value of every type and every numeric text",
 "Tests convert a handful of values.",
 ["src/lib/ToolsStrConv.cpp", "include/Srl/TpTools.h", "src/lib/fpconv/fpconv.c"],
 [("text conversion", "src/lib/ToolsStrConv.cpp type_to_str/str_to_type"), ("checked casts", "include/Srl/TpTools.h apply_type")],
 ["return values"])

prop("C17", "Charset, base64 and hex helpers are inverse pairs",
 "Decoding what the base64, hex or character-set helpers encoded gives back the original bytes or characters for every input, and malformed input is refused.",
 ["inputs"],
 "every byte or character sequence",
 "Tests convert a handful of strings.",
 ["src/lib/ToolsStrConv.cpp", "src/lib/ToolsBtsConv.cpp"],
 [("conversion helpers", "include/Srl/Tools.h")],
 ["return values"])

prop("C18", "Long use does not make memory grow",
 "However long a tree, a format object or a hash table is used, the memory it holds stays bounded. Repeating any sequence of stores, restores, packs, loads, conversions and clears with one tree, and of edits followed by a clear, does not make it hold more and more memory, also when steps of it fail because of bad input, a device fault, a failed allocation or a throwing user type. Repeating any sequence of insertions, removals, updates and moves which leaves a hash table no larger does not make it hold more and more memory either, also when keys or values throw.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of operations on one tree and its format objects, or on one hash table, repeated any number of times x a fault at every point of each operation",
 "Tests use a tree or table once or twice and do not look at the memory it holds; memory lost in a failing step or kept from an earlier document only shows over many repetitions.",
 ["src/lib/Heap.cpp", "include/Srl/Heap.hpp", "include/Srl/Hash.hpp", "src/lib/Environment.cpp", "src/lib/Tree.cpp", "src/lib/PSrl.cpp", "src/lib/PJson.cpp"],
 [("segments and links are reused after a clear", "src/lib/Heap.cpp clear, alloc, put_mem"), ("entries are recycled", "include/Srl/Hash.hpp recycle, create_entry"), ("tables and stores are emptied for each document", "src/lib/Environment.cpp clear")],
 ["bytes allocated by the library which are live after each repetition"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
