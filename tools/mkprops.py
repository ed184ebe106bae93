#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))
SIG = ["include/kl/signal.hpp"]
p("C01", "Signal emission reaches exactly the slots connected when it started",
  "An emission invokes, in connection order (front insertions before, back insertions after the existing slots), exactly once each, every slot that was connected when the emission started and is still connected and unblocked when its turn comes, each with the emitted argument values. Slots connected after the emission started are not visited by it, but are visited by every later emission, nested ones included.",
  ["histories", "programs"], "every history of connect (front/back, free functions, member functions, weak/shared instances, chained signals), disconnect, block and (re-entrant, nested) emit operations, including ones issued from inside slots",
  "signal tests use a handful of fixed scripts with two or three slots; the number of re-entrant histories is unbounded and the failing ones need a particular mix of front/back insertion, nesting and pending removal",
  SIG, [("tail snapshot and slot-by-slot traversal", "signal::operator()"), ("list insertion/removal", "insert_new_slot_locked, remove_slot_locked, cleanup_invalidated_slots_locked")])
p("C02", "A disconnected slot is never invoked again and disconnection is accurate",
  "Once a slot has been disconnected - through any connection referring to it, a scoped connection going out of scope, disconnecting all slots, or the death of the signal - no emission on the same thread starts it again, every handle to it reports disconnected, and the slot count and emptiness of the signal reflect only connected slots. Other slots and other signals are unaffected; copies, moves, swaps, releases and self-assignments of handles never connect or disconnect anything by themselves except that a scoped connection ends the connection it owns when destroyed.",
  ["histories", "programs"], "every history over several signals, slots, connections, scoped connections and their copies/moves, with operations issued both outside and inside running slots",
  "the tests check single disconnects at fixed points; accuracy must survive arbitrary mixes of handle copies, deferred removal during nested emissions and later reuse of the signal",
  SIG, [("slot invalidation and deferred cleanup", "slot_state::disconnect, signal::disconnect, disconnect_all_slots"), ("ownership of handles", "connection, scoped_connection")])
p("C03", "Blocking is counted per slot and only suppresses invocation",
  "While at least one blocker object refers to a slot the slot is skipped by emissions, and as soon as the last one is gone it is invoked again; copying a blocker adds one block, moving or swapping transfers it, destroying or overwriting removes exactly one. A blocked slot stays connected, keeps its position and can be disconnected as usual; blockers may outlive the slot's connection and the signal.",
  ["histories"], "every history of creating, copying, moving, swapping, assigning and destroying blockers, mixed with emissions and disconnections, inside and outside slots",
  "tests cover one or two blockers on one slot; counting errors only show after particular copy/assign/move sequences",
  SIG, [("blocking counter", "slot_state::block/unblock, connection::blocker")])
p("C04", "stop_emission and current_connection act on the innermost running emission",
  "Stopping the emission ends, after the running slot returns, exactly the innermost emission running on the calling thread: enclosing emissions, later emissions and emissions on other threads continue; outside an emission it has no effect. The current connection is, at every moment inside a slot (also after nested emissions returned or threw), the connection of the slot being executed on this thread, and is empty when no emission is running on the thread.",
  ["histories", "schedules"], "every nesting of emissions over several signals and threads, with stops at any point, including exceptions leaving nested emissions",
  "tests nest at most two emissions in fixed shapes and never combine nesting with exceptions or later reuse",
  SIG, [("thread-local emission state saved and restored around each emission", "get_tls_signal_info, signal::operator()")])
p("C05", "Slot callables are destroyed exactly once, never while running, without lockup",
  "The callable of a slot is destroyed exactly once, not before the slot is disconnected, not while any invocation of it is running, and at the latest when the slot is disconnected, all emissions of its signal have ended and all its handles are gone - also when slots throw. A slot that throws ends its emission with that exception and leaves signal, handles and thread state fully usable; destroying a callable whose captured objects themselves use the same signal completes without deadlock.",
  ["histories", "fault_sequences"], "every history of connects, disconnects, handle copies, re-entrant emissions and exceptions thrown from any slot at any nesting depth; captured objects with arbitrary destructors",
  "tests do not throw out of slots in combination with disconnection, and never inspect callable lifetimes after exceptions or re-entrant destructors",
  SIG, [("reference counting of slots", "ref_counted, signal::operator(), connection"), ("removal outside of user code", "disconnect, disconnect_all_slots, cleanup_invalidated_slots_locked")])
p("C06", "Concurrent emit, connect and disconnect on one signal are linearizable",
  "For every interleaving of threads that emit, connect, disconnect, block and query one signal, the observed results equal those of some order of atomic steps consistent with real time: an emission visits in order exactly a snapshot of the connected slots, less those found disconnected or blocked when their turn comes. No interleaving deadlocks, loses or duplicates a slot, uses a destroyed slot, or invokes a slot in an emission that started after its disconnection completed.",
  ["schedules"], "all interleavings, at the granularity of lock and atomic operations, of two or three threads running short programs of signal operations",
  "tests run a few threads under the OS scheduler and sample a vanishing part of the interleavings",
  SIG, [("mutex around list operations, reference per visited slot, deferred removal while any emission is active", "signal::operator(), disconnect, connect, cleanup_invalidated_slots_locked")])
p("C07", "Moving or swapping signals transfers slots and their connections intact",
  "Move construction, move assignment and swap of signals transfer all connected slots with their order, block state and connections: existing connections afterwards disconnect from, and the slots are invoked by, the signal that now owns them, and no slot is lost, duplicated or left behind. Doing so while one of the signals is being emitted terminates the process instead of corrupting it.",
  ["histories"], "every history over two or three signals mixing moves, swaps, self-moves, connects, disconnects and emissions",
  "tests move or swap once in fixed scripts; stale back pointers or tails show only in later operations",
  SIG, [("rebinding of slots to the new owner", "signal(signal&&), operator=(signal&&), swap, rebind_locked")])
RES = ["include/kl/resource.hpp", "include/kl/resource_op.hpp", "include/kl/resource_attributes.hpp"]
p("C08", "A rejected resource request leaves the resource untouched",
  "Every resource request that is answered with a status other than success leaves the observable value of the whole resource and its modification history exactly as before the request, and a later request behaves as if the rejected one had never been made. GET requests and path lookups never change anything.",
  ["inputs", "histories"], "every method, path and body (well-formed or not, failing early or half-way through a nested document) against every reachable resource state",
  "tests check a few rejected bodies; a partially applied update needs a body that is valid for the first members and fails in a later or deeper one",
  RES, [("work on a copy, validate, then commit", "resource_op.hpp: put/patch/post/del operations"), ("tracker notified after commit only", "resource.hpp")])
p("C09", "Resource requests address the right node with the right effect and status",
  "A path selects the node reached by its segments (serialized field names, map keys, child keys of keyed collections, decimal indices of unkeyed sequences, through optionals), or the request fails with not-found. On the selected node GET returns its serialized value, PUT replaces it, PATCH merges into it, POST appends a new element to a growable sequence, DELETE removes a map entry, a sequence element (of a collection that is not itself held by an optional) or the value of an optional, and each answers with the success status of its kind; unsupported methods, undecodable bodies and rejected values answer with method-not-allowed, bad-request and conflict respectively; nodes outside the selected one keep their values.",
  ["inputs", "histories"], "every method, path and body against every reachable state of resources built from structs, maps, sequences, keyed sequences, optionals and scalars",
  "tests enumerate hand-picked requests per node kind, not combinations of nesting, state and method",
  RES + ["include/kl/path.hpp"], [("path traversal and dispatch per node kind", "resource_op.hpp")])
p("C10", "Read-only markers cannot be bypassed by any request",
  "No request addressed to a read-only field, or to anything below (but not at) a field marked subtree-read-only, changes it: PUT, PATCH, POST and DELETE there answer method-not-allowed and change nothing, while GET still works. A read-only marker protects only requests addressed to that very node: children of a read-only field and parents of a protected field stay writable, except that elements cannot be added to or removed from a read-only collection.",
  ["inputs", "histories"], "every method and path into resources with read-only and subtree-read-only fields at any depth, including through optionals, maps, keyed and plain sequences",
  "tests try the markers on a few paths; a bypass needs a particular method, depth and container kind",
  RES, [("access checks during traversal", "resource_op.hpp")])
p("C11", "Child keys in keyed collections stay unique and stable under all requests",
  "After every successful request all elements of a keyed collection, at any depth, have pairwise different child keys; a request that would create a duplicate, or change the key by which an element is addressed (in whole, in part or by addressing the key itself), is refused without effect. Elements of keyed collections are addressed by key only, and a key always addresses the element carrying it regardless of position.",
  ["inputs", "histories"], "every sequence of PUT, PATCH, POST and DELETE requests on the collection, its elements, its ancestors and its key fields",
  "tests try one duplicate and one key change; whole-tree replacement, nested keyed collections and patches of parents give many more routes",
  RES, [("uniqueness and identity validation before commit", "resource_op.hpp: validate_unique_child_keys, identity checks")])
p("C12", "Modification tracking reports exactly the changed nodes and their ancestors",
  "The generation starts at one and grows by exactly one with every successful modifying request and never otherwise. A node counts as changed since a generation exactly if a later successful request modified it, one of its ancestors as a whole, or something below it; unrelated siblings never count as changed. Adding or removing an element (or map entry) modifies its collection as a whole, and replacing, merging or clearing a value modifies everything below it.",
  ["inputs", "histories"], "every sequence of requests followed by every query of (path, generation)",
  "tests query a few paths after one or two requests",
  RES, [("per-node generation marks", "resource.hpp: modification_tracker / resource_op.hpp notifications")])
p("C13", "Path parsing is canonical and can never climb above the root",
  "Parsing splits at slashes, drops empty and '.' segments, lets '..' remove the preceding segment and stop at the root, and only then percent-decodes each segment, so encoded dots or slashes never act as navigation; malformed escapes and encoded slashes are rejected with a path error that leaves the path as it was. Indexing, size, prefix, front/back dropping and joining agree with that segment list, and re-parsing a joined path of plain segments gives the same path.",
  ["inputs"], "every byte string as path, and every prefix/drop combination of the result",
  "tests list some dozens of paths; traversal escapes hide in unusual combinations of dots, slashes and escapes",
  ["include/kl/path.hpp", "src/path.cpp"], [("segment normalisation then decoding", "src/path.cpp")])
JS = ["include/kl/json.hpp", "include/kl/detail/serialization.hpp", "include/kl/serialization.hpp", "src/json.cpp"]
p("C14", "JSON serialization round-trips and both encoders agree",
  "For every value of a supported type (numbers, strings, booleans, enums, flags, optionals, sequences, maps, tuples, reflected structs and nestings of them, without fields that are declared as skipped) deserializing its serialized form yields an equal value. The streaming encoder and the document encoder produce the same JSON document, with fields under their declared names and in declaration order.",
  ["inputs", "programs"], "all values of representative nested types, including boundary integers, empty containers, null optionals, special characters in strings and keys",
  "tests compare fixed values against fixed strings, mostly for one of the two encoders",
  JS, [("encode/dump overloads and contexts", "json.hpp"), ("reflection-driven walk", "detail/serialization.hpp")])
p("C15", "JSON scalars and containers decode losslessly or are rejected",
  "Decoding a JSON value into a C++ type either yields exactly the value the document denotes (for floating-point targets: the nearest one) or raises a deserialization error; integers that do not fit the target, fractions for integers, wrong JSON kinds, unknown enum names, too long sequences for tuples, fixed-size arrays and structs, and nulls or absent elements for non-nullable targets are never silently altered or dropped.",
  ["inputs"], "every JSON value against every supported target type",
  "tests try a few out-of-range values for some types",
  JS, [("range-checked conversion", "json.hpp: decode overloads / detail/serialization.hpp")])
p("C16", "Field attributes decide decoding and encoding of structs exactly as declared",
  "A struct decodes from an object exactly if every field without default, missing-allowance or nullability is present under its serialized name or one of its aliases (the name wins over aliases, earlier aliases over later ones), every present field decodes, and all validations of decoded fields pass; otherwise a deserialization error is raised that names the offending field. A missing or null field with a default takes the default, a missing one that may be missing keeps its old value, and decoding from an array takes the fields by position. Rename, alias, default, allow-missing, skip, null-emission, flatten, extra-fields and range/validate attributes each have only their declared effect, in both directions and both encoders.",
  ["inputs", "programs"], "every JSON document (object or positional array) against structs using every attribute and combinations of them",
  "the only test file exercising most attributes is not part of the build here, and it uses fixed documents",
  JS + ["include/kl/serialization_attributes.hpp"], [("attribute policies", "detail/serialization.hpp")])
p("C17", "Patching changes exactly the members the patch mentions",
  "Applying a JSON object as a patch to a struct changes exactly the members mentioned in it (under name or alias), recursively through nested structs, engaged optionals, flattened members and extra-field entries; members not mentioned keep their value, null resets nullable and defaulted members, and everything else (scalars, sequences, maps, tuples, non-object patches) is replaced as a whole by what plain decoding of that part gives. A mentioned member that does not decode or validate makes the patch fail with a deserialization error.",
  ["inputs"], "every patch document against every value of types built from structs, optionals, maps, sequences and scalars",
  "patching is covered by a handful of fixed examples",
  JS, [("patch walk", "detail/serialization.hpp, json.hpp")])
BIN = ["include/kl/binary_rw.hpp", "include/kl/binary_rw/*.hpp"]
p("C18", "Binary reader and writer never leave their buffer and errors are sticky",
  "For every sequence of operations the cursor of a binary reader or writer stays within its buffer, no byte outside is touched, the number of bytes left is accurate, and an elementary operation (raw value, span, skip) that does not fit fails without moving the cursor and marks the stream as failed; a failed stream stays failed and every later operation fails without moving it or storing anything. Peeking a value never moves the cursor and never marks the stream as failed.",
  ["inputs", "histories"], "every sequence of reads, peeks, skips (forward, backward, extreme distances), span views, writes and error notifications over buffers of every small size",
  "tests perform short fixed sequences",
  BIN, [("bounds checks and error flag", "binary_rw.hpp")])
p("C19", "Binary encoding round-trips and malformed input is rejected safely",
  "Writing any supported value (integers in either byte order, strings, vectors, maps, sets, pairs, optionals, variants and nestings) into a large enough buffer and reading it back gives an equal value and consumes exactly the bytes written. Reading any other byte string either yields the value it encodes or fails with the error mark set - without exceptions, allocations out of proportion to the input, partially filled containers or optionals set to a value that was not there.",
  ["inputs"], "all values of representative types and all byte strings, including every truncation and corruption of valid encodings and extreme length fields",
  "tests use fixed encodings and one or two truncations",
  BIN, [("length-prefixed container codecs", "binary_rw/*.hpp")])
p("C20", "Base64 encodes canonically and decodes only valid input",
  "Encoding any byte string and decoding it again returns it, for the standard and the URL alphabet, and encoding is the canonical RFC 4648 text (padded, respectively unpadded). Decoding rejects every text with foreign characters or impossible length or padding (the URL decoder also takes up to two padding characters at the end), never touches memory outside the input, and returns exactly the whole bytes that accepted text stands for.",
  ["inputs"], "every byte string and every text",
  "tests use the RFC vectors and a few invalid strings",
  ["include/kl/base64.hpp", "src/base64.cpp"], [("table-driven codec", "src/base64.cpp")])
p("C21", "Exception details behave as one stack of values per tag, last writer wins",
  "For every history of attaching, overwriting, removing and querying details on exception objects, a query returns the value most recently attached under that tag and not removed since, or nothing; removing the latest value brings back the one attached before it. Attaching or removing one tag never affects another, nothing done to one object affects another object, also when one is a copy of the other, and details survive throwing, rethrowing, copying and moving the exception. The printed diagnostics list exactly the attached details.",
  ["histories"], "every sequence of attach/remove/query over several tags and exception copies",
  "tests attach a few tags in fixed order",
  ["include/kl/exception_info.hpp"], [("linked detail nodes", "exception_info.hpp")])
p("C22", "Enum sets, ranges and reflection agree with the enumeration itself",
  "Enum sets obey set algebra (insertion, removal, union, intersection, difference, membership, emptiness, equality) for every operand; enum ranges visit every enumerator of the declared interval exactly once in order, with consistent iterator distance and ordering; name/value conversion is a bijection on declared enumerators and rejects everything else.",
  ["inputs", "histories"], "all operand combinations over small enumerations, all iterator pairs, all strings and underlying values",
  "tests check individual operations on few operands",
  ["include/kl/enum_set.hpp", "include/kl/enum_range.hpp", "include/kl/enum_reflector.hpp", "include/kl/enum_traits.hpp", "include/kl/reflect_enum.hpp"],
  [("bit operations", "enum_set.hpp"), ("iterator facade", "enum_range.hpp")])
p("C23", "Splitting, joining and zipping preserve elements and order",
  "Splitting a text yields exactly the pieces between delimiters in order, honouring the chosen treatment of empty pieces; joining elements with a delimiter yields the elements in order separated by exactly one delimiter each, so that joining the pieces of a full split restores the text up to one delimiter at its very end (no empty piece follows a final delimiter). A zipped range visits the tuples of equally indexed elements up to the shortest operand and gives access to the original elements.",
  ["inputs"], "every text, delimiter set and element sequence",
  "tests use a few literal strings",
  ["include/kl/split.hpp", "include/kl/stream_join.hpp", "include/kl/zip.hpp", "include/kl/range.hpp"], [("find/substr loop", "split.hpp"), ("lazy join", "stream_join.hpp"), ("tuple iterators", "zip.hpp")])
p("C24", "A file view equals the file content or fails cleanly, leaking nothing",
  "Opening a file view of a regular file either gives a view of exactly the file's bytes, which stays readable until the view is destroyed even if the file is removed or replaced meanwhile, or throws a system error carrying the error of the system call that failed; an empty file gives an empty view and a missing one an error. Whatever system call fails, no descriptor or mapping remains after construction failed or the view was destroyed, and nothing is released twice.",
  ["fault_sequences", "inputs"], "every file size around page boundaries and every failing system call on the way",
  "tests open existing and missing files only; no fault is injected",
  ["include/kl/file_view.hpp", "src/file_view_unix.cpp"], [("open/fstat/mmap sequence with rollback", "src/file_view_unix.cpp")])
p("C25", "Hash functions compute their published values at run time and compile time",
  "For every byte string the FNV-1a function gives the published 32-bit FNV-1a value and the Hsieh function the published SuperFastHash value, whichever overload (pointer and length, string, character array, literal suffix) is used and whether evaluated by the compiler or at run time, so that a switch over literal hashes takes the branch of an equal text. No byte outside the given range is read, and a character array without terminator is refused.",
  ["inputs"], "every byte string, including empty ones, embedded zeros and bytes above 127, for every overload",
  "tests compare a handful of ASCII literals", ["include/kl/hash.hpp"], [("constexpr loops over bytes", "hash.hpp")])
p("C26", "Deferred actions run exactly once, in reverse order, however the scope is left",
  "An action deferred in a block runs exactly once, when control leaves that block - by falling off the end, return, break, continue, goto or an exception - never earlier, and never if its declaration was not reached. The actions of a block run in reverse order of declaration, before anything of the enclosing block, and see the variables of the block as they are at that moment.",
  ["inputs", "schedules"], "all nestings of blocks with deferred actions and all ways out of them, including actions that contain blocks with deferred actions of their own",
  "tests use one or two scopes with a fixed way out", ["include/kl/defer.hpp"], [("scope guard around a capturing lambda", "defer.hpp")])
YM = ["include/kl/yaml.hpp", "src/yaml.cpp", "include/kl/detail/serialization.hpp", "include/kl/serialization.hpp"]
p("C27", "YAML encoding round-trips and both encoders agree",
  "For every value of a serializable type, writing it to a YAML emitter and building a YAML tree from it give the same document, which is the one its declaration and field attributes promise (names, order, omitted nulls and empties, flattened and extra fields), and decoding that document gives the value back wherever nothing was left out. Texts that look like other YAML scalars (null, numbers, booleans, empty text, control characters) come back as the same texts, and 8-bit integers are written as numbers.",
  ["inputs"], "all values of representative types (scalars of every width, texts, optionals, sequences, maps, tuples, enumerations, flag sets, nested and attributed structs, hand-written serializers)",
  "tests compare a few literals, and the YAML tests are not even part of the default build here", YM, [("emitter and tree back ends", "yaml.hpp"), ("shared encoder", "detail/serialization.hpp")])
p("C28", "YAML documents decode to exactly what they say or are rejected",
  "Decoding a YAML document into a declared type succeeds exactly when every node has the kind the type asks for and every scalar denotes a value representable in it, field attributes (names, aliases, defaults, allowed absence, validators, flattened and extra fields) being honoured as declared, and then gives exactly that value; otherwise it throws a deserialization error naming the member concerned and no other exception. Decoding never changes the document.",
  ["inputs"], "every YAML document, in particular every small damage to a valid one, for every representative type and scalar notation (decimal, hexadecimal, octal, boolean words, quoted texts, null forms, non-scalar keys)",
  "tests decode fixed documents", YM, [("scalar conversion and kind checks", "yaml.hpp, src/yaml.cpp"), ("shared decoder", "detail/serialization.hpp")])
p("C29", "YAML patching changes exactly the members the patch mentions",
  "Applying a YAML mapping as a patch to a struct changes exactly the members mentioned in it (under name or alias), recursively through nested structs, engaged optionals, flattened members and extra fields; all other members keep their value, null resets nullable and defaulted members, and everything else is replaced by what plain decoding of that part gives. A mentioned member that does not decode or validate makes the patch fail with a deserialization error.",
  ["inputs"], "every patch document against every value of the representative types",
  "patching YAML is covered by a handful of fixed examples", YM, [("patch walk", "detail/serialization.hpp, yaml.hpp")])
p("C30", "Views of parsed documents never alter the documents",
  "A JSON or YAML view denotes the document node it was last bound to - by decoding a node, a member, a struct or a sequence into it, or by copying or swapping views - and reading or encoding it gives exactly that node's content; an absent member reads as null. No history of binding, rebinding, copying, swapping, erasing or encoding views changes any document or what any other view denotes.",
  ["histories", "inputs"], "every history of operations on several views over several documents",
  "tests bind a view once and read it", ["include/kl/yaml.hpp", "include/kl/json.hpp"], [("node handles", "class view")])
p("C31", "Struct reflection visits every declared field once, in order, as itself",
  "Reflecting an object visits exactly the fields its declarations list - those of the base classes first, in the order of the bases, then its own - once each and in order, under the declared name, each designating that very member of that very object (constant exactly when the object or member is), so that assigning through a field changes that member and nothing else; reflecting the type alone yields the same names and value types, and the number of fields agrees. Attributes are found on the field they were declared on: a query matches the attribute class itself and classes publicly derived from it, in declaration order and with their values, and attributes a filter excludes are not even evaluated.",
  ["inputs", "histories"], "every hierarchy of reflected structs (several bases and levels, hidden and re-listed members, private members, hand-written accessors) with every combination of attributes",
  "tests reflect about ten fixed structs", ["include/kl/ctti.hpp", "include/kl/reflect_struct.hpp", "include/kl/detail/macros.hpp"], [("generated visit functions", "reflect_struct.hpp"), ("field objects and attribute lookup", "ctti.hpp")])
p("C32", "Iterators built on the facade obey position arithmetic",
  "For every iterator implementation built on iterator_facade, all operators act as arithmetic on positions: moving by any signed distance, differences, order and equality agree with each other, postfix forms return the old position and prefix and compound forms the iterator itself, and copies move independently. Dereferencing, the arrow and subscripts give the element at that position - the element itself for references, a copy for value-returning iterators - so standard algorithms work on them.",
  ["histories", "inputs"], "every history of operators on several iterators into one sequence, for every iterator category and reference kind",
  "tests walk one vector with fixed steps", ["include/kl/iterator_facade.hpp"], [("operators derived from six primitives", "iterator_facade.hpp")])
p("C33", "Matching a variant or walking a tuple touches exactly the right elements",
  "Matching a variant runs exactly one handler, the one overload resolution selects for the held alternative, on the stored value itself (so changes stay visible), and returns that handler's result or propagates its exception; an empty variant raises bad_variant_access and runs none, and plain functions can take part as handlers. The tuple utilities visit each element once in order, give references to what elements point to, and report two tuples as different only when all corresponding elements differ.",
  ["inputs"], "every alternative and value, every set of handlers, every tuple",
  "tests match a few literals", ["include/kl/match.hpp", "include/kl/tuple.hpp"], [("overload set passed to std::visit", "match.hpp"), ("folds over index sequences", "tuple.hpp")])
p("C34", "Builders and extractors put together and take apart documents exactly as asked",
  "A document made with the JSON or YAML builders contains exactly the added elements, in order, each under its name and with the encoding of its value, even if a name passed as dynamic does not outlive the call. Looking up an index or a name gives that element, or null if there is none, and never changes the document. Reading from an extractor gives what decoding that element gives; sequential reading moves on by one element per success and stays put on failure, and a failure names the element it concerns.",
  ["inputs", "histories"], "every sequence of additions, lookups and readings, successful or not, over every document",
  "tests build a few fixed documents and read them back in order", ["include/kl/json.hpp", "include/kl/yaml.hpp"], [("array_builder, object_builder, array_extractor, object_extractor, at", "json.hpp"), ("sequence_builder, map_builder, sequence_extractor, map_extractor, at", "yaml.hpp")])
p("C35", "A decoding error tells the whole way to the part that does not fit",
  "When decoding or patching a JSON or YAML document fails, the error's message names, from the offending part outwards, every struct field (by its declared name), map key or extra-field key, and zero-based sequence or positional index that lies on the way from the outermost value to the first part that does not decode or validate; optionals, tuples and flag sets add no step. Each step is on a line of its own, so the innermost step is the first one named.",
  ["inputs"], "every document that does not decode or patch into every supported type, at any nesting depth",
  "tests compare the messages of a few hand-written failures one or two levels deep", ["include/kl/detail/serialization.hpp", "include/kl/serialization_error.hpp", "src/serialization_error.cpp", "include/kl/json.hpp", "include/kl/yaml.hpp"], [("catch/add/rethrow at each level", "detail/serialization.hpp deserialize_adl, patch"), ("deserialize_error::add", "src/serialization_error.cpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
