import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
ENC="oct/src/encode/encode/mod.rs"; DEC="oct/src/decode/decode/mod.rs"; SZ="oct/src/encode/sized_encode/mod.rs"
IN="oct/src/decode/input/mod.rs"; OUT="oct/src/encode/output/mod.rs"
p("C01","Encoding then decoding gives the same value back",
"For every type that can be both encoded and decoded and every value of it that encodes without error, decoding the encoding of that value succeeds and gives an equal value (bit-identical for floats; system times keep whole seconds, rounded towards the epoch; maps and sets keep the same entries). Exactly the bytes that were written are consumed, whatever follows them in the buffer. This holds for the built-in implementations and any nesting of them.",
["inputs","programs"],"all values of all encodable-and-decodable types, nested in each other",
"The tests decode one or two hand-written byte strings per type and never round-trip a value; a wrong field order, width, sign or length in one impl is only visible for particular values, lengths and nestings.",
[ENC,DEC,"oct/src/sized_slice/code.rs","oct/src/sized_str/code.rs"],
[("Encode impls",ENC),("Decode impls mirroring them",DEC)],["Encode::encode, Decode::decode, Output::position, Input::position"])
p("C02","The byte format is the documented one",
"Every value encodes to exactly the documented format: little-endian fixed-width numbers, sizes as 16 bits, booleans and option/result signs as one byte (0 none/ok, 1 some/error), characters as 32-bit code points, a 16-bit element count in front of slices, vectors, lists, strings, C strings (without terminator), sized slices/strings, maps and sets but not in front of arrays, tuples and struct fields in declaration order, and enumerations as discriminant followed by fields. The bytes depend only on the value (entries of maps and sets come in unspecified order), and pointers, cells, locks, wrappers and borrowed forms encode exactly like what they contain. Nothing beyond the encoding is written to the output.",
["inputs","programs"],"all values of all encodable types, nested in each other",
"The tests compare the encoding of one value for a dozen types; an encoder and decoder changed together still round-trip, so only an independent model of the format over the whole value range shows a drift.",
[ENC,"oct/src/sized_slice/code.rs","oct/src/sized_str/code.rs","oct-macros/src/impls/encode_enum.rs"],
[("to_le_bytes numerics",ENC+" impl_numeric!"),("length specifier",ENC+" impl Encode for [T]"),("enumeration discriminants","oct-macros/src/impls/encode_enum.rs")],["bytes in the output buffer"])
p("C03","The declared maximum size bounds every encoding",
"For every type with a declared maximum encoded size, no value encodes to more bytes than that maximum and no successful decoding consumes more. A buffer or slot of exactly the declared maximum therefore always suffices. For types whose size does not vary the maximum is the exact size, and for all provided types and derived types some value attains it (unless the 16-bit count prevents a larger capacity from being filled).",
["inputs","programs"],"all values of all types with a maximum size, including derived ones and all capacities",
"The tests assert constants for some thirty types and never encode the largest value into a buffer of that size; a wrong bound shows up only for the largest variant, a full container or a particular nesting.",
[SZ,"oct/src/sized_slice/code.rs","oct/src/sized_str/code.rs","oct-macros/src/impls/sized_encode_enum.rs","oct-macros/src/impls/sized_encode_struct.rs","oct/src/slot/mod.rs"],
[("MAX_ENCODED_SIZE constants",SZ),("maximum over variants","oct-macros/src/impls/sized_encode_enum.rs"),("Slot::new","oct/src/slot/mod.rs")],["SizedEncode::MAX_ENCODED_SIZE","Output::position"])
p("C04","Chained encodings are independent and self-delimiting",
"Encoding values one after another into one output gives the concatenation of their separate encodings, and decoding the same types in order from one input gives the values back with the input positioned after each. What precedes or follows a value in a buffer, and what the buffer held before, never changes how it is encoded or decoded. A failed or successful call on one stream has no effect on later calls on other streams.",
["histories","inputs"],"all sequences of encodable values up to a bounded length, all start offsets and buffer contents",
"The tests chain at most a handful of equal-typed values; a decoder that reads one element too many, or an encoder relying on a zeroed buffer, needs a follow-up value or dirty buffer to show.",
[ENC,DEC,IN,OUT,"oct/src/sized_slice/code.rs"],
[("cursor of the streams",IN+", "+OUT)],["stream position after each call","bytes around the encoding"])
p("C05","Decoders accept exactly the valid byte sequences",
"Decoding a byte sequence that is long enough succeeds if and only if it is valid for the type: surrogate and out-of-range code points, malformed UTF-8, zero for non-zero integers, NUL inside C strings, unassigned discriminants and counts beyond a fixed capacity are refused with an error that names the offending value, index and capacity. Booleans and option/result signs accept any non-zero byte as true, and counts are honoured exactly. A decoder never panics on a sequence that is long enough and never produces a value that is invalid for its type.",
["inputs"],"all byte sequences up to a bounded shape for every decodable type",
"The tests feed five malformed inputs; the refused sets (2048 surrogates, UTF-8 automaton, 2^16 discriminants, every count) are far larger and each bound can be off by one or off by a digit.",
[DEC,"oct/src/sized_slice/code.rs","oct/src/sized_str/code.rs","oct/src/sized_str/conv.rs","oct-macros/src/impls/decode_enum.rs"],
[("code point range check",DEC+" impl Decode for char"),("UTF-8 validation",DEC+" impl Decode for String"),("capacity check","oct/src/sized_slice/code.rs"),("discriminant match","oct-macros/src/impls/decode_enum.rs")],["result of Decode::decode"])
p("C06","Truncated input and short output never pass unnoticed",
"If the input ends before the encoding of a value does, decoding never returns a value; if the output is too small for an encoding, encoding never reports success. No byte outside the given buffers is ever read or written, at any truncation point or capacity. The streams stay usable and in bounds afterwards.",
["fault_sequences","inputs"],"every truncation point of every encoding and every output capacity below the encoded size, for every type",
"The tests never truncate an input or undersize an output; the property must hold at each of the boundaries inside every composite type.",
[IN,OUT,ENC,DEC],
[("remaining-capacity test",IN),("remaining-capacity test",OUT)],["result or panic of encode/decode","bytes around the buffers"])
p("C07","Unencodable values are refused, never truncated",
"A size or signed size outside 16 bits, a collection or string with more than 65535 elements, a discriminant that does not fit, and a cell that is mutably borrowed are refused with an error carrying the exact offending value and, within a collection, the exact index of the item. Every value inside the domain is accepted. No error ever turns into a silently shortened or wrapped encoding.",
["inputs"],"all values at and beyond the edges of the encodable domain, at every position of every container",
"No test encodes a value outside the domain; the boundary is at 65535/65536 and 32767/-32768 and has to hold in every collection type and at every index.",
[ENC,"oct/src/error/usize_encode_error.rs","oct/src/error/isize_encode_error.rs","oct-macros/src/impls/encode_enum.rs"],
[("try_from to 16 bits",ENC+" impl Encode for usize/isize"),("item index in errors",ENC)],["Err payload of Encode::encode"])
p("C08","Stream cursors move exactly with successful operations",
"An input or output stream always satisfies position + remaining = capacity; a successful read or write of n bytes moves the position by exactly n and transfers exactly those n bytes in order, and an operation for which fewer than n bytes remain (for any n) fails with the stream's capacity, position and the requested count and changes nothing. What was written so far is always visible unchanged through the output's views. This holds after any sequence of operations.",
["histories"],"all sequences of stream operations over small buffers, with counts from zero to the largest representable",
"No test uses the streams' methods directly beyond one read; failure followed by further use and extreme counts are never exercised.",
[IN,OUT,"oct/src/error/input_error.rs","oct/src/error/output_error.rs"],
[("Input::read/read_into",IN),("Output::write/as_slice",OUT)],["position/remaining/capacity/as_slice"],
[("pos","cursor position","oct/src/decode/input/mod.rs, oct/src/encode/output/mod.rs")])
p("C09","The views of a slot always show exactly its used bytes",
"A slot's length never exceeds its capacity, its capacity and allocation never change, and all shared views (slice, reference, comparison, indexing, formatting) show exactly the used bytes while the mutable view covers the whole buffer. Writing a value makes the used bytes exactly its encoding, reading decodes from exactly the used bytes, and setting a length or copying a slice beyond the capacity panics without any effect. A failed write or read leaves the length alone (which of the bytes a failed write overwrote is unspecified). This holds after any sequence of operations.",
["histories"],"all sequences of slot operations up to a bounded depth over small capacities",
"One test writes and reads a single char; stale bytes, partial overwrites, failed writes and length changes only matter in sequences.",
["oct/src/slot/mod.rs"],
[("len/capacity bookkeeping","oct/src/slot/mod.rs")],["Slot accessors"],
[("len","number of used bytes","oct/src/slot/mod.rs"),("buf","the allocation","oct/src/slot/mod.rs")])
p("C10","Sized slices behave like a bounded vector",
"A sized slice behaves like a vector of at most its capacity: construction keeps exactly the given elements or refuses with capacity and length (collecting from an iterator keeps the longest prefix that fits and takes no more than it needs to know), and copying, cloning, converting, borrowing per element, indexing, mutating and iterating act as they do on a vector with the same elements. Its length never exceeds the capacity and never changes except by copying into it or setting it. This holds for any sequence of operations, element type and capacity including zero and zero-sized elements.",
["histories","inputs"],"all sequences of sized slice operations up to a bounded depth, small capacities, several element types",
"One test collects one full iterator; partially filled slices, capacity zero, zero-sized elements and sequences of operations are untested.",
["oct/src/sized_slice/mod.rs","oct/src/sized_slice/conv.rs","oct/src/sized_slice/iter.rs"],
[("buf/len invariant","oct/src/sized_slice/mod.rs")],["SizedSlice accessors"],
[("len","number of initialised elements","oct/src/sized_slice/mod.rs")])
p("C11","Sized strings are always valid, bounded UTF-8",
"A sized string always holds valid UTF-8 of at most its capacity in bytes and equals the string it was made from; anything too long or malformed is refused with the exact capacity and length or byte and index, and collecting characters keeps the longest prefix of whole characters that fits. All views, conversions, formatting, parsing and in-place edits agree with the standard string operations on the same contents. The raw parts are fully initialised and rebuild the same string.",
["inputs","histories"],"all byte strings up to a bounded length over the UTF-8 byte classes and all operation sequences up to a bounded depth",
"The tests construct a few strings and one malformed one; characters straddling the capacity, every malformed sequence class and edits in place are not reached.",
["oct/src/sized_str/mod.rs","oct/src/sized_str/conv.rs","oct/src/sized_str/cmp.rs"],
[("from_utf8 validation","oct/src/sized_str/conv.rs"),("from_iter","oct/src/sized_str/mod.rs")],["SizedStr accessors"])
p("C12","The owning iterator yields each element exactly once",
"The iterator of a sized slice yields exactly the slice's elements, in order from the front and in reverse from the back, each once however front, back, skipping, cloning and slice access are interleaved. The reported remaining length is always exact, an exhausted iterator stays exhausted, and a clone continues independently from the same point. Adaptors built on it therefore agree with the same adaptors on a vector's iterator.",
["histories"],"all interleavings of iterator operations until exhaustion for small lengths and capacities",
"Two tests follow one interleaving each, and one of them even pins a skipped element not being consumed; length reporting and most interleavings are not covered.",
["oct/src/sized_iter/mod.rs","oct/src/sized_slice/iter.rs"],
[("pos/len window","oct/src/sized_iter/mod.rs")],["Iterator methods"],
[("pos","index of the first remaining element","oct/src/sized_iter/mod.rs"),("len","number of remaining elements","oct/src/sized_iter/mod.rs")])
p("C13","Every owned element is dropped exactly once",
"Whatever is decoded, converted, iterated or discarded, every owned element is dropped at most once and never used after that, and memory is freed with the layout it was allocated with. When decoding a collection fails or panics part way, all elements decoded before are dropped and nothing leaks. Successfully produced values hand over each element exactly once.",
["fault_sequences","histories"],"every position at which decoding, cloning or an iterator can fail or panic, and all bounded sequences of ownership-moving operations",
"The tests only use element types without destructors and never make a decoder fail inside a collection, so double drops and leaks are invisible to them.",
[DEC,"oct/src/sized_slice/conv.rs","oct/src/sized_slice/mod.rs","oct/src/sized_slice/code.rs","oct/src/sized_iter/mod.rs"],
[("partial initialisation guards",DEC),("moves out of MaybeUninit buffers","oct/src/sized_slice/conv.rs")],["destructor calls, allocator calls"])
p("C14","Safe use never causes undefined behaviour",
"No sequence of calls to the safe interface, and no unsafe call made within its documented requirements, reads uninitialised, freed or out-of-bounds memory, creates an invalid value or breaks aliasing rules. This includes empty, full and zero-sized contents, malformed input and error paths.",
["histories","inputs"],"all bounded sequences of safe operations on every container, stream and slot, executed under an interpreter that checks each memory access",
"Undefined behaviour usually still gives the expected result in a compiled test; none of the tests is run under an interpreter, nor do they reach the unsafe code's edges.",
["oct/src/sized_slice/mod.rs","oct/src/sized_slice/conv.rs","oct/src/sized_str/conv.rs","oct/src/sized_iter/mod.rs","oct/src/slot/mod.rs",IN,OUT,DEC],
[("unsafe blocks","all files listed")],["Miri diagnostics"])
p("C15","Comparison and hashing agree with the contents",
"Sized slices, sized strings, slots and output streams compare with each other and with slices, arrays, vectors and strings exactly as their used contents do, across different capacities and unaffected by unused space. Ordering is total and consistent with equality wherever it is offered, and equal contents hash equally, also to the hash of the slice or string they can be borrowed as. Lookups in maps and sets by the borrowed form therefore find exactly the right entries.",
["inputs"],"all pairs and triples of contents up to a bounded length over a small alphabet, all capacities and histories of the unused part",
"The tests compare three strings; hash consistency, cross-capacity comparisons and stale unused space are not covered.",
["oct/src/sized_slice/cmp.rs","oct/src/sized_slice/mod.rs","oct/src/sized_str/cmp.rs","oct/src/sized_str/mod.rs","oct/src/slot/mod.rs",OUT],
[("comparison through the used slice","oct/src/sized_slice/cmp.rs, oct/src/sized_str/cmp.rs")],["==, <, cmp, Hash"])
p("C16","Derived implementations follow the type definition",
"For every struct or enumeration whose fields are supported, the derived implementations compile and encode the fields in declaration order, enumerations preceded by the variant's discriminant in the declared representation (signed size when none is given; explicit values, implicit successors), decode exactly what they encode, refuse unassigned discriminants with the raw value, and report field errors with their cause. The derived maximum size is the sum of the fields, or the discriminant plus the largest variant. Unit, tuple and named forms, generic parameters and lifetimes are all handled alike.",
["programs","inputs"],"all type definitions of a bounded grammar (field counts, kinds, representations, discriminant assignments, generics) and bounded values of each",
"The tests derive for four fixed types; a macro has to be right for every definition a user may write.",
["oct-macros/src/impls/encode_enum.rs","oct-macros/src/impls/decode_enum.rs","oct-macros/src/impls/encode_struct.rs","oct-macros/src/impls/decode_struct.rs","oct-macros/src/impls/sized_encode_enum.rs","oct-macros/src/impls/sized_encode_struct.rs","oct-macros/src/discriminants/mod.rs","oct-macros/src/repr/mod.rs","oct-macros/src/generic_name/mod.rs"],
[("Discriminants iterator","oct-macros/src/discriminants/mod.rs"),("Repr::get","oct-macros/src/repr/mod.rs")],["derived encode/decode/maximum size"])
p("C17","Every feature combination builds and behaves alike",
"The library builds with every subset of its optional features, and every type that is available under a subset encodes, decodes, refuses and reports exactly as it does with all features. Turning a feature off only removes items that the documentation attributes to it.",
["configurations"],"all eight subsets of the features alloc, proc-macro and std",
"The tests are only built with the default features; no other configuration is ever compiled.",
["oct/Cargo.toml","oct/src/lib.rs",ENC,DEC,SZ,"oct/src/error/generic_decode_error.rs"],
[("cfg attributes","throughout oct/src")],["build result; encodings per configuration"])
p("C18","Encoding shared and lazily built values is consistent",
"Encoding a value behind a mutex, read-write lock or lazy cell takes place entirely while the value is held, so that it reflects one consistent state under every interleaving with writers, and releases it again however encoding ends. A poisoned lock still encodes its contents, a read-locked lock can be encoded by other readers, a reference cell refuses to be encoded exactly while it is mutably borrowed, and a lazy value is initialised at most once. Encoding never changes the shared value.",
["schedules","fault_sequences"],"all interleavings of two or three threads encoding and mutating a shared value, all outcomes of the inner encoding and all borrow or poison states",
"No test encodes a lock from more than one thread, under poison, while borrowed, or with a failing or panicking inner value.",
[ENC],
[("lock held for the duration of the inner encode",ENC+" impl Encode for Mutex/RwLock/RefCell/LazyLock/LazyCell/Cell")],["encodings, lock and borrow states after each operation"])
p("C19","Owned, borrowed and sized forms are interchangeable",
"Whatever is encoded from one form of a value (slice, vector, list, sized slice of any capacity; string slice, string, sized string of any capacity; C string; box, shared pointer, cell, lock, clone-on-write, atomic, wrapping number or the plain value) decodes into every other form of the same scheme with the same contents whenever it fits, and is refused with the capacity and length when it does not. Arrays and tuples of the same elements, ranges and pairs, and derived structs of the same fields are likewise interchangeable. Decoding a clone-on-write value always gives the owned form.",
["inputs","programs"],"all ordered pairs of forms of each scheme and all contents up to a bounded length",
"The tests never decode one type's encoding as another, which the borrowed-decoding contract promises for all contents.",
["oct/src/decode/decode_borrowed/mod.rs",ENC,DEC,"oct/src/sized_slice/code.rs","oct/src/sized_str/code.rs"],
[("DecodeBorrowed impls","oct/src/decode/decode_borrowed/mod.rs")],["decode of a foreign encoding"])
p("C20","Error conversion keeps the cause",
"Converting any specific encode or decode error, however deeply nested in collections, enumerations and cells, into the generic error keeps the innermost cause: its kind, offending value, index within a string, capacity and length, and the raw discriminant zero-extended from its own width. The chain of sources of any error leads from the outermost to that cause without skipping or repeating it, and every message names the offending value. Nothing is converted into an error of another kind.",
["inputs","programs"],"all nestings of error types up to a bounded depth and boundary payloads of each",
"No test converts an error or walks its sources; a swapped variant or sign-extended value goes unnoticed.",
["oct/src/error/generic_decode_error.rs","oct/src/error/generic_encode_error.rs","oct/src/primitive_discriminant/mod.rs","oct/src/error/collection_decode_error.rs","oct/src/error/enum_decode_error.rs","oct/src/error/item_decode_error.rs"],
[("From impls","oct/src/error/generic_decode_error.rs, oct/src/error/generic_encode_error.rs"),("to_u128","oct/src/primitive_discriminant/mod.rs")],["From/Into, Error::source, Display"])
p("C21","Re-encoding a decoded value is canonical and stable",
"Any byte sequence that decodes to a value re-encodes to a canonical sequence that decodes to an equal value and re-encodes to itself. The canonical sequence differs from the consumed bytes only where the format documents several spellings (a non-zero boolean or sign byte, more than a second of nanoseconds, repeated keys in maps and sets). Its length never exceeds the number of bytes consumed.",
["inputs"],"all byte sequences up to a bounded shape for every decodable and encodable type",
"The tests never re-encode what they decoded; idempotence has to hold for every accepted sequence, not for the ones an encoder happens to emit.",
[ENC,DEC],
[("Encode and Decode impls of the same type",ENC+", "+DEC)],["decode, encode, decode, encode"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
