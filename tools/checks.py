"""What each check runs and how its evidence describes it."""

ASSUME_CODEC = [
    "The reference model (harness/src/model.rs) states the documented format; it shares no code with the library.",
    "Exhaustive within the stated alphabets: type instances of the registry (harness/src/reg.rs), values and sequences made up along the model.",
    "One platform: x86-64 Linux, 64-bit usize, little endian.",
]

import runners

CHECKS = {
    "C01": dict(
        bin="c01", level="exploration", interface=True,
        technique="bounded-exhaustive execution of the real codecs over all values of the alphabets, against a reference model",
        note="Exhaustive over the stated alphabets of values and type instances; trusts the reference model and the harness's construction of values.",
        rule="Every value of the bounded alphabet of each of the registry's decodable types is encoded and decoded by the library, amid two different surroundings; distinct by value. All lengths of the counted forms at quick steps. Values in states that building them anew does not reach (iterated ranges, collections with spare room, shared pointers, cells being read, maps after removals and with four hashers). Non-trivial: encodes without error.",
        bounds="8/16-bit types and characters fully; wider words: boundaries, every byte value at every byte position; composites: one field at a time and products of small alphabets; lengths 0..=65535 (quick: selected). Thorough: all 2^32 values of u32, i32, f32 and Ipv4Addr, all characters in every nesting, all lengths.",
        assumptions=ASSUME_CODEC,
    ),
    "C02": dict(
        bin="c02", level="exploration", interface=True,
        technique="bounded-exhaustive execution of the real encoders over all values of the alphabets, bytes compared with a reference model",
        note="Exhaustive over the stated alphabets of values and type instances, including encode-only forms; trusts the reference model as the statement of the documented format.",
        rule="Every value of the bounded alphabet of each registry entry (with encode-only forms) is encoded into buffers of three fills and sizes; distinct by value and buffer. Non-trivial: all of them.",
        bounds="As for C01.",
        assumptions=ASSUME_CODEC,
    ),
    "C03": dict(
        bin="c03", level="exploration", runners=["standard", runners.derive], part="maximum",
        technique="bounded-exhaustive enumeration of types, values and decoded sequences against the maximum that the format model computes",
        note="The declared constant is compared with the exact maximum of the model for every registry entry; values and decodings are enumerated within bounds.",
        rule="Every registry entry with a declared maximum: the constant, a biggest value, every value of the alphabet encoded into exactly the maximum (buffer and slot), and the consumption of every explored sequence; the maximum and small values of every derived enumeration of a bounded grammar (as for C16, with variants of uneven sizes); distinct by value or sequence.",
        bounds="Values as for C01 (one level smaller); explored sequences with up to 2 (thorough 3) deviations.",
        assumptions=ASSUME_CODEC + ["Capacities beyond 65535 cannot be filled because counts have 16 bits; attainment is not demanded of them."],
    ),
    "C04": dict(
        bin="c04", level="exploration",
        technique="exhaustive enumeration of operation chains: all ordered pairs of type instances, all triples and bounded quadruples of representatives",
        note="Chains are enumerated completely to depth 2 over all type instances and depth 3 over one of every shape; longer interference would have to need longer chains.",
        rule="All ordered pairs of registry entries with up to 3x3 values at several offsets and buffer fills, with successful and failing calls on other streams in between; all triples and selected quadruples of 41 representatives; every sequence made up along the decoder (as for C05) behind and before five different surroundings and at the end of the input; every value of the alphabet at six places in outputs of different sizes and contents; distinct by entries, values and surroundings.",
        bounds="Depth 2 over all entries, 3-4 over representatives, up to 19 repetitions of one.",
        assumptions=ASSUME_CODEC,
    ),
    "C05": dict(
        bin="c05", level="exploration",
        technique="exhaustive choice-point exploration of the decoder's input along a reference decoder, real decoder compared on every sequence",
        note="Every sequence with at most the stated number of deviations from a default at the places a decoder looks at is executed; trusts the model decoder.",
        rule="Byte sequences are made up along the model's decoder (refusals also late in collections of 40, 300, 1000 and 65535 elements; maps and sets with up to 65535 different keys): each place at which it asks for bytes is a choice point with an alphabet for its role (counts about the capacity, all classes of UTF-8 bytes, discriminants and neighbours and bit flips, all surrogates, NULs); every combination with at most `devs` deviations is run. Distinct by sequence.",
        bounds="2 deviations among 6 places (thorough 3 among 5); scalars fully; strings of up to 3 bytes over 25 byte classes (thorough 4); all counts 0..=65535 of capped forms. Thorough: all 2^32 patterns for char and NonZero<u32>.",
        assumptions=ASSUME_CODEC,
    ),
    "C06": dict(
        bin="c06", level="fault_enumeration",
        technique="exhaustive enumeration of truncation points and output capacities over explored values and sequences",
        note="All cuts of all explored encodings (those over 80 bytes: the first 40, last 20 and 40 between), each in three different surroundings to notice reads outside; canaries notice writes outside.",
        rule="For every value of the alphabets and every explored sequence: each truncation of the input and each capacity below the size; distinct by bytes and cut. Trivial: sequences that would be refused anyway.",
        bounds="Values of level 1 (thorough 2), sequences with 1 deviation (thorough 2), long counts with 0-23 bytes behind them.",
        assumptions=ASSUME_CODEC + ["Whether a short stream is noticed by an error or a panic is left open."],
    ),
    "C07": dict(
        bin="c07", level="exploration",
        technique="bounded-exhaustive enumeration of unencodable values at every place of every type instance, and of borrow states of reference cells",
        note="One offending value at a time at every place; the exact error is computed by the model for the value as the real object iterates it.",
        rule="Every bad value (sizes beyond 16 bits, lengths beyond 65535, discriminants that do not fit) at every place of every registry entry that has one, boundary values of the same types, all assignments of {free, shared, mutably borrowed} to the cells of 16 nestings; distinct by value or assignment.",
        bounds="usize/isize: all of 65536..131100 and symmetric, all powers of two; the offending element of a collection also at late places of 40, 300, 1000 and 65535 elements; lengths 65536, 65537, 70000, 131072 refused, 65533..=65535 accepted.",
        assumptions=ASSUME_CODEC,
    ),
    "C19": dict(
        bin="c19", level="exploration", interface=True,
        technique="bounded-exhaustive enumeration of all ordered pairs of type instances with the same wire scheme, real encoder to real decoder, model as oracle",
        note="All pairs of the registry's and 40 further instances whose scheme is equal once capacities, cells, structs and arrays are dissolved.",
        rule="Every ordered pair of entries with equal scheme and every value of the first one's alphabet; distinct by pair and value. The model decoder of the target says what must come out.",
        bounds="Values of level 2, at most 4000 per pair at the quick tier.",
        assumptions=ASSUME_CODEC,
    ),
    "C21": dict(
        bin="c21", level="exploration",
        technique="exhaustive choice-point exploration of decodable sequences, decode-encode-decode-encode on the real objects",
        note="Every accepted sequence of C05's exploration; canonical form computed by the model.",
        rule="Every explored sequence that decodes (as for C05) is decoded, the object encoded, decoded and encoded again; distinct by sequence.",
        bounds="As for C05.",
        assumptions=ASSUME_CODEC,
    ),
    "C08": dict(
        bin="c08", level="model_checking", mem=14 << 30, jobs=6,
        technique="explicit-state exploration (breadth first, and all histories to a depth) of real streams next to a model of them",
        note="Every transition of the bounded state space is executed on the real Input/Output; states are identified by the model's state, unmerged histories to depth 3-4 guard against hidden state.",
        rule="Operation sequences on Input and Output over buffers of each size from 0, with all read/write lengths, borrowed reads and writes, positions and views after each; distinct by state and operation (merged) or by history (tree).",
        bounds="Buffers of up to 8 bytes with all counts up to two beyond the end and huge counts; streams beyond 4 GiB at selected positions.",
        assumptions=["The reference model of a stream (a byte vector and a position) is trusted.", "What is in the untouched part after a panicking operation is compared with what was there before."],
    ),
    "C09": dict(
        bin="c09", level="model_checking",
        technique="explicit-state exploration (breadth first, and all histories to a depth) of real slots next to a model of them",
        note="Every transition of the bounded state space is executed on the real Slot; states are identified by the model's state, unmerged histories to depth 3 guard against hidden state.",
        rule="Operation sequences (write of encodable, oversized and unencodable values, read, set_len, copy, pokes through every mutable view) from slots of every capacity, made by capacity and from raw parts; all views after each operation; distinct by state and operation or by history.",
        bounds="7 value types, capacities around the sizes of the values, depth 4 (thorough 8) merged, 3 unmerged; up to 2500 (thorough 60000) states per section.",
        assumptions=["The reference model of a slot (a byte vector and a length) and the codec model are trusted.", "What a failed write leaves in the overwritten bytes is not specified and is read back into the model."],
    ),
    "C10": dict(
        bin="c10", level="model_checking",
        technique="explicit-state exploration (breadth first, and all histories to a depth) of real sized slices next to a vector",
        note="Every transition of the bounded state space is executed on the real SizedSlice; states are identified by the model's state, unmerged histories to depth 2-3 guard against hidden state.",
        rule="All operations (construction from slices, arrays and five kinds of iterators of every length to two beyond the capacity; copying; setting the length; mutation through every mutable view; clones, raw parts, conversions) from each state, with every view compared after each; distinct by state and operation or by history.",
        bounds="11 element types (with zero-sized, over-aligned and owning ones), capacities 0, 1, 2, 3, 5 (8 for u8), depth 4 (thorough 6), up to 250 (thorough 6000) states each; selected lengths at capacities about 256 and 65536.",
        assumptions=["The reference model (a vector of small numbers) is trusted.", "Elements kept in the unused part are expected to stay there, as copying and setting the length are documented."],
    ),
    "C11": dict(
        bin="c11", level="model_checking",
        technique="explicit-state exploration of real sized strings next to strings, and exhaustive enumeration of byte and character strings over all UTF-8 classes",
        note="Every transition of the bounded state space and every string of the alphabets is executed on the real SizedStr; an independent UTF-8 validator decides what is valid.",
        rule="All byte strings over 25 byte classes to a length, all of two bytes, characters and character sequences at capacities about their size; all operations from each state of the edit machine with every view compared after each; distinct by string and capacity, by state and operation, or by history.",
        bounds="Byte strings of up to 4 (thorough 5, and all of three bytes), character sequences of up to 4 (thorough 5) at capacities 0-12, machine depth 4 (thorough 8) merged and 2 (thorough 3) unmerged at capacities 0-6 and 9; longer strings at capacities about 256 and 65536.",
        assumptions=["Which of two errors a too long and malformed string gives is left open.", "Formatting, slicing and parsing are compared with str's."],
    ),
    "C12": dict(
        bin="c12", level="model_checking",
        technique="explicit-state exploration (breadth first, and all interleavings to a depth) of real iterators next to a queue",
        note="Every transition of the bounded state space is executed on the real SizedIter, up to two iterators (a clone and its original) interleaved; adaptors are compared from every reachable window. The known finding about nth is recognised exactly and everything else is judged around it.",
        rule="Front, back, skipping from both ends, cloning, dropping, slice writes and partly consumed adaptors, interleaved; 45 adaptors and consumers from every window of every length; distinct by state and operation, history, or window and adaptor.",
        bounds="6 element types, capacities 0-4 (6 for u8), all lengths; depth 6-7 (thorough 8-10) merged, 3-4 (thorough 4-5) unmerged; selected windows at capacities about 256.",
        assumptions=["The reference model (a queue) is trusted."],
    ),
    "C13": dict(
        bin="c13", level="fault_enumeration",
        technique="exhaustive enumeration of failure points (error, panic, truncation at every call) and of ownership histories, with an accounting allocator and elements that count their destruction",
        note="Every decode, clone and iterator call fails and panics in turn, at every truncation, for every container shape; all bounded histories of ownership-moving operations. The known leaks and the known double give-away are recognised by their exact extent.",
        rule="For each container shape, element kind (owner of memory, over-aligned, zero-sized) and small value: each failing call with an error and a panic, each truncation; all operation histories to a depth; allocation balance over all registry entries and explored sequences; distinct by bytes and fault, history, or sequence.",
        bounds="80 shapes x 3 element kinds, lengths 0-4 (nested 0-2), and 17, 33, 40 and 300 with faults at the first 20 and at late places; histories of depth 2-4 (thorough one more) at capacities 0-3; registry sequences with 1 deviation.",
        assumptions=["Elements of a partly cloned or collected sized slice may leak when the clone or iterator panics (the same missing destructor as the known finding), but are dropped at most once."],
    ),
    "C20": dict(
        bin="c20", level="exploration", interface=True, mem=6 << 30, build_args=["--features", "why"],
        technique="exhaustive enumeration of all nestings of error types to a depth over all kinds of causes, and of the real errors of every explored refusal",
        note="Every nesting of the public error types to the stated depth is built and converted; the real errors of all refusals that C05 and C07 explore are converted and their chains walked; raw discriminants of all twelve types.",
        rule="Every sequence of wrapping error types (10 each for decoding and encoding) up to the depth over every kind of innermost cause; every refused sequence and unencodable value of every registry entry and 25 deeper ones; distinct by nesting and cause or by sequence. A chain must consist of exactly the expected types in order and every message must contain the offending numbers.",
        bounds="Depth 4 (thorough 5) over one value of each cause, depth 2 over all values; discriminants: 8/16 bits fully, wider at boundaries and every byte position.",
        assumptions=["Messages are searched for the numbers in decimal or hexadecimal; their wording is left open.", "InvalidDiscriminant has no convertible instance, because all discriminants decode infallibly."],
    ),
    "C14": dict(
        level="exploration", runners=[runners.undefined],
        technique="exhaustive enumeration of bounded programs over the safe interface (operation sequences, inputs, output capacities, panics of elements at each place), each executed in an interpreter (Miri) that monitors every step for undefined behaviour",
        note="Every program of the grammar is executed by Miri with Tree Borrows; only what these programs reach is judged, on one target and without debug assertions.",
        rule="All sequences of operations on slices, iterators, strings, slots and streams over elements that own memory, have no size or are widely aligned; all inputs over alphabets for 90 decoders (refusing and panicking elements at each place), all output capacities for 45 encoders, round trips through slots; distinct by choices.",
        bounds="Sequences of 2 (thorough 3-4) operations from up to 17 on containers of capacity 0-3, inputs of up to 4-8 bytes over 2-6 values for each place; one schedule for the threads (races are found by happens-before).",
        assumptions=["Miri's judgement, with Tree Borrows as the aliasing model (`SizedSlice::each_mut` would not satisfy Stacked Borrows).", "`SizedIter::nth` with elements that own memory is left out: it gives elements away twice (known finding of C13).", "Leaks are for C13."],
    ),
    "C15": dict(
        bin="c15", level="exploration", interface=True,
        technique="exhaustive enumeration of all pairs of bounded contents, capacities and remains in the unused space, and of all small key sets with look-ups",
        note="Every pair of words over small alphabets at pairs of capacities with every operator against the standard slices and strings; hashes compared call by call; all maps of up to three keys with all look-ups under three hashers.",
        rule="All ordered pairs of words at 9 pairs of capacities with up to 4 combinations of remains; orders, hashes, sorting and searching; all key sets of up to three words with insertion, look-up of every word in both forms, and removal; distinct by words, capacities and remains or by key set.",
        bounds="13 element types (with partial order, own equality, zero size, and sized types that have unused space of their own), words of up to 3 over 4 letters, 4 over 3, 5 over 2 (thorough 4, 5, 7); strings of up to 3 (thorough 4) of 6 characters; contents of up to 300 octets that differ at each single place.",
        assumptions=["Comparison of the standard slices, strings and vectors is the oracle."],
    ),
    "C18": dict(
        level="model_checking", runners=[runners.sched], hang=20,
        technique="stateless exploration of all interleavings of bounded thread programs on the real code under a cooperative scheduler, with locks and atomics as scheduling points",
        note="The library's unmodified sources are compiled against stand-ins for std and core whose locks and atomics (wrappers of the real ones) are scheduling points; the same programs run on the plain library with the real locks. All interleavings, with states that have been reached before merged (and without merging for the smaller programs).",
        rule="All programs of encoding (working, failing and panicking at each step), changing, holding and sharing operations for up to three threads, all their interleavings; histories of cells, and what a cell's borrow state is while it is encoded; wrappers in pairs with each failure. Distinct by program; states are shared state, each task's steps and what it has seen at them; traces are executed schedules.",
        bounds="One thread of 3 operations, two threads of up to 2 (thorough: 3 of a smaller alphabet), three threads of 1 (thorough 2), thorough four threads; values of two octets encoded in three steps; 11 atomics; lazy values with working and panicking initialisers.",
        assumptions=["Scheduling points are the acquisitions and releases of locks, accesses to atomics, and the steps of the inner encoding; anything in between is atomic (sequential consistency).", "The wrappers keep to the semantics of the standard locks, which they use underneath; a reader is let in while a writer waits."],
    ),
    "C17": dict(
        level="exploration", runners=[runners.features],
        technique="exhaustive enumeration of the configurations, with everything that the library does in each (over bounded values, sequences and operations) compared with the full configuration",
        note="All eight subsets of the features are built; each runs the same bounded enumeration, and what it does is compared line by line (by digest) with what all features give. Configurations without std must also link where a second panic handler would collide with the standard library.",
        rule="Every registry entry that needs none of the missing features with all small values and sequences (encodings, maximum sizes, refusals with their full error chains), sized slices and strings with small contents, and the public implementations; distinct by configuration and line.",
        bounds="8 configurations; about 2 000 values and 3 000 sequences (thorough 20 000 and 100 000) per entry; 160 public implementations.",
        assumptions=["Which item needs which feature is read from the documentation.", "Whether the full configuration itself is right is for the other checks."],
    ),
    "C16": dict(
        level="exploration", runners=[runners.derive],
        technique="exhaustive enumeration of the type definitions of a bounded grammar, compiled with the real derives and executed over bounded values and explored sequences against the format model",
        note="Every definition of the grammar is compiled and run; its binding to the model is written by the generator from the grammar alone, with discriminants computed independently.",
        rule="Every definition: declared maximum against the model's, every small value's bytes and decoding, every sequence with one deviation from the default at each place (all discriminants at and about the assigned ones), every value that cannot be encoded; distinct by definition and value or sequence. A definition that does not compile is a violation.",
        bounds="Enumerations: all selections of up to 3 (thorough 4) from 8 shapes of variants over 13 representations, all assignments of explicit and implicit discriminants to 3 variants over 7 values (thorough 10) for each representation, 20 ways to write them, up to 300 variants, variants of uneven sizes in every order; structures: all pairs of 31 field types, all triples of 5 (thorough 10), up to 25 fields; generic, const-generic, recursive, shadowed, macro-made and attributed definitions. Thorough: 2 deviations.",
        assumptions=["Representations other than the twelve of integers (C, align on enumerations) are refused on purpose and left out.", "Lower-case constants that capture the derived code's variables are left out.", "Generic parameters carry the bounds that their use needs."],
    ),
}
