BITS = "Integers and floats are bit-precise; clang's front end, the IR semantics in vp/engine.py, the runtime models in vp/builtins.py and the solvers are trusted; templates are proved for the instantiations listed in the evidence."

P("C01", "Overwriting ring buffers are bounded FIFOs that keep the newest elements",
  "After any sequence of operations, an overwriting ring buffer holds exactly the last elements stored and not yet taken (at most its capacity), hands them out oldest first, and reports size, empty and full accordingly. Storing into a full buffer drops only the oldest element; taking from an empty one yields a default value and changes nothing. No operation reads or writes outside the buffer's storage.",
  [HIST, INPUT], "every reachable state (rotation, fill level), every element value, any number of operations (one inductive step per operation from an arbitrary well-formed state)",
  "the tests follow a few fixed push/pop sequences on one capacity; wrap position and fill level combinations and long histories are not enumerated",
  ["circular_buffer.hh", "circular_buffer_opt.hh"], [("index wrap and full flag", "circular_buffer.hh"), ("power-of-two masking", "circular_buffer_opt.hh")],
  "Each operation is proved from an arbitrary well-formed state, so the result holds for histories of any length. " + BITS)

P("C02", "A circular stack is a bounded LIFO that keeps the newest elements",
  "After any sequence of operations a circular stack yields the stored elements newest first, keeps the newest `capacity` of them, and its size, empty and full reports agree with its contents. Nothing outside its storage is touched.",
  [HIST, INPUT], "every reachable state, every element value, any number of operations",
  "tests exercise a handful of push/pop sequences on one capacity",
  ["circular_stack.hh"], [("wrapping top index", "circular_stack.hh")],
  "Each operation is proved from an arbitrary well-formed state. " + BITS)

P("C03", "A fixed-capacity vector behaves like a sequence and never leaves its storage",
  "Appending, inserting, erasing, resizing and clearing act on the stored sequence as the corresponding sequence operations do; an operation that would exceed the capacity is refused without altering the existing elements. Size never exceeds the capacity and no operation touches memory outside the vector.",
  [HIST, INPUT], "every size, position, element value and operation order",
  "tests use fixed sizes and positions; the insert/erase position and the full/empty boundaries are only sampled",
  ["fixed_vector.hh"], [("size bookkeeping and element shifting", "fixed_vector.hh")],
  "Each operation is proved from an arbitrary vector. " + BITS)

P("C04", "Array-backed maps return the last value stored under a key",
  "A lookup yields the value most recently stored under that key, or the documented miss result when the key is absent; keys are unique; storing, erasing or evicting affects no other key. A full map refuses or evicts exactly as documented (oldest entry for the evicting kind).",
  [HIST, INPUT], "every content and fill level, every key and value, any operation order",
  "tests use a few literal keys; the interaction of eviction order, erase and duplicates over histories is not enumerated",
  ["sequential_map.hh", "seq_map.hh"], [("linear search and replacement", "sequential_map.hh"), ("oldest-entry eviction", "seq_map.hh")],
  "Each operation is proved from an arbitrary well-formed map. " + BITS)

P("C05", "Parsing an arbitrary binary blob is memory-safe and finds the first match",
  "For every byte sequence, of any length and content, looking up a key never reads outside the blob, always terminates, and returns the data of the first node with that key, or nothing when the key is absent or the node is cut off by the end of the blob. Returned data always lies inside the blob.",
  [INPUT], "every blob (any length up to 2^40 bytes, any content), every key, five key/size type combinations incl. signed and 64-bit sizes and string keys",
  "tests parse a few well-formed blobs; malformed, truncated and adversarial size fields are unbounded in number",
  ["compact_binary_parser.hh"], [("node walk and bounds checks", "compact_binary_parser.hh")],
  "Unbounded: the walk is proved with a loop invariant over the number of nodes visited. Termination: the invariant's node counter is bounded by the offset, which is bounded by the length. " + BITS)

P("C06", "Binary writers emit exactly the promised bytes, stay in the buffer, report size",
  "Every write operation appends key, size and data at the current position and nothing else; bytes that do not fit are dropped without touching memory outside the buffer, while the reported size still counts them. The size announced for an object equals the bytes written inside it, measuring, writing and streaming the same description agree, and what was written is found again by the parser.",
  [INPUT, HIST], "every writer state, buffer length, key, value, payload length and content",
  "tests serialise a few literal structures into buffers of a few sizes",
  ["compact_binary_writer.hh", "compact_binary_serializer.hh", "compact_binary_parser.hh"], [("size back-patching", "compact_binary_writer.hh"), ("two-pass measure and write", "compact_binary_serializer.hh")],
  "Each operation is proved from an arbitrary writer state with one arbitrary observed byte; nested objects by the contract of the sub-description; the three-field round trip is proved for all keys, values and buffer sizes. Payloads longer than the size field can express are stored with a truncated size (the caller's precondition). " + BITS)

P("C07", "The lock-free FIFOs are bounded queues that refuse instead of overwriting",
  "A lock-free FIFO hands out every accepted element exactly once, in the order of acceptance. Putting is refused exactly when the FIFO holds its capacity and then changes nothing; taking from an empty FIFO yields nothing (or the default) and changes nothing. The reported numbers of filled and free places always agree with the contents. reset empties it; resizing the run-time sized FIFO to another size empties it and gives it exactly that capacity, to the same size changes nothing.",
  [HIST, INPUT], "every reachable position (incl. wrap of the position counters for the fixed-size FIFO), fill level and element value, any number of operations",
  "tests push a few literal elements; wrap of the counters, all fill levels and long histories are not enumerated",
  ["lockfree_fifo_spsc.hh", "lockfree_fifo_spsc_dyn.hh"], [("free-running head and tail counters", "lockfree_fifo_spsc.hh"), ("modulo positions and resize", "lockfree_fifo_spsc_dyn.hh")],
  "Each operation is proved from an arbitrary state; the run-time sized FIFO for position counters below 2^32 (its documented edge case is excluded). " + BITS)

P("C08", "One producer and one consumer may use a lock-free FIFO at the same time",
  "With one thread putting and another taking at the same time, no element is lost, duplicated, reordered, torn or read before it was completely written; a slot is never written while it may still be read. put succeeds whenever there was room when it was called, get whenever there was an element. Counts seen by either side lie between the values at the call and at the return.",
  [SCHED, HIST], "every interleaving of one producer and one consumer at every atomic access, under release/acquire ordering, every position, fill level and element value",
  "a test observes one schedule per run on one strongly ordered CPU; missing ordering is invisible on x86",
  ["lockfree_fifo_spsc.hh", "lockfree_fifo_spsc_dyn.hh"], [("acquire/release on head_ and tail_", "lockfree_fifo_spsc.hh"), ("acquire/release on head_ and tail_", "lockfree_fifo_spsc_dyn.hh")],
  "Rely/guarantee: each operation is proved against an environment that does anything the other side may do before each atomic access; slot accesses carry ownership obligations that need an acquire of the other side's position, publication needs release. Assumes the C++20 memory model and one thread per side. Witnesses come from a ThreadSanitizer stress driver. " + BITS)

P("C09", "A pool never gives one entry to two owners",
  "Creating from a pool returns an entry of that pool which is not in use, and fails exactly when all entries are in use; a created object is default-constructed unless the overwrite form is used. Destroying frees exactly the given entry and reports whether it was in use; pointers or indices that do not belong to the pool are refused. Entries in use are never altered. For the thread-safe pool this also holds when any number of threads create and destroy at the same time.",
  [HIST, SCHED, INPUT], "every set of entries in use and every content; every interleaving of other threads' creates and destroys at every atomic access",
  "tests create and destroy a few entries in order from one thread",
  ["pool.hh", "thread_safe_pool.hh"], [("used flags searched linearly", "pool.hh"), ("compare-exchange on the used flags", "thread_safe_pool.hh")],
  "Sequential behaviour from every state; concurrency by rely/guarantee (other threads may flip any flag this thread does not own before each atomic access). clear() is only claimed for sequential use. " + BITS)

P("C10", "Wear levelling returns the latest stored value, also after power loss",
  "After any history of writes, reads and restarts, reading yields the valid value in the most recently written cell that holds one, or reports that there is none; a restart changes nothing about that. A write goes into the first blank cell above the latest value and the block is erased only when there is none. A cell that failed to store, holds garbage or cannot be read never hides an older valid value and is never reported as data. Power lost in a write leaves the old or the new value; power lost in an erase never yields a value that was not written. Storage is never accessed outside its block.",
  [HIST, CRASH, FAULT], "every content of the block, every position of the instance, every outcome of every low-level read, write and erase, power loss in any of them",
  "tests run a few scripted histories on one block without restarts in the middle of an operation",
  ["wear_level.hh"], [("scan from the top on start", "wear_level.hh"), ("search for a blank cell and erase", "wear_level.hh")],
  "Blocks of 1, 2 and 3 cells, each with every content; one inductive step per operation from every state. The storage is a stated model of flash (assumption). If an erase reports failure only the absence of invented data and of accesses outside the block is claimed until the restart. " + BITS)

P("C11", "Integers are written as exact decimal text that never leaves the buffer",
  "int_to_str succeeds exactly when sign, digits and terminator fit and then stores the exact decimal text of the value, terminated; otherwise it reports failure. int_to_str_chop keeps the sign and as many of the last digits as fit, terminated. Neither touches a byte behind the text. num_digits is the number of decimal digits. This holds for every 32-bit value and every buffer size, including zero and the smallest integer.",
  [INPUT], "all 2^32 values and all buffer sizes up to 2^20",
  "tests print a dozen values",
  ["int_to_str.hh", "int_to_str.cc"], [("place values peeled off with division", "int_to_str.cc"), ("num_digits recursion", "int_to_str.cc")],
  "One contract per digit count; division by constants is given to the solvers as quotient and remainder. " + BITS)

P("C12", "print sends exactly the characters of its arguments",
  "print sends its arguments one after the other: a zero-terminated string up to its terminator, a view exactly its length whatever it contains and whatever lies behind it, a 32-bit integer as exact decimal text without leading zeros (the smallest integer included), a Hex as upper-case hexadecimal text without leading zeros.",
  [INPUT], "all 2^32 integers, all strings and views of up to 2^40 characters",
  "tests print a few literals",
  ["print.hh"], [("place values peeled off with division", "print.hh"), ("printone overloads", "print.hh")],
  "Text loops by induction; numbers one contract per digit count. Printing of floats is a documented placeholder and not claimed. " + BITS)

P("C13", "Togglers and debouncers report every edge exactly once",
  "A toggler's level is the last registered one. A change of level raises one event, rising or falling, which stays pending until it is read, cleared or superseded by the opposite registered edge, and is reported once. Registering the same level raises nothing. Transfer moves pending events without losing or inventing any. The counting variants count samples since the last change. A debouncer raises its rising (falling) event exactly when the last samples, as far as the mask reaches, are the rising (falling) pattern. The one-byte toggler behaves the same.",
  [INPUT, HIST], "every toggler state, every window of past samples and every next sample, any number of steps",
  "tests feed the counting toggler a few scripted samples; the other variants are untested",
  ["debouncer.hh", "debouncer_compact.hh"], [("pending-event flags", "debouncer.hh"), ("pending-event flags in one byte", "debouncer_compact.hh"), ("masked shift register compared with patterns", "debouncer.hh")],
  "One step from every state, plus histories from the initial state. Samples are 0 or 1. If both events are pending in the source of an update only the falling one is claimed to arrive. " + BITS)

P("C14", "Edge detectors and Schmitt triggers react exactly to crossings",
  "An edge detector reports exactly whether the last two states differ, rose or fell; a change detector whether there was any change since it was last asked, once. A Schmitt trigger switches on exactly when the input exceeds the high threshold, off exactly when it falls below the low one and otherwise holds (also for inputs that are no number), raising one event per switch. hysteresis_gate switches on exactly above the turn-on and off exactly below the turn-off threshold; hysteresis_feedback compares input plus fed-back output with its threshold.",
  [INPUT, HIST], "all float inputs and thresholds (for the gates all within [0,1]), all detector states",
  "tests try inputs well away from the thresholds",
  ["edge_detector.hh", "change_detector.hh", "schmitt_trigger.hh", "math.hh"], [("comparison with the last state", "edge_detector.hh"), ("pending change flag", "change_detector.hh"), ("two thresholds", "schmitt_trigger.hh"), ("hysteresis_gate and hysteresis_feedback", "math.hh")],
  "IEEE semantics. " + BITS)

P("C15", "Quadrature decoding counts each complete detent once and nothing else",
  "The encoder reports clockwise or counter-clockwise motion exactly when the last four distinct contact states form the complete valid cycle of that direction; repeated states and every other sequence (bounces, half turns, illegal jumps) report nothing. The inverted variant behaves the same on inverted contacts.",
  [INPUT, HIST], "all contact histories (the last four distinct states and every next reading)",
  "tests turn the non-inverted encoder a few clean steps",
  ["quadrature_encoder.hh"], [("packed history of four states", "quadrature_encoder.hh")],
  "One step from every history, plus histories from the start. " + BITS)

P("C16", "Periodic polling fires exactly when its period has passed, across clock wrap too",
  "PollEvent runs its action exactly when at least the period has passed since it last did, measured modulo the width of the clock, however late the poll comes. PollChange looks at the state exactly when its interval has passed since it last looked, calls a state function only then, and reports a change once.",
  [INPUT, HIST], "every clock value, period and time of the last action for 8 to 64 bit clocks, signed and unsigned",
  "tests poll every tick around one wrap",
  ["poll_event.hh", "poll_change.hh"], [("elapsed time across a wrap", "poll_event.hh"), ("elapsed time across a wrap", "poll_change.hh")],
  "Periods are not negative. force_next_poll is claimed for clock values of at least one interval (it sets the last time to zero). " + BITS)

P("C17", "Integer arithmetic helpers are exact for all arguments",
  "is_power_of_2, log2_floor, next_power_of_2 (zero if it does not fit), ipow and bipolar_type_range, wrap (remainder; value in the range moved by whole ranges), min, max, constrain, between, abs_diff, diff, plateau (zero within half the width, rounded down, else distance to the edge), integer map_value (exact value rounded towards the start of the output, ends to ends), integer interpolate (exact value rounded towards zero, never outside its two values), randomNumber (inside its range) and the finite/infinite tests give the mathematically defined result.",
  [INPUT], "all values of the argument types (stated bounds where the result must be representable)",
  "tests try a handful of values",
  ["math.hh"], [("bit smearing", "math.hh"), ("subtractive wrap loops", "math.hh"), ("map_value and interpolate", "math.hh")],
  "Ranges of wrap, map_value and interpolate are template constants in the contracts: several instances, all values each. " + BITS)

P("C18", "Saturation, byte swaps, bit fields, byte blocks and vector lanes",
  "Saturation yields the nearest representable value; byte swaps reverse the bytes and are their own inverse; bitfield and OR combine exactly the given values; a byte block holds exactly the printed bytes, low byte first; the portable vector operations compute each lane independently like the scalar operation.",
  [INPUT], "all values, all bit widths, all lane values",
  "tests cover two byte swaps and a few bit fields",
  ["cortex_math.hh", "math.hh", "bitfield.hh", "byte_block.hh", "soft_neon.hh"], [("saturation", "cortex_math.hh"), ("shifts and masks", "math.hh"), ("OR over a list", "bitfield.hh"), ("little-endian printing", "byte_block.hh"), ("lane arithmetic", "soft_neon.hh")],
  "The portable variants are proved, not the ARM assembly. Byte blocks: three prints of any width from the empty block, raw prints up to three bytes. " + BITS)

P("C21", "StaticString holds its text truncated to its capacity and always terminated",
  "A StaticString made or assigned from a view, a C string or another StaticString of any capacity holds the source text up to its first zero byte as far as it fits, is always zero terminated, never reads past the source nor writes past its capacity, and length, available, view, iteration, comparison and clear agree with that text.",
  [INPUT], "every source text and length, every previous content, capacities 0 to 8",
  "tests use a few literals that fit or just overflow",
  ["static_string.hh"], [("bounded copy of views and C strings", "static_string.hh"), ("length up to the terminator", "static_string.hh"), ("copies between capacities", "static_string.hh")],
  "Capacities are template constants: several instances. Sources are at most 2^40 bytes. " + BITS)

P("C22", "Case-insensitive comparison is a strict weak order consistent with equality",
  "less_ci is dictionary order of the case-folded texts, a text being before its own extensions; equal_ci holds exactly if the texts have the same length and agree after folding in every place; exactly one of less, equal and greater holds, and less is transitive. Characters with the high bit set are passed to tolower as the C library demands.",
  [INPUT], "all pairs of texts of any length",
  "tests compare a few literals",
  ["string_compare.hh"], [("lexicographical comparison with folding", "string_compare.hh"), ("elementwise equality with folding", "string_compare.hh")],
  "C locale folding is assumed. Trichotomy and transitivity follow from dictionary order; they are also proved outright for texts of at most two characters.")

P("C23", "Text replacement, search and splitting find every occurrence once",
  "replace_all replaces every non-overlapping occurrence from the left exactly once, does not look into its replacements, and leaves the text alone for an empty search text. contains_word holds exactly if the word occurs, in any case, bounded by spaces or the ends of the text. tokenize_string appends exactly the maximal stretches between delimiters, in order.",
  [INPUT], "all characters, texts up to 6, words and searches up to 3 characters",
  "tests replace in one text, search a few words and split a few lists",
  ["string_util.hh", "contains_word.hh"], [("find and replace loop", "string_util.hh"), ("splitting loop", "string_util.hh"), ("four ways a word can be bounded", "contains_word.hh")],
  "Bounded: exhaustive over the characters at each listed size, because the loops are those of std::string and std::vector, unrolled. C locale folding is assumed.")

P("C24", "Versions are totally ordered, hosting is by major and minor, and parsing is safe",
  "Versions are compared by major, minor and revision, a pre-release coming just before its release; all six comparisons and is_later agree. A version hosts exactly those of the same major with at most its minor. Parsing takes the leading number of each of the first three dot-separated parts, leaves fields that cannot hold their number alone, recognises a pre-release by a dash after the last dot, and never reads outside of the text.",
  [INPUT], "all pairs of versions; all texts of up to 4 characters and of listed shapes up to 15",
  "tests parse and compare a handful of versions",
  ["version_tools.hh"], [("three-way comparison", "version_tools.hh"), ("field range check and number parsing", "version_tools.hh"), ("splitting at dots", "version_tools.hh")],
  "Comparison and hosting are proved for all values; parsing is bounded, as stated.")

P("C19", "Colours blend, add, scale and convert channel by channel without wrapping",
  "Blending two colours by 0 and by the largest amount yields the two colours, and by amounts between a colour whose channels lie between the two, at the exact weighted mean to within the documented rounding; sums, combinations and adjustments saturate at full brightness; brightness 0 is black and 1 leaves the colour; conversions to and from 5-6-5 bits keep the top bits and return unchanged; HSV yields the defined channels.",
  [INPUT], "all colours and all blend amounts",
  "tests blend a few colours at a few amounts",
  ["colors.hh", "colors_rgb565.hh", "hsv.hh"], [("blend and saturating sums", "colors.hh"), ("packing into bit fields", "colors_rgb565.hh"), ("six sectors", "hsv.hh")],
  "5-6-5 blends may be one step below the lower end, as their rounding allows. " + BITS)

P("C27", "Allocators hand out aligned, disjoint blocks inside their memory or refuse",
  "A monotonic allocator hands out consecutive disjoint blocks inside its arena, refuses without any change what does not fit, and accounts for every byte; reset frees everything. The aligned allocator yields room for exactly the requested number of elements, aligned as promised, refuses sizes that do not fit the address space and is given back the same block. Padded objects start and end on line borders.",
  [HIST, INPUT], "every arena size, request size and number of earlier allocations",
  "tests allocate a few blocks of a few sizes",
  ["monotonic_allocator.hh", "aligned_allocator.hh", "padded_aligned.hh"], [("bump pointer and limit check", "monotonic_allocator.hh"), ("size computation and rounding", "aligned_allocator.hh"), ("alignment padding", "padded_aligned.hh")],
  "The C library's aligned_alloc and free are modelled by their standard contract. A monotonic allocator may refuse a request that would exactly fill it. " + BITS)

P("C28", "Circular buffer access touches exactly the addressed elements, around the end",
  "Writing n elements into a circularly accessed buffer, forwards or backwards, replaces exactly the n elements that follow the write position around the end, in order, and no others; reading delivers exactly the n elements after the read position. Positions advance by n modulo the size and stay valid. The results tell whether the end or the marker was passed. clear zeroes exactly the buffer. Block writes at a start position do likewise.",
  [INPUT], "every buffer size up to 2^24 elements, every position, every length, both directions; every element",
  "tests use a few short buffers, positions and lengths",
  ["circular_buffer_ext.hh", "circular_buffer_block.hh"], [("index step and wrap", "circular_buffer_ext.hh"), ("split block copy", "circular_buffer_block.hh")],
  "Unbounded: loops carry invariants over the number of elements. Cross-fading is proved for phases 0 and 1 only; block writes longer than the whole buffer are the caller's error. " + BITS)

P("C29", "Oscillators, countdowns and LED animations step exactly and end on time",
  "A phase accumulator advances by exactly its increment per update, modulo 2^32; the triangle rises in its first half and falls in its second; frequency and period settings give the increment of the documented units; a down counter never counts up, stops at zero and stays there. A one-shot is active for exactly its pulse width. An LED shows its base colour unless a flash, fade or breathing is in progress, whose blend follows its counter.",
  [HIST, INPUT], "every phase and increment, any number of updates, all colours and durations",
  "tests follow a few oscillators for a few steps",
  ["oscs.hh", "rgbled.hh"], [("phase and increment arithmetic", "oscs.hh"), ("fade and breathe state", "rgbled.hh")],
  "Update rates are template constants: several instances. Pulses of the one-shot up to the stated number of updates. " + BITS)

P("C30", "Partitioning puts every item into exactly one part and keeps the sums level",
  "calc_partitions puts every index into exactly one part, larger values first, each into the part with the smallest sum so far (counting the initial sums), so that no sum exceeds the smallest by more than the largest value unless it started higher. Earlier contents of the parts are discarded.",
  [INPUT], "all values for up to four items, up to three parts, all initial sums",
  "tests partition a few literal lists",
  ["partition.hh"], [("sort and greedy assignment", "partition.hh")],
  "Bounded in the number of items and parts, because std::sort is unrolled. " + BITS)

P("C31", "Stored callables call what they hold and construct and destroy it exactly once",
  "A Function or Callback calls exactly the callable last stored, with the given arguments, and returns its result; copies are independent objects constructed in place, and every stored object is destroyed exactly once: on assignment, self-assignment excepted, and at the end of life. An empty one is false.",
  [HIST, INPUT], "all arguments, results and captured states; every order of construct, copy, assign, destroy from an arbitrary pair of full or empty objects",
  "tests call a few lambdas; lifetime of what is stored is not observed",
  ["callable.hh"], [("in-place storage and the table of operations", "callable.hh")],
  "Proved for instrumented callables that record where they live. " + BITS)

P("C32", "Iterating containers together visits equal indices and stops at the shortest",
  "zip, countzip and enumerate visit the elements of equal index together, in order, by reference so that writes reach the containers, for exactly as many steps as the shortest container has; countzip and enumerate count from zero; temporaries live as long as the loop; pre- and postfix increments step all iterators.",
  [INPUT], "containers of any length and content, every index",
  "tests iterate over a few literal arrays",
  ["zip.hh", "countzip.hh", "iterator_helpers.hh"], [("tuple of iterators, end test", "zip.hh"), ("count and tuple of iterators", "countzip.hh")],
  "Unbounded: loops carry an invariant over the index. " + BITS)

P("C33", "A double-buffered stream sends every accepted byte once, in order",
  "What the stream accepts is transmitted exactly once, in order, and byte for byte; a piece that does not fit into the waiting buffer is refused as a whole; the buffer in transmission is not written; at most one transmission runs at a time; a completion starts what waited, or returns the stream to idle.",
  [HIST, INPUT], "every reachable state (idle, busy, fill level), every piece length and content, any completion order, stray completions included",
  "tests push a few pieces and complete them in one order",
  ["doublebuf_stream.hh"], [("buffer switch and state", "doublebuf_stream.hh")],
  "Capacity 4 bytes (template constant); each operation is proved from an arbitrary reachable state. The transmit function is assumed to accept what it is given. " + BITS)

P("C34", "Parameters report each change once and rotary motion is used up once",
  "A Parameter holds what was last set and reports a pending change exactly once; a RefParameter reads and writes the referenced value and reports once that it differs from the last report; a LatchedParam stores a value exactly if it is further than its tolerance from the stored one. Rotary motion adds up, and is transferred and used exactly once.",
  [HIST, INPUT], "all values, every state, any number of operations",
  "tests set a few values",
  ["parameter.hh", "rotary_motion.hh"], [("changed flags", "parameter.hh"), ("tolerance", "parameter.hh"), ("transfer of motion", "rotary_motion.hh")],
  "Each operation is proved from an arbitrary state. NaN values are excluded. " + BITS)

P("C35", "Rectangles intersect and polygons are concave exactly as in exact geometry",
  "Two rectangles intersect exactly if they share a row and a column of pixels, symmetrically; centre, width, height, right and bottom agree. A polygon is reported concave exactly if it turns both ways somewhere, whatever its number of corners, at integer and fractional coordinates, without overflow.",
  [INPUT], "all rectangles within 2^30; all polygons of any number of corners",
  "tests use a handful of rectangles and polygons",
  ["geometry.hh"], [("interval overlap", "geometry.hh"), ("cross products and turn tracking", "geometry.hh")],
  "Concavity is proved with a loop invariant over the corners, cross products being uninterpreted; their arithmetic (64-bit and fractional) is checked on bounded instances. " + BITS)

P("C36", "Audio frames scale samples to +-1 and back, saturating, channel by channel",
  "Sign extension yields the value of the used bits; scaled input lies within -1 and 1 and is the exact value; scaled output is the value rounded towards zero, saturates beyond full scale, never leaves the range of the used bits, and never falls when the input rises; input scaled back out is unchanged up to 24 bits. Channel operations touch only their channel.",
  [INPUT], "all samples, all floats that are not NaN, each of the listed sample types and widths",
  "tests scale a few values at two widths",
  ["audio_frame.hh"], [("sign extension", "audio_frame.hh"), ("scaling and clamping", "audio_frame.hh")],
  "Unsigned sample types with more than 24 used bits are not claimed; that unsigned output never falls is proved at 8 bits. " + BITS)

P("C37", "Signal analysis tracks exact extremes and a smoothed mean that never overshoots",
  "The smallest and largest values reported are those of all values since the last reset, whatever their sign and order; after one value both are that value; a constant signal stays constant; each new value moves the average towards itself and never beyond.",
  [HIST, INPUT], "every state, every value that is not NaN, any number of values",
  "tests feed a few values",
  ["analyzed_signal.hh", "filter.hh"], [("min and max tracking", "analyzed_signal.hh"), ("one-pole average", "filter.hh")],
  "The average is proved for magnitudes up to a million; float rounding is exact. " + BITS)

P("C20", "Averaging filters yield the exact mean of the values they promise",
  "A moving average is the mean of its last values (zeros before the first), rounded down; an oversampler shows the mean of each complete group of values until the next is complete, and so does the smooth one as a float; one that can be resized completes a group at once if it has reached the new size, and a copy or reset carries over or forgets the whole state. Filters in series feed the second only when read. Hysteresis and quadratic filters never move away from nor beyond the new value.",
  [HIST, INPUT], "every state, every value within the stated bits, several sizes; all floats up to a million for the hysteresis filter",
  "tests feed a few values",
  ["filter.hh"], [("running sum and ring index", "filter.hh"), ("group count and reset", "filter.hh"), ("transfer functions", "filter.hh")],
  "Sizes are template constants: several instances. A new size of zero is the caller's error. " + BITS)

P("C25", "Tables interpolate between neighbouring elements and never read outside",
  "An interpolating array returns its elements at whole positions and a value between two neighbours (weighted by the distance) in between; phase 0 is the first element and phase 1 the last, or the first again when wrapping, where every whole phase is the first element and phases go round in both directions, negative ones included. A lookup table is linear between its points, clamps to the first and last point outside its range and stays inside the table for every value, even for what is not a number; generate evaluates the function at evenly spaced values. The sine, tangent, exponential, power and logarithm tables hold those functions entry by entry; sin, cos, tan, pow2, setPitchMultiple and audioFreqToNorm follow them, for negative arguments as well.",
  [INPUT], "all element values in [-1024, 1024], all phases, all indices up to 2^13 in both directions; every table entry; functions over the tables on an even grid (bounded)",
  "tests sample a few phases and never a negative one",
  ["interp_array.hh", "lookup_table.hh", "math_tables.cc", "math.hh"], [("index and weight", "interp_array.hh"), ("clamp and lookup", "lookup_table.hh"), ("entries", "math_tables.cc"), ("sin, cos, tan, pow2", "math.hh")],
  "Floats as exact or correctly rounded reals (vp/real.py); wrapping is proved with elements taken from a free module, so that a result is the list of its weights. Functions over the 2048-entry tables: bounded, on a grid. " + BITS)

P("C26", "Gliding parameters take equal steps, never pass their target, and arrive",
  "A parameter given a new value does not jump: each update moves it by the distance divided by the number of updates; integer parameters never pass the new value and end short of it by less than one per update. Snapping yields exactly the target. The filtered array reads each channel once per new reading, spreads it over as many updates as the reading before took, and from then on yields exactly the filtered value.",
  [HIST, INPUT], "all values whose distance is representable, any number of updates",
  "tests glide between a few values",
  ["interp_param.hh", "filtered_interp_array.hh"], [("step size", "interp_param.hh"), ("update count and snap", "filtered_interp_array.hh")],
  "Arrival is proved for integer parameters with 4 and 256 updates; float parameters take the exactly defined steps. " + BITS)

P("C38", "Calibration maps the measured points to their targets and back",
  "A calibrator fitted to two points maps each measurement to its target and each target back to its measurement, and reverse undoes adjust; uncalibrated it leaves values alone. A volt-per-octave calibrator finds the slope and the offset of any linear oscillator from its two latest different notes, whatever came before; a measurement of C0 is the offset and is kept until reset; reset forgets everything.",
  [INPUT, HIST], "all integer slopes, offsets and measurements in the stated ranges, all pairs of notes, up to two earlier measurements",
  "tests calibrate a few points",
  ["calibrator.hh", "voct_calibrator.hh"], [("slope and offset of a line", "calibrator.hh"), ("latest two points, C0 override", "voct_calibrator.hh")],
  "Proved for values for which float arithmetic is exact (integers, spans that are powers of two), so that the result is defined to the last bit. " + BITS)

P("C39", "A memory test passes on working memory and fails on any wrong read",
  "The memory test passes on every range of working memory, whatever it held, and touches nothing outside of the range. It passes exactly if every word, read after it was written, yields what was written last; all words hold different values when they are read, so that no two addresses can share a cell unnoticed. A reversed range is refused.",
  [FAULT, INPUT], "every length up to 2^24 words, all contents, every misbehaviour at every read",
  "tests run it on one working array",
  ["mem_test.hh"], [("write and read loops with one pattern", "mem_test.hh")],
  "Unbounded, by loop invariant; every read of misbehaving memory may yield anything. That all words differ is a lemma about the pattern. Additional bounded contracts run every order of accesses for up to five words. " + BITS)

P("C40", "Input and output buffers keep order, stop when full and start over on reset",
  "An input buffer holds what was put since the last reset, in order, and drops what does not fit; an output buffer hands out its data in order and default values once depleted, without altering the data. Both report full exactly at their capacity and start over at the front after reset.",
  [HIST, INPUT], "every fill level, all values, several capacities",
  "not covered by tests",
  ["input_output_buffer.hh"], [("head position and full check", "input_output_buffer.hh")],
  "Capacities are template constants: several instances; histories up to two beyond the capacity, after which the state repeats. " + BITS)
