NYI = "check not built yet (work in progress)"
SEED = "Held on the seeded executions counted in the evidence file; says nothing about inputs the generators do not reach. Trusts the vendored brotli crate where the workload goes through it."
p("C01", "Hybrid compressor: decoding returns exactly the original bytes",
  "For every byte string and every option set the compressor accepts, compressing through the Brotli-assisted DivANS compressor and decompressing the result with CRC checking on ends in Success and returns exactly the original bytes, having consumed the whole stream. This holds for every way of cutting the input and the output into calls.",
  ["inputs", "configurations", "histories"], "all byte strings x all compressor options (window, quality, block size, mixing, prior depth, stride and speed settings, IR optimizer) x all call chunkings",
  "Tests round-trip a handful of fixed files with a few option sets; adaptation state, window wraps, context maps and chunking interact in ways only a large mixed workload reaches.",
  ["src/brotli_ir_gen.rs", "src/codec/mod.rs", "src/codec/literal.rs", "src/codec/copy.rs", "src/codec/dict.rs", "src/codec/context_map.rs", "src/cmd_to_raw/mod.rs"],
  [("encoder and decoder share one state machine that codes or decodes each nibble", "src/codec/mod.rs"), ("CRC of the stream is appended and checked", "src/divans_decompressor.rs")],
  ["bytes returned by the streaming API", "end result code"],
  "round-trip oracle over randomized executions of the real codec, in watched worker processes", SEED)
p("C02", "Internal (no Brotli) compressor: decoding returns the original bytes",
  "For every byte string and every accepted option set, compressing with DivANS's own match finder and decompressing the result ends in Success with exactly the original bytes. This holds for every cutting of input and output into calls.",
  ["inputs", "configurations", "histories"], "all byte strings x options x chunkings, including inputs several times larger than the window",
  "Tests cover a few fixed inputs; ring buffer wraps and pending copies depend on the exact split of input and output.",
  ["src/raw_to_cmd/mod.rs", "src/raw_to_cmd/hash_match.rs", "src/divans_compressor.rs", "src/cmd_to_divans/mod.rs"],
  [("raw bytes are kept in a ring buffer and cut into commands", "src/raw_to_cmd/mod.rs"), ("command queue drained under output backpressure", "src/divans_compressor.rs")],
  ["bytes returned by the streaming API"],
  "round-trip oracle over randomized executions of the real codec", SEED)
p("C03", "Decoded bytes depend only on the stream, not on chunking or API path",
  "For a given compressed stream, the decoded bytes and whether decoding completes are the same for every cutting of input and output into calls (down to one byte at a time, with empty calls in between) and through every public decoding path: streaming decompressor, Read adapter, Write adapter, and the C interface. Repeating a call after completion produces no further bytes and never turns Success into anything else.",
  ["inputs", "histories", "configurations"], "all valid streams x all input/output chunkings x all decode paths",
  "Unit tests use a few fixed buffer sizes; every suspension point of a resumable state machine must save and restore its state exactly.",
  ["src/divans_decompressor.rs", "src/codec/mod.rs", "src/mux.rs", "src/reader.rs", "src/writer.rs", "src/ffi/mod.rs", "src/parallel_decompressor.rs"],
  [("every coder step can return and be resumed", "src/codec/interface.rs"), ("demultiplexer resumable at every byte", "src/mux.rs")],
  ["bytes and results of each path"],
  "differential monitor: one stream decoded under many schedules and paths, all compared", SEED)
p("C04", "Multithreaded and serial decoding agree and always terminate",
  "For every stream, the multithreaded decompressor returns the same bytes as the serial one and completes exactly when the serial one completes. It never deadlocks, panics or leaves a thread stuck, whatever the stream contains, however calls are cut, and at whatever point it is freed.",
  ["schedules", "inputs", "histories"], "all streams (valid, truncated, corrupt) x thread interleavings x chunkings x points of early release",
  "Tests decode a few good streams to the end; deadlocks and lost wakeups need early release, backpressure or broken streams under particular schedules.",
  ["src/multithreading.rs", "src/parallel_decompressor.rs", "src/threading.rs", "src/codec/decoder.rs", "src/codec/mod.rs"],
  [("mutex and condition variable hand-off between the command thread and the literal thread", "src/multithreading.rs"), ("error broadcast wakes waiters", "src/multithreading.rs")],
  ["output bytes", "result codes", "blocked-process detector of the case runner"],
  "differential monitor serial vs threaded with a blocked-process detector", SEED)
p("C05", "Hostile compressed input never crashes, hangs or exhausts the decoder",
  "For every byte string offered as a compressed stream, with any chunking and with CRC checking on or off, decoding never panics, never touches memory out of bounds and never stops making progress: after a bounded number of calls it has succeeded, failed, asked for input that was not given, or produced further output. Its memory use stays within a bound fixed by the window size, the bytes given to it and the length of the largest literal a command announces, and its offsets stay inside the buffers given.",
  ["inputs", "histories"], "all byte strings (random, structured, mutated valid streams) x chunkings x skip_crc",
  "Unit tests feed well-formed streams only; corrupt ones reach commands, distances, context maps and block types no encoder emits.",
  ["src/codec/mod.rs", "src/codec/copy.rs", "src/codec/dict.rs", "src/codec/literal.rs", "src/codec/context_map.rs", "src/codec/block_type.rs", "src/cmd_to_raw/mod.rs", "src/mux.rs", "src/ans.rs", "src/divans_decompressor.rs"],
  [("each decoded field is range checked before use", "src/codec/copy.rs"), ("failures are sticky results, not panics", "src/codec/mod.rs")],
  ["panics, aborts, sanitizer reports, heap high-water mark, CPU time, offsets"],
  "panic, overflow, CPU and heap monitors over hostile streams, repeated in an AddressSanitizer build", SEED)
p("C06", "Corruption is never accepted as different content",
  "When a compressed stream is altered in any way (bits flipped, bytes inserted, removed, overwritten, truncated or spliced) and decoded with CRC checking on, decoding either does not succeed or returns exactly the original bytes; it never succeeds with other bytes.",
  ["inputs", "fault_sequences"], "all valid streams x all alterations, up to the 2^-32 collision chance of the checksum",
  "Tests corrupt nothing systematically; acceptance depends on every exit path reaching the checksum comparison.",
  ["src/divans_decompressor.rs", "src/codec/crc32.rs", "src/codec/mod.rs", "src/mux.rs"],
  [("CRC32C over the whole compressed stream compared with the trailer before Success", "src/divans_decompressor.rs")],
  ["result code and bytes after alteration"],
  "corruption oracle over mutated streams of the real encoder", SEED)
p("C07", "A cut stream is never reported complete, and its output is a prefix",
  "For every proper prefix of a valid compressed stream, no decoding path reports completion: the streaming and C decoders ask for more input or fail, and the Read adapter does not end cleanly before all original bytes were returned. All bytes delivered before that point are a prefix of the original.",
  ["inputs", "crash_points"], "all valid streams x every cut position x decode paths",
  "Tests decode whole streams; a cut can fall on any byte of the header, any packet, the end marker or the checksum.",
  ["src/divans_decompressor.rs", "src/mux.rs", "src/reader.rs", "src/codec/mod.rs"],
  [("Success only after end marker, final command and trailer", "src/divans_decompressor.rs")],
  ["result code and bytes at every cut"],
  "exhaustive cut positions per generated stream, prefix oracle", SEED)
p("C08", "Every byte taken from a caller's allocator is given back, once",
  "Whatever the input, options, results or point of release, each block a compressor or decompressor obtained from the caller's allocators has been returned to them exactly once when it has been freed or consumed, with the block unchanged in size, and no block is used after it was returned.",
  ["inputs", "histories", "fault_sequences"], "all inputs (valid and hostile) x early release at any call x custom allocators, Rust and C",
  "Tests use the global heap, where a leak or a mismatched release is silent.",
  ["src/divans_compressor.rs", "src/divans_decompressor.rs", "src/codec/mod.rs", "src/cmd_to_raw/mod.rs", "src/ffi/alloc_util.rs", "src/multithreading.rs", "src/threading.rs", "src/brotli_ir_gen.rs", "src/resizable_buffer.rs"],
  [("free() hands each owned buffer back to its allocator", "src/codec/mod.rs")],
  ["allocator calls recorded at the boundary"],
  "allocator ledger: recording Rust and C allocators (red zones, quarantine) and process heap balance over randomly released coders", SEED)
p("C09", "C interface: memory-safe, offset-exact and equal to the Rust API",
  "Driven from C with any chunking, the compressor and decompressor functions produce streams and bytes interchangeable with the Rust API, advance the caller's offsets only within the given buffers, and touch no memory outside them. Creating, using and freeing states in any order (including early frees, custom allocators, and options set before use) neither leaks nor corrupts memory, and bad option selectors are refused with a failure code.",
  ["inputs", "histories", "configurations"], "all data x chunkings x options x allocator choices x lifecycle orders",
  "One C example runs once on one file; pointer arithmetic at the boundary needs sanitizers and many schedules.",
  ["src/ffi/mod.rs", "src/ffi/compressor.rs", "src/ffi/decompressor.rs", "src/ffi/alloc_util.rs", "c/divans/ffi.h"],
  [("raw pointers turned into slices at the boundary", "src/ffi/mod.rs"), ("custom allocator wrapper", "src/ffi/alloc_util.rs")],
  ["C calls recorded between unmapped pages by a shim compiled from the C header"],
  "runtime monitor: a shim compiled from the C header drives the exported functions with buffers between unmapped pages and a ledger allocator, in lockstep with the Rust interface, repeated under AddressSanitizer", SEED)
p("C10", "Read and Write adapters survive short, interrupted and failing I/O",
  "The Read and Write adapters deliver exactly the right bytes whatever partial reads and writes, interruptions and buffer sizes the underlying stream or the caller uses, and once closed the written stream is complete. An error of the underlying stream is reported to the caller, never taken for the end of the data, and what was delivered before it is a prefix of the right result. A Read adapter asked again after its source recovered continues without loss.",
  ["inputs", "fault_sequences", "histories"], "all data x short/interrupted/failing underlying I/O at any call x caller buffer sizes x adapter kinds",
  "Tests use well-behaved in-memory streams with a few buffer sizes.",
  ["src/reader.rs", "src/writer.rs"],
  [("internal buffer between the codec and the stream", "src/reader.rs"), ("internal buffer drained before each codec call", "src/writer.rs")],
  ["bytes and io::Results at the adapter boundary"],
  "adapters driven over a scripted faulty stream (short, interrupted, failing calls) with a byte-exact oracle", SEED)
p("C11", "Streaming calls keep to the progress and offset protocol",
  "Every streaming call leaves both offsets at or beyond where they were and inside the buffers, leaves all bytes outside the newly written range untouched, and never loops without progress: a request for input means the input given was all consumed, and a request for output means the space given was used up or further calls with more space advance. Compressing n bytes in any sequence of encode and flush calls finishes after a number of calls bounded by the bytes moved, and using a stream after it has completed or failed neither panics nor emits anything.",
  ["histories", "inputs", "configurations"], "all call sequences (any offsets, any buffer sizes including zero, flush at any time) x data x options",
  "Tests follow the happy path with fixed buffers.",
  ["src/divans_compressor.rs", "src/brotli_ir_gen.rs", "src/divans_decompressor.rs", "src/codec/mod.rs", "src/interface.rs"],
  [("offsets are in/out parameters advanced by each stage", "src/interface.rs")],
  ["each call's offsets, buffers and result"],
  "online protocol monitor around every streaming call (offsets, canaries, progress, sticky end states)", SEED)
p("C12", "Stream multiplexer loses, duplicates and reorders nothing",
  "However bytes are appended to the multiplexer's streams, linearized into output buffers of any size, flushed, and fed to the demultiplexer in pieces of any size, each stream comes out byte for byte in order, with no byte moved between streams, and the end of stream is recognised exactly once, at its end.",
  ["inputs", "histories"], "all interleavings of append, linearize, flush and deserialize operations with arbitrary sizes",
  "Tests use fixed stream contents and a few buffer sizes.",
  ["src/mux.rs"],
  [("packet headers with stream id and length, end marker", "src/mux.rs")],
  ["bytes per stream at the demultiplexer against a queue model"],
  "online conformance monitor: real multiplexer pair against a per-stream queue model over random operation histories", SEED)
p("C13", "Entropy coder: every symbol sequence decodes to itself",
  "For every sequence of symbols and every sequence of valid probability ranges, of any length including beyond internal chunk boundaries, the ANS encoder's bytes drive the decoder through exactly the same symbols, independent of how the bytes are moved, and the decoder then has consumed all of them.",
  ["inputs", "histories"], "all symbol sequences x probability sequences x lengths up to several internal chunks x byte hand-over schedules",
  "Tests use a few fixed distributions and lengths.",
  ["src/ans.rs", "src/arithmetic_coder.rs", "src/probability/interface.rs"],
  [("reverse-order encoding in chunks, two interleaved states", "src/ans.rs")],
  ["decoded symbols against encoded ones"],
  "encode/decode differential over random symbol, probability and hand-over sequences", SEED)
p("C14", "Adaptive probability models stay valid under every update sequence",
  "Whatever symbols are observed at whatever adaptation speed, and however models are mixed, every model's cumulative frequencies stay strictly increasing so every symbol keeps a nonzero probability, stay within the coder's range, and map each coder offset back to the one symbol whose interval holds it. Encoder and decoder therefore always agree on non-empty, disjoint intervals inside the coder's range.",
  ["inputs", "histories"], "all update sequences x all adaptation speeds x all model kinds x mixing weights",
  "Tests check a few update sequences.",
  ["src/probability/interface.rs", "src/probability/frequentist_cdf.rs", "src/probability/opt_frequentist_cdf.rs", "src/probability/variant_speed_cdf.rs", "src/probability/numeric.rs", "src/probability/div_lut.rs", "src/codec/weights.rs"],
  [("renormalisation keeps the maximum below the limit", "src/probability/frequentist_cdf.rs")],
  ["CDF values after every update"],
  "invariant monitor on every model after every update, with exhaustive offset lookup", SEED)
p("C15", "Container header, checksum and trailer are exact and enforced",
  "Every compressed stream starts with the 16-byte header carrying the magic and the window size in use, and ends with the end marker, the little-endian CRC-32C of the compressed bytes before it, and the trailer magic. The decoder refuses any stream whose magic, window or trailer is wrong; with skip_crc it ignores only the checksum value, and otherwise it refuses every wrong checksum value.",
  ["inputs", "configurations"], "all data x options x every header and trailer byte alteration x chunkings",
  "Tests check round trips, in which writer and reader agree on any mistake.",
  ["src/divans_decompressor.rs", "src/divans_compressor.rs", "src/brotli_ir_gen.rs", "src/codec/crc32.rs", "src/codec/crc32_table.rs", "src/constants.rs"],
  [("header written and parsed", "src/divans_decompressor.rs"), ("CRC table", "src/codec/crc32_table.rs")],
  ["stream bytes against an independent bitwise CRC-32C"],
  "container layout oracle with an independent bitwise CRC-32C, plus a refusal oracle over every header and trailer alteration", SEED)
p("C16", "Command interpreter equals the reference expansion of commands",
  "For every valid sequence of literal, copy and dictionary commands, the command interpreter outputs exactly the bytes the commands denote, for overlapping copies, distances up to the whole history, every dictionary word and transform, sequences longer than its ring buffer, and every output chunking. Invalid commands are refused without a panic or out-of-bounds access.",
  ["inputs", "histories"], "all command sequences x ring buffer sizes x output chunkings",
  "Tests use a recorded command file.",
  ["src/cmd_to_raw/mod.rs", "src/codec/mod.rs"],
  [("ring buffer with resumable copies", "src/cmd_to_raw/mod.rs")],
  ["output bytes against a plain vector model"],
  "conformance monitor: the real interpreter against a plain vector expansion, under every output chunking, partly under AddressSanitizer", SEED)
p("C17", "Any valid command sequence survives encoding and decoding",
  "For every valid sequence of commands given directly to the compressor (literals with any context map, prediction mode, copies, dictionary words, and block switches), the decoder returns exactly the bytes those commands denote.",
  ["inputs", "configurations", "histories"], "all valid command sequences x compressor options x chunkings",
  "Brotli's command generator only produces a small part of the command space.",
  ["src/codec/mod.rs", "src/codec/context_map.rs", "src/codec/block_type.rs", "src/codec/copy.rs", "src/codec/dict.rs", "src/codec/literal.rs", "src/divans_compressor.rs"],
  [("command kinds coded nibble by nibble", "src/codec/mod.rs")],
  ["decoded bytes against the reference expansion"],
  "round-trip oracle: valid command sequences through encode_commands and the decoder, against a plain vector expansion of them", SEED)
p("C18", "Compression and decompression are deterministic",
  "Compressing the same bytes with the same options and calls gives the same stream every time: repeated in one process, in another process, on several threads at once, after any other work, and whatever the memory the allocator hands out contained. The same is true of decoding.",
  ["histories", "schedules", "inputs"], "all data x options x process/thread placement x allocator contents",
  "Tests run each case once in a fresh state.",
  ["src/codec/mod.rs", "src/brotli_ir_gen.rs", "src/divans_compressor.rs", "src/cmd_to_raw/mod.rs", "src/codec/priors.rs"],
  [("all adaptive state initialised on allocation", "src/codec/priors.rs")],
  ["stream bytes of repeated runs"],
  "repetition monitor: the same work repeated after other work, in recycled or junk-filled memory, on threads and in other processes, compared byte for byte", SEED)
p("C19", "Worker hand-off is race-free and loses no command or result",
  "Between the thread that decodes commands and the thread that decodes literals and writes bytes, every item handed over arrives exactly once and in order, buffers are handed back, and no memory is accessed by both without synchronisation, for every interleaving, including errors raised by either side and early shutdown.",
  ["schedules", "fault_sequences"], "all interleavings of producer and consumer operations, errors and shutdown",
  "Tests run one schedule.",
  ["src/multithreading.rs", "src/threading.rs", "src/parallel_decompressor.rs", "src/slice_util.rs"],
  [("bounded queues under one mutex with a condition variable", "src/multithreading.rs")],
  ["ThreadSanitizer reports, order of items at the consumer"],
  "runtime monitor: both ends of the queue played with stamped items under injected delays, and the threaded decoder, natively and under ThreadSanitizer", SEED)
p("C20", "IR optimizer preserves the content of the commands it rewrites",
  "For every valid command sequence the distance-cache optimizer emits a sequence that denotes exactly the same bytes, drops or duplicates no command, and fails only if it reports an error.",
  ["inputs", "configurations"], "all valid command sequences x cache contents",
  "It is exercised by one option on fixed files.",
  ["src/ir_optimize/mod.rs", "src/ir_optimize/cache.rs", "src/ir_optimize/statistics_tracking_codec.rs"],
  [("commands re-emitted with forecast distances", "src/ir_optimize/mod.rs")],
  ["expansion of the emitted commands against the input's"],
  "differential monitor: optimizer output against an independent reading of the command sequence", SEED)
p("C21", "Command line tool: every documented mode round-trips or fails loudly",
  "For every file and documented option set the command line tool writes a compressed file that it decompresses (serial or threaded, from file or standard input, by flag or by recognising the format) to the same bytes with exit status 0. Input it cannot process gives a nonzero exit status, never a silent success with wrong or missing output.",
  ["inputs", "configurations", "fault_sequences"], "all files x options x pipes and files x corrupt or truncated input",
  "The command line is covered by a few fixed runs.",
  ["src/bin/divans.rs", "src/bin/util.rs"],
  [("option parsing and recoding loops", "src/bin/divans.rs")],
  ["exit status and output files"],
  "runtime monitor: the tool run as a process on files, pipes, failing outputs and damaged input; exit status and bytes compared", SEED)
p("C22", "Out-of-range options are clamped or refused, never corrupting",
  "For every combination of option values, including ones outside their documented ranges, creating and using a compressor either reports failure or produces a stream that decodes to the original; the window size it announces is within 10 to 24. It never panics, hangs, or silently emits an undecodable stream.",
  ["configurations", "inputs"], "all option values over the full type ranges, through the Rust and the C option interfaces",
  "Tests use documented values.",
  ["src/interface.rs", "src/brotli_ir_gen.rs", "src/divans_compressor.rs", "src/ffi/compressor.rs"],
  [("window and quality clamped on construction", "src/brotli_ir_gen.rs")],
  ["result codes and round trip"],
  "round-trip-or-refusal oracle over option values from the full type ranges, Rust and C interfaces", SEED)
p("C23", "Streams written by earlier builds keep decoding to the same bytes",
  "Every stream produced by the released format, with whatever options and compressor path it was made, keeps decoding to the same bytes; a change to the code may not silently change the meaning of stored data.",
  ["inputs", "configurations"], "all streams of the current format, represented by a stored set covering every command kind, mode and option",
  "Round-trip tests pass when encoder and decoder change together.",
  ["src/codec/mod.rs", "src/codec/priors.rs", "src/codec/literal.rs", "src/probability/frequentist_cdf.rs", "src/ans.rs", "src/mux.rs"],
  [("fixed initial probabilities, adaptation rules and field order", "src/codec/priors.rs")],
  ["decoded bytes of stored streams"],
  "golden-trace oracle: 3458 streams written by the original build, decoded and compared with their recorded digests", SEED)
p("C24", "Builds with different features read each other's streams",
  "A stream compressed by a build with any supported set of optional features decodes to the original bytes in a build with any other supported set.",
  ["configurations", "inputs"], "all pairs of supported feature builds x data x options",
  "Each test run sees one build only.",
  ["src/probability/mod.rs", "src/probability/frequentist_cdf.rs", "src/probability/opt_frequentist_cdf.rs", "src/probability/numeric.rs", "src/slice_util.rs"],
  [("alternative implementations of the same arithmetic", "src/probability/opt_frequentist_cdf.rs")],
  ["decoded bytes across builds"],
  "runtime monitor: eight feature builds run as programs, every stream of each decoded by all", SEED)
p("C25", "Decoder memory is bounded by the window, not by the data",
  "While decoding any valid stream its compressors write, offered in bounded pieces with the next one only when asked for, the memory the decompressor holds (serial or with threads) stays within a fixed amount plus the window size, the largest literal command and a few input pieces, however long the data is and however little output space is offered. The internal compressor holds at most a fixed amount, its window and a small multiple of the compressed bytes not yet written, independent of the length of the input.",
  ["inputs", "histories"], "all valid streams, lengths far beyond the window, slow consumers",
  "Tests never measure memory.",
  ["src/divans_decompressor.rs", "src/mux.rs", "src/codec/mod.rs", "src/resizable_buffer.rs", "src/cmd_to_raw/mod.rs"],
  [("bounded demultiplexer buffers", "src/mux.rs")],
  ["heap high-water mark of the process"],
  "heap monitor: counting allocator peaks of decodings and compressions held against a bound set by the window", SEED)
p("C26", "Compression never expands data by more than a small bound",
  "For every input and option set the compressed size is at most the input size plus a small proportional and fixed overhead (14% and 220 bytes with the default adaptation speeds), and data with little information (repetitive, from few symbols, or where each symbol follows from the previous one) shrinks close to a small multiple of its information content, so the adaptive models do learn.",
  ["inputs", "configurations"], "all inputs (incompressible ones included) x options",
  "Tests only check sizes of a few files.",
  ["src/codec/literal.rs", "src/codec/priors.rs", "src/probability/interface.rs", "src/mux.rs", "src/ans.rs"],
  [("adaptive priors", "src/codec/literal.rs")],
  ["compressed sizes"],
  "size oracle: expansion bound and information-content bound over recorded compressions", SEED)
