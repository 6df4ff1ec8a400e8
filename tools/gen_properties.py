#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CH = "chacha20/src/"
BK = [CH + "backends/soft.rs", CH + "backends/sse2.rs", CH + "backends/avx2.rs", CH + "backends/avx512.rs", CH + "backends/neon.rs"]

prop("C01", "ChaCha8/12/20 and legacy ChaCha20 keystreams equal the specification",
 "For every 256-bit key, every nonce, every block position and every requested length, the keystream of ChaCha8, ChaCha12 and ChaCha20 (96-bit nonce, 32-bit block counter) and of legacy ChaCha20 (64-bit nonce, 64-bit block counter) is byte for byte the one RFC 8439 / Bernstein's ChaCha definition prescribes with that number of rounds. This holds whichever of the available instruction-set backends computes it, for single blocks, full parallel batches and every shorter tail, also where the low 32 bits of the block counter carry or the counter is near its end.",
 ["inputs", "configurations"], "all keys, nonces, block positions and lengths, for each round count and nonce format, on each backend",
 "The known-answer tests use a handful of keys, start near block 0 (or one wrap position) and a few lengths; parallel-batch tails, carries inside a batch and special state words are only sampled.",
 BK + [CH + "lib.rs", CH + "chacha.rs", CH + "legacy.rs", CH + "variants.rs"],
 [("state layout and initialisation", CH + "lib.rs ChaChaCore::new_internal"), ("round function and feed-forward per backend", CH + "backends/*"), ("parallel batch/tail dispatch", CH + "backends/avx512.rs gen_tail_blocks and cipher's StreamCipherCore closures")],
 observe=["output of apply/write keystream"])

prop("C02", "Extended-nonce ciphers and their subkey functions equal the specification",
 "For every key and 16-byte input, the ChaCha- and Salsa-based subkey derivation functions return exactly what the XChaCha draft and the XSalsa20 paper define, for every round count. For every key and 24-byte nonce, XChaCha8/12/20 and XSalsa8/12/20 produce exactly the keystream of the underlying cipher keyed with the subkey derived (with the same round count) from the first 16 nonce bytes and using the last 8 nonce bytes as its nonce.",
 ["inputs"], "all keys, 16-byte inputs, 24-byte nonces, positions and lengths, for each round count",
 "Only one published vector per function and round count 20 is tested for the subkey function; the reduced-round extended-nonce variants have few or no vectors.",
 [CH + "xchacha.rs", "salsa20/src/xsalsa.rs"],
 [("subkey derivation", CH + "xchacha.rs hchacha; salsa20/src/xsalsa.rs hsalsa"), ("nonce split", CH + "xchacha.rs / salsa20/src/xsalsa.rs KeyIvInit::new")],
 observe=["subkey function return value", "keystream output"])

prop("C03", "Salsa20/8, /12 and /20 keystreams equal the specification",
 "For every 256-bit key, 64-bit nonce, block position and length, the keystream of Salsa20/8, Salsa20/12 and Salsa20/20 is byte for byte the one of Bernstein's Salsa20 specification with that number of rounds. This includes positions whose 64-bit block counter carries from its low to its high half or is near its maximum, and cores created from a caller-supplied raw state.",
 ["inputs"], "all keys, nonces, block positions, lengths and raw states, for each round count",
 "The tests use a few ECRYPT vectors near the stream start; no carry of the 64-bit counter, no raw-state use and few special words are exercised.",
 ["salsa20/src/lib.rs", "salsa20/src/backends/soft.rs"],
 [("state layout", "salsa20/src/lib.rs KeyIvInit::new, from_raw_state"), ("rounds and counter increment", "salsa20/src/backends/soft.rs")], observe=["keystream output"])

prop("C04", "Rabbit keystreams equal RFC 4503, with and without IV, for any length",
 "For every 128-bit key (and every 64-bit IV where one is used) the Rabbit keystream equals the one defined by RFC 4503 byte for byte, at every offset of arbitrarily long streams (byte strings are read little-endian, as in the eSTREAM reference code; the RFC prints the same values most significant byte first). The key-only cipher and the key-plus-IV cipher are the two distinct schedules of the RFC, and an IV applied to a freshly keyed instance (before any output) gives the same stream as creating the cipher from key and IV together.",
 ["inputs"], "all keys, IVs and stream lengths",
 "Tests use the RFC's vectors (48 bytes of output); counter-carry propagation over long streams and special keys/IVs are not reached.",
 ["rabbit/src/lib.rs"],
 [("key and IV setup", "rabbit/src/lib.rs State::setup_key, setup_iv"), ("counter system with carry", "rabbit/src/lib.rs counter_update"), ("next-state and extraction", "rabbit/src/lib.rs next_state, extract")],
 state=[("counter carry bit", "carry out of the last counter word, fed into the next update", "rabbit/src/lib.rs")], observe=["keystream output"])

prop("C05", "HC-256 keystreams equal the specification for any length",
 "For every 256-bit key and 256-bit IV, the HC-256 keystream equals the one of Wu's HC-256 specification byte for byte, at every offset of arbitrarily long streams, including every switch between the two tables.",
 ["inputs"], "all keys, IVs and stream lengths",
 "Tests compare a few short vectors; most table indices, table switches and long streams are never reached.",
 ["hc-256/src/lib.rs"],
 [("key/IV expansion and 4096 warm-up steps", "hc-256/src/lib.rs KeyIvInit::new"), ("step function", "hc-256/src/lib.rs gen_word, g1, g2, h1, h2")],
 state=[("step index", "position in the 2048-step P/Q cycle", "hc-256/src/lib.rs")], observe=["keystream output"])

prop("C06", "RC4 keystreams equal the algorithm for every key length from 1 to 256",
 "For every key of 1 to 256 bytes, the RC4 keystream equals the one of the standard key schedule and output generator, byte for byte, at every offset of arbitrarily long streams.",
 ["inputs"], "all keys of every accepted length and all stream lengths",
 "Tests use a few vectors with short keys; lengths that are not sampled, long keys and long streams are not reached.",
 ["rc4/src/lib.rs"],
 [("key schedule", "rc4/src/lib.rs new_from_slice"), ("output generator", "rc4/src/lib.rs prga")], observe=["keystream output"])

prop("C07", "All backends and build configurations compute identical results",
 "Every supported build of the ChaCha crate - portable, SSE2, AVX2, AVX-512 or NEON code, chosen automatically or forced, with overflow checks on or off, and with any set of optional features - computes identical ciphertexts, positions, random-number-generator outputs and generator states for identical call sequences. This also covers block-level random generation driven directly on the cipher core with either counter width, across counter wrap-around.",
 ["configurations", "histories"], "all documented backend/feature/profile configurations times all call sequences",
 "Each test run exercises one backend chosen at build time against fixed vectors; no test compares two configurations on the same inputs, and the forced AVX2/AVX-512 and NEON builds are not run.",
 BK + [CH + "lib.rs", CH + "backends.rs", CH + "rng.rs"],
 [("compile-time and run-time backend selection", CH + "lib.rs process_with_backend; " + CH + "rng.rs Generator::generate"), ("per-backend counter arithmetic", CH + "backends/*")], observe=["ciphertext", "positions", "RNG words"])

prop("C08", "Output does not depend on chunking or on the API used to process data",
 "For every cipher in the repository, processing a message in any sequence of pieces (including empty ones), through any mix of the in-place, buffer-to-buffer, separate input/output, keystream-writing, checked and unchecked entry points, yields exactly the bytes obtained by processing it in one call, and leaves the cipher at the same stream position.",
 ["histories", "inputs"], "all ciphers, all messages, all partitions of a message and all assignments of entry points to pieces",
 "The shared test macro splits a few fixed vectors into equal chunks with one entry point; it does not mix entry points, sizes around the batch widths, or long histories.",
 [CH + "backends/avx512.rs", CH + "backends/avx2.rs", CH + "backends/sse2.rs", CH + "backends/soft.rs", "salsa20/src/backends/soft.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
 [("block-level backends under a buffering wrapper", "StreamCipherCore implementations of each crate"), ("RC4's byte-level apply and write", "rc4/src/lib.rs StreamCipher impl")], observe=["output bytes", "stream position"])

prop("C09", "Applying the keystream is a pure XOR: self-inverse and data-independent",
 "For every cipher, key, nonce, position and data, the output is the input XOR a keystream that depends only on key, nonce and position - never on the data - so that applying the cipher twice from the same position restores the input. Buffer-to-buffer processing leaves the input buffer untouched, does not depend on the previous content of the output buffer, and all calls write exactly the requested number of bytes.",
 ["inputs", "histories"], "all ciphers, keys, nonces, positions and data",
 "Tests encrypt fixed plaintexts, mostly zeros; they do not vary the data for a fixed key or check input buffers and prior output contents.",
 [CH + "lib.rs", "salsa20/src/lib.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
 [("keystream blocks computed from state only", "gen_ks_block / gen_par_ks_blocks implementations"), ("RC4 in/out XOR", "rc4/src/lib.rs unchecked_apply_keystream_inout")], observe=["output buffer", "input buffer"])

prop("C10", "Seeking lands on the exact byte and positions are reported exactly",
 "For every seekable cipher (ChaCha, XChaCha, legacy ChaCha, Salsa, XSalsa families), after any history of processing and seeking, seeking to any valid byte position, given in any supported integer type, makes the following output equal the keystream from that byte on, and the reported position then equals that byte offset and advances by exactly the number of bytes processed. Seeking backwards, repeatedly, or to the current position never changes which byte of keystream belongs to which position.",
 ["histories", "inputs"], "all seekable ciphers, all histories of processing/seek/query operations, all valid positions and integer types",
 "The shared seek test walks a short fixed vector; it does not reach positions beyond it, 32- and 64-bit counter boundaries, mixed histories or all position types.",
 [CH + "lib.rs", CH + "variants.rs", CH + "xchacha.rs", "salsa20/src/lib.rs", "salsa20/src/xsalsa.rs"] + BK,
 [("block position get/set", CH + "variants.rs; salsa20/src/lib.rs StreamCipherSeekCore"), ("counter write-back after processing", CH + "backends/* inner")],
 state=[("block counter words", "position of the next block", CH + "lib.rs / salsa20/src/lib.rs")], observe=["reported position", "keystream after seek"])

prop("C11", "The end of the keystream is refused cleanly and keystream is never reused",
 "For every seekable cipher, a request that would run past the last usable keystream byte, or a seek beyond the counter range, is refused with an error, changes neither the data buffer nor the cipher's state, and every request that fits is served with correct keystream, so a cipher never silently wraps and repeats keystream. Ciphers without a length limit never report exhaustion.",
 ["histories", "inputs"], "all seekable ciphers, all positions near the end of the counter range and all request sizes and histories there",
 "Tests check one or two positions at the 32-bit limit of one variant; 64-bit limits, partial blocks at the end, state after an error and continued use afterwards are not covered.",
 [CH + "variants.rs", CH + "lib.rs", CH + "xchacha.rs", "salsa20/src/lib.rs", "salsa20/src/xsalsa.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
 [("remaining-block computation", CH + "variants.rs remaining_blocks; salsa20/src/lib.rs remaining_blocks"), ("no limit for HC-256, Rabbit, RC4", "remaining_blocks -> None; rc4 check_remaining")], observe=["Result of checked calls", "buffer contents after an error", "position after an error"])

prop("C12", "RNG output is the ChaCha keystream of its seed, stream and position",
 "For every seed, stream identifier and word position, the values returned by ChaCha8/12/20-based random number generators, read through any mix of 32-bit, 64-bit and byte-fill calls, are exactly the consecutive little-endian words of the ChaCha keystream with 64-bit counter and the stream as nonce, each word being used once and in order. A byte fill consumes whole words, discarding only the unread part of its last word, a 64-bit value is two consecutive words low half first, and output continues seamlessly when the 64-bit block counter wraps.",
 ["histories", "inputs"], "all seeds, streams, positions and all interleavings of read calls",
 "Tests compare a few seeds at the stream start plus one wrap position; interleavings of read sizes across internal buffer refills are not enumerated.",
 [CH + "rng.rs"] + BK,
 [("four-block generation", CH + "rng.rs Generator::generate"), ("buffering of words", "BlockRng use in " + CH + "rng.rs")],
 state=[("buffer cursor", "index of the next unread word", CH + "rng.rs core")], observe=["returned words and bytes"])

prop("C13", "RNG position, stream and seed accounting is exact, also across wrap-around",
 "After any history of reads and position or stream changes, the reported word position is the number of words consumed from the stream start modulo 2^68, the reported block position is that value divided by 16 (rounded down), and the reported stream and seed are those last set. Setting a word position (taken modulo 2^68) or a block position makes the following output start at exactly that word or block, setting the stream restarts it at position 0 with the seed unchanged, and none of these operations ever fails.",
 ["histories", "inputs"], "all RNGs and all histories of read, set and query operations including positions at the wrap of the 64-bit block counter",
 "Tests check a few positions after a few reads; queries in the middle of a buffered batch, after wrap-around and after mixed operations are not enumerated (the query after wrap-around indeed overflowed).",
 [CH + "rng.rs"],
 [("position arithmetic over counter and buffer cursor", CH + "rng.rs get_word_pos, set_word_pos, get_block_pos, set_block_pos"), ("stream words", CH + "rng.rs set_stream, get_stream")],
 state=[("counter and cursor", "counter runs ahead of the consumed position by the buffered blocks", CH + "rng.rs")], observe=["reported positions, stream, seed", "output after a set"])

prop("C14", "RNG state survives serialization, and equality means equal future output",
 "For every RNG state reachable by any history, restoring a serialized state gives a generator that is equal to the original, reports the same seed, stream and position, and produces the same output forever; serialization is a function of seed, stream and position only, in the documented 49-byte layout, and every 49-byte string restores without failing. Two generators of the same type compare equal exactly when seed, stream and position agree, whatever part of the keystream each has buffered.",
 ["histories", "inputs"], "all RNG histories, all 49-byte strings, and all pairs of histories",
 "Tests serialize at a few points only; states in the middle of a batch, at wrap-around, arbitrary byte strings and pairs with different buffering are not enumerated.",
 [CH + "rng.rs"],
 [("serialize/deserialize", CH + "rng.rs serialize_state, deserialize_state"), ("custom equality", CH + "rng.rs PartialEq")], observe=["serialized bytes", "equality", "output after restore"])

prop("C15", "Instances are independent and deterministic, also across threads",
 "The output and reported position of a cipher or RNG instance depend only on its own key material and its own call history: interleaving calls to any number of other instances, moving an instance in memory or to another thread, running instances concurrently, creating and dropping others, or repeating the same history later, changes nothing.",
 ["histories", "schedules"], "all interleavings of histories over several instances and threads",
 "Tests use one instance at a time in one thread.",
 [CH + "lib.rs", CH + "rng.rs", "salsa20/src/lib.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
 [("all state owned by the instance", "struct definitions of each crate"), ("cached CPU-feature detection is the only shared state", CH + "lib.rs cpufeatures::new!")], observe=["outputs of every instance"])

prop("C16", "With the zeroize feature, dropping a cipher or RNG wipes its secrets",
 "When a crate is built with its zeroize feature, dropping any cipher, cipher core or RNG value, at any point of its life, leaves in the memory the value occupied no byte that depends on the key, seed, nonce, position, buffered keystream or processed data. Every such value type is marked as wiping itself on drop.",
 ["histories", "inputs", "configurations"], "all cipher and RNG types, all keys, nonces and histories before the drop",
 "No existing test looks at memory after a drop; they only compile with the feature enabled.",
 [CH + "lib.rs", CH + "rng.rs", CH + "xchacha.rs", "salsa20/src/lib.rs", "salsa20/src/xsalsa.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
 [("Drop implementations", "each crate's Drop under cfg(feature = \"zeroize\")"), ("buffer wiping in the RNG", CH + "rng.rs Generator::drop"), ("wrapper buffer wiping", "zeroize = [\"cipher/zeroize\"] in Cargo.toml")], observe=["bytes of the dropped object's memory"])

prop("C17", "Debug output never reveals secrets or state",
 "Formatting any cipher, cipher core or RNG value for debugging, plain or pretty-printed, gives a text that is the same for all values of that type: it does not depend on key, seed, nonce, stream, position or buffered output.",
 ["inputs", "histories"], "all debuggable types, all secrets and all histories",
 "At most one fixed formatting is compared in tests; dependence on secrets is a relation between two runs.",
 [CH + "lib.rs", CH + "rng.rs", CH + "xchacha.rs", "hc-256/src/lib.rs"],
 [("hand-written Debug implementations", CH + "lib.rs, " + CH + "rng.rs, hc-256/src/lib.rs")], observe=["formatted text"])

prop("C18", "Processing touches exactly the caller's bytes and never misbehaves",
 "For every cipher and RNG, every buffer length from zero up and every alignment, processing reads and writes only the bytes of the buffers it was given and writes every byte it was asked to produce. No sequence of public calls with documented-valid arguments panics, overflows or performs undefined behaviour in any build, including builds with overflow checks.",
 ["inputs", "histories", "configurations"], "all lengths and alignments of buffers, all valid call histories, on each backend",
 "Tests use vectors inside larger allocations where an out-of-bounds access goes unnoticed, at few lengths and one alignment; overflow panics at extreme positions are not reached.",
 BK + ["salsa20/src/backends/soft.rs", "rc4/src/lib.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", CH + "rng.rs"],
 [("raw-pointer vector loads and stores", CH + "backends/*"), ("counter arithmetic with wrapping operations", CH + "rng.rs; salsa20/src/backends/soft.rs")], observe=["memory around the buffers", "panics, faults, Miri/sanitizer reports"])

prop("C19", "ChaCha runs in constant time with respect to keys, seeds and data",
 "For every public input (lengths, positions, call sequence), creating and using any ChaCha or XChaCha cipher, ChaCha-based subkey derivation or ChaCha-based RNG executes branches and memory accesses that do not depend on the key, seed, nonce or data. (Comparing two RNGs for equality is not covered.)",
 ["inputs", "histories", "configurations"], "all call histories and secrets, for each backend that can be instrumented (portable, SSE2, AVX2)",
 "Functional tests do not observe control flow or addresses.",
 BK + [CH + "lib.rs", CH + "xchacha.rs", CH + "rng.rs"],
 [("add-rotate-xor only code without tables or secret branches", CH + "backends/*; " + CH + "xchacha.rs hchacha")], observe=["branches and addresses in a taint-tracking emulation"])

prop("C20", "Constructors accept exactly the documented key and nonce lengths",
 "For every cipher, creating an instance from byte slices succeeds exactly when key and nonce have the cipher's documented lengths (1 to 256 bytes for RC4 keys) and otherwise returns an error without panicking; when it succeeds the instance behaves identically to one created from fixed-size arrays, and every key and nonce bit that the algorithm uses takes effect.",
 ["inputs"], "all ciphers and all slice lengths and contents",
 "Tests construct with correct lengths only.",
 [CH + "chacha.rs", CH + "legacy.rs", CH + "xchacha.rs", "salsa20/src/lib.rs", "salsa20/src/xsalsa.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
 [("declared key/IV sizes", "KeySizeUser / IvSizeUser impls"), ("RC4's own length check", "rc4/src/lib.rs new_from_slice")], observe=["Result of construction", "keystream"])

prop("C21", "Block-level processing matches byte-level output and counts blocks exactly",
 "Driving a cipher core block by block - single blocks, runs of any number of blocks, parallel batches and tails in any order, in place or between buffers, or as a final partial message - yields the same keystream as the byte-oriented interface and advances the reported block position by exactly the number of blocks produced, without ever altering key or nonce. The block position can be set to any value of the counter type and read back, a final partial message may use the very last block of the keystream, longer ones are refused.",
 ["histories", "inputs"], "all cipher cores, all sequences of block-level operations and all block positions, including counter carry and the last block",
 "Tests drive only the byte-level interface with short vectors; mixed single/parallel/tail sequences within one session and counter edges are not reached.",
 BK + [CH + "lib.rs", CH + "variants.rs", "salsa20/src/lib.rs", "salsa20/src/backends/soft.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs"],
 [("backend sessions with counter write-back", CH + "backends/* inner"), ("counter get/set", CH + "variants.rs; salsa20/src/lib.rs"), ("core/wrapper conversion", "StreamCipherCoreWrapper::from_core / get_core")], observe=["keystream blocks", "block position"])

prop("C22", "Results are the same on big-endian, 32-bit and ARM targets, free of UB",
 "On little- and big-endian, 32- and 64-bit, x86 and ARM (NEON) targets, every cipher, RNG and subkey function gives byte-identical results for identical calls, and no call performs undefined behaviour (out-of-bounds or misaligned access, use of uninitialised memory) on any of them.",
 ["configurations", "inputs", "histories"], "all targets (one representative each: aarch64+NEON, s390x big-endian, i686) times all call histories",
 "The test suite runs on the host architecture only; the NEON backend is not even compiled here.",
 [CH + "backends/neon.rs", CH + "backends/soft.rs", CH + "lib.rs", CH + "rng.rs", CH + "xchacha.rs", CH + "variants.rs", "salsa20/src/lib.rs", "salsa20/src/xsalsa.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
 [("explicit little-endian conversions", "from_le_bytes/to_le_bytes in every crate"), ("NEON implementation", CH + "backends/neon.rs"), ("remaining blocks fit into the machine word", CH + "variants.rs remaining_blocks")], observe=["output under an interpreter for the target"])

prop("C23", "Every documented feature and backend combination builds and works",
 "For every combination of a crate's optional features, every documented backend selection flag (given the CPU features it asks for) and every build profile, the crate compiles and the ciphers and RNGs it exposes give correct results; enabling an additional feature never changes the results of what was already there.",
 ["configurations"], "all feature subsets of each crate times all documented backend flags",
 "CI and the tests build a few combinations; the forced AVX-512 selection as documented did not compile.",
 [CH + "lib.rs", CH + "backends.rs", CH + "rng.rs", CH + "variants.rs", "chacha20/Cargo.toml", "salsa20/Cargo.toml", "hc-256/Cargo.toml", "rabbit/Cargo.toml", "rc4/Cargo.toml"],
 [("conditional compilation", CH + "lib.rs, " + CH + "backends.rs")], observe=["compiler result", "outputs of the built crate"])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
