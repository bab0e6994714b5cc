#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
L = "src/lib.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Every issued signature is accepted and recoverable at every receiver",
  "For any valid secret key and any 32-byte message, the signature and recovery id a signer issues have both components in 1..n-1 with s in the lower half, verify as true under the signer's public key, and recover to exactly that public key. This holds at every receiver that gets the bytes unaltered, in either signature encoding (64-byte compact, DER), through the built-in or a separately created context, however messages are delayed, duplicated or reordered and however often signers and receivers crash and reload their keys from stored bytes. Once faults stop, every signature still outstanding is accepted after redelivery.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "All histories of key generation, signing, delivery, crash and reload over any number of signers and receivers; all keys and messages; all network and crash fault sequences; both context kinds.",
  "tests/verify.rs signs one fixed message with one random key per run, in one process, never through a stored or transmitted key, and never with boundary keys, messages or nonces.",
  ["src/lib.rs", "core/src/ecdsa.rs", "core/src/ecmult.rs"],
  [("sign_with_context / sign_raw", "src/lib.rs, core/src/ecdsa.rs"), ("verify_raw, recover_raw", "core/src/ecdsa.rs"), ("ecmult, ecmult_gen", "core/src/ecmult.rs")],
  [dict(name="ECMULT_CONTEXT, ECMULT_GEN_CONTEXT", meaning="shared precomputed tables", where=L)],
  ["return values of sign, verify, recover"])

p("C02", "Signing is deterministic RFC 6979, idempotent, and never reuses a nonce",
  "Signing depends on nothing but the secret key and the message reduced mod n: it yields the RFC 6979 (HMAC-SHA256) signature in low-S form with the matching recovery id, using no randomness and no earlier state, so a retry after a crash, on another node or interleaved with other signings returns identical bytes. When a nonce candidate is unusable (zero, not below the group order, or giving s = 0) signing moves on to the next RFC 6979 candidate and terminates with that candidate's signature. Hence no two messages that differ mod n are ever signed by one key with the same r.",
  ["histories", "fault_sequences", "inputs"],
  "All interleaved histories of signing requests, duplicates, crashes and restarts; all sequences of rejected nonce candidates; all keys and messages.",
  "Tests sign a single message once; the retry branch has probability 2^-128 without fault injection, and nothing compares a signature with RFC 6979 or with an earlier signature of the same request.",
  ["src/lib.rs", "core/src/ecdsa.rs"],
  [("HMAC-DRBG nonce loop", "src/lib.rs: sign_with_context"), ("InvalidMessage retry, low-S and recid flip", "core/src/ecdsa.rs: sign_raw")],
  observe=["bytes of every signature issued over a history"])

p("C03", "Verification accepts exactly what the ECDSA equation accepts",
  "For whatever message, signature and public key arrive - intact, altered in transit, spliced from other traffic, replayed, or crafted by an adversary who knows the group - verification of the decoded values returns true if and only if 0 < r,s < n and the x coordinate of (m/s)G + (r/s)Q is congruent to r mod n. High-S twins are accepted like their low-S form, the point at infinity is never accepted, and an x coordinate at or above n is handled. Verification never panics, has no memory of earlier calls, and gives the same answer with every context.",
  ["inputs", "fault_sequences", "histories"],
  "All messages, signatures and keys a faulty or hostile network can deliver, after any history of earlier verifications.",
  "The Wycheproof file and the unit tests are a fixed list of a few hundred vectors, each verified once, in order, in a fresh process.",
  ["core/src/ecdsa.rs", "core/src/ecmult.rs", "core/src/group.rs", "core/src/scalar.rs", "core/src/field.rs", "src/lib.rs"],
  [("verify_raw including the r + n branch", "core/src/ecdsa.rs"), ("ecmult, wNAF", "core/src/ecmult.rs"), ("group law special cases", "core/src/group.rs")],
  observe=["return value of verify / verify_with_context"])

p("C04", "Recovery returns the one key that explains the signature, or an error",
  "For every delivered message, signature and recovery id 0..3, public key recovery succeeds exactly when r and s are non-zero, the ephemeral point selected by the id exists (x = r, or x = r + n when bit 1 is set and r + n < p, with the y parity of bit 0) and (sR - mG)/r is not the point at infinity. The key returned is that point, it is a valid curve point, and verification of the same signature under it succeeds. No alteration of the message, signature or recovery id in transit makes recovery panic, hang or return any other key.",
  ["inputs", "fault_sequences", "histories"],
  "All delivered (message, signature, recovery id) triples, honest, damaged or crafted, in any order of delivery.",
  "Tests recover one honest signature per run; ids 2 and 3, x >= n, non-residue r, infinity results and damaged inputs are never exercised.",
  ["core/src/ecdsa.rs", "core/src/group.rs", "src/lib.rs"],
  [("recover_raw", "core/src/ecdsa.rs"), ("set_xo_var, set_gej_var", "core/src/group.rs")],
  observe=["return value of recover / recover_with_context"])

p("C05", "Decoders survive hostile or damaged bytes and never mint invalid objects",
  "Decoding a public key (33, 64 or 65 bytes, hybrid tags included), secret key, compact or overflow-tolerant signature, DER or lax-DER signature, message or recovery id from arbitrary bytes - truncated, extended, bit-flipped, spliced or crafted - always returns, without panic or hang. It succeeds exactly when the bytes encode a valid object (length and tag right, coordinates below p, point on the curve with the tagged parity; secret key in 1..n-1; standard signature components below n; DER in canonical minimal form with nothing left over; recovery id 0..3, or 27..30 in RPC form) and then yields exactly that value; wrong lengths are reported as length errors. A DER or lax-DER signature with an integer outside 0..n-1 is refused or decodes with a zero component, so that it can never verify.",
  ["inputs", "fault_sequences"],
  "All byte strings a damaged store, a faulty network or an adversary can present to any decoder, and all decode requests (format hints) for them.",
  "Tests feed the decoders about twenty well-formed strings; almost no rejection path runs at all.",
  ["src/lib.rs", "core/src/der.rs", "core/src/field.rs", "core/src/scalar.rs", "core/src/group.rs"],
  [("PublicKey::parse*, SecretKey::parse*, Signature::parse_*, Message::parse*, RecoveryId::parse*", L), ("Decoder", "core/src/der.rs"), ("set_b32", "core/src/field.rs, core/src/scalar.rs")],
  observe=["Result of every decoder"])

p("C06", "Keys and signatures survive storage and restart in every encoding",
  "Every public key, secret key, signature with non-zero components, message and recovery id, however it was produced (derived, parsed, recovered, tweaked, combined), written in any encoding the library offers (compressed, full, raw and hex text, compact, DER, base64 or binary serde) and read back after any sequence of crashes and restarts compares equal to the original and encodes again to the same bytes. All encodings of one object decode to equal objects and objects that differ never share an encoding; hexadecimal text of a secret key is the big-endian hexadecimal form of its 32 bytes. What a node writes with one context or build configuration, any other node reads back the same.",
  ["histories", "crash_points", "inputs", "configurations"],
  "All objects reachable by any history of library operations; all encodings; all crash points between writing and reading back.",
  "Tests round-trip one debug key and one signature; objects produced by tweaks, recovery or combination (whose coordinates are not normalised) and short DER integers are never stored and reloaded.",
  ["src/lib.rs", "core/src/field.rs", "core/src/scalar.rs", "core/src/der.rs"],
  [("serialize, serialize_compressed, serialize_der, LowerHex, serde impls", L), ("fill_b32 / normalize", "core/src/field.rs"), ("LowerHex", "core/src/scalar.rs")],
  observe=["bytes on the simulated disk and objects after reload"])

p("C07", "Public keys pass through faulty serde streams intact or fail cleanly",
  "A public key serialised through any serde format is the base64 text (human-readable formats) or the 65 bytes (binary formats) of its full encoding, handed over in a single write; an error from the underlying writer is returned to the caller. Deserialising from a stream that delivers data in short reads, with interruptions, as borrowed, copied or owned data, or that ends early, errors or is corrupted, either yields exactly the key encoded by the bytes delivered (33, 64 or 65 bytes) or an error - never a panic, never a different or invalid key. A failed attempt leaves nothing behind: retrying on a healthy stream succeeds.",
  ["fault_sequences", "inputs", "crash_points"],
  "All fault sequences of the reader or writer beneath serde (short, interrupted, truncated, failing, corrupted), all ways a format may hand data to the library, all keys.",
  "tests/serde.rs round-trips one key through in-memory JSON and bincode; no stream, no fault, no malformed input.",
  ["src/lib.rs"],
  [("Serialize / Deserialize for PublicKey and its visitors", L)],
  observe=["bytes reaching the writer; Result of deserialize"])

p("C08", "Random key generation is sound under a faulty entropy source",
  "Generating a secret key from a caller-supplied random generator draws 32 bytes at a time and returns the first draw that is a valid key (non-zero and below the group order, big-endian), whatever mixture of stuck, zero, out-of-range, boundary or biased draws precedes it; it never returns an invalid key and consumes no draw beyond the accepted one. As soon as the source delivers one valid draw, generation finishes. If the source fails by panicking, no key is produced, the panic reaches the caller, and later generation with a healthy source works.",
  ["fault_sequences", "inputs"],
  "All sequences of draws and failures of the entropy source, at any point of a generation.",
  "Tests only call it with the operating system's generator, which produces an invalid draw with probability 2^-128.",
  ["src/lib.rs", "core/src/scalar.rs"],
  [("SecretKey::random rejection loop", L), ("set_b32 overflow check", "core/src/scalar.rs")],
  observe=["key returned and bytes drawn from the simulated source"])

p("C09", "ECDH peers always agree, and only on the specified secret",
  "For any two key pairs, both sides of a Diffie-Hellman exchange compute the same secret, which is the caller-chosen digest of the 33-byte compressed encoding of the product point and nothing else, regardless of the order, duplication or delay of the key-exchange messages, of restarts between them and of the context used. If a public key is replaced in transit by another valid key, the two sides compute the secrets of the keys they actually hold. A zero secret key is refused.",
  ["histories", "fault_sequences", "inputs"],
  "All key pairs (boundary scalars and special points included), all interleavings and faults of the exchange, any digest implementation.",
  "One test compares one random pair with the C library using SHA-256 only; boundary scalars of the constant-time ladder are never reached.",
  ["core/src/ecdh.rs", "core/src/ecmult.rs", "src/lib.rs"],
  [("ecdh_raw", "core/src/ecdh.rs"), ("ecmult_const, ecmult_wnaf_const", "core/src/ecmult.rs")],
  observe=["SharedSecret bytes; bytes fed to the caller's digest"])

p("C10", "Key derivation histories keep secret and public sides in step",
  "After any history of additive and multiplicative tweaks, inversions and key combinations, the public key held by a watch-only replica equals the public key of the secret key held by the signer, and both equal the values given by arithmetic mod n and the group law. Commuting steps may reach replicas delayed, duplicated (and de-duplicated) or in different orders, and replicas may crash and resume from stored keys, without changing the outcome; combining keys gives the same key in any order. A step whose result would be zero or the point at infinity (or multiplies by zero, or combines nothing) fails with an error and leaves the key it was applied to unchanged.",
  ["histories", "fault_sequences", "inputs"],
  "All histories of derivation steps over any number of replicas, with reordering, duplication, crash and resume; all keys and tweaks.",
  "The only test combines two fixed keys; tweaks, inversion and all failure cases are untested.",
  ["src/lib.rs", "core/src/scalar.rs", "core/src/group.rs", "core/src/ecmult.rs"],
  [("tweak_add_assign, tweak_mul_assign, inv, combine, from_secret_key", L), ("add_ge, add_ge_var, double", "core/src/group.rs")],
  observe=["keys held by replicas after every step"])

p("C11", "Concurrent callers never influence, corrupt or block each other",
  "Any number of threads may sign, verify, recover, derive, exchange, parse and encode at the same time over the shared built-in or caller-created contexts, under any interleaving: every call returns exactly what it would return alone. No call modifies a shared context. Once the contexts exist, a thread that is suspended or abandoned at any instant inside a call never keeps other threads from finishing theirs.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of concurrent calls at the granularity of shared-memory accesses, with threads stalled or abandoned at arbitrary points.",
  "No test calls the library from more than one thread on purpose, and none controls the interleaving.",
  ["src/lib.rs", "core/src/ecmult.rs", "core/src/ecdsa.rs", "core/src/ecdh.rs"],
  [("immutable static contexts, &self methods without interior mutability", "src/lib.rs, core/src/ecmult.rs")],
  [dict(name="ECMULT_CONTEXT, ECMULT_GEN_CONTEXT", meaning="tables shared by all threads", where=L)],
  ["results of concurrent calls", "context tables before and after"])

p("C12", "Precomputed contexts are complete and identical however they come to exist",
  "A multiplication context obtained in any way - built in at compile time, initialised lazily by whichever of several racing threads comes first, or created on the heap by the caller - holds exactly the same fully computed table (odd multiples of the generator; the 64 x 16 blinded comb), and no thread ever observes a partly initialised one. This does not depend on what the allocator's memory contained before, on how often contexts are created and dropped, or on how the initialising threads are scheduled or stalled. If memory runs out during creation, creation ends in the standard allocation-failure handler; it never touches memory it was not given and never yields a context.",
  ["schedules", "fault_sequences", "crash_points", "configurations"],
  "All interleavings of racing first uses, all prior contents of allocated memory, allocation failure at every allocation, all context kinds.",
  "Tests only use the compile-time tables, indirectly; heap creation runs in the build script with fresh zero pages, lazy initialisation is not built by the test suite, allocation never fails.",
  ["core/src/ecmult.rs", "src/lib.rs", "gen/ecmult/src/lib.rs", "gen/genmult/src/lib.rs"],
  [("ECMultContext::new_boxed, ECMultGenContext::new_boxed (unsafe uninitialised allocation)", "core/src/ecmult.rs"), ("lazy_static contexts, new_from_raw statics", L)],
  [dict(name="pre_g / prec / blind / initial", meaning="table and blinding of a context", where="core/src/ecmult.rs")],
  ["inspect_raw of every context", "exit status of the process when memory runs out"])

p("C13", "Table generation reports every write failure and never truncates silently",
  "When a generator of the compile-time tables reports success, the file holds the complete, correct table in the expected source form, even if the operating system wrote it in short pieces or interrupted writes on the way. If a write fails or the disk fills up, the generator returns the error instead of success. If the build script is killed at any write and run again, the files end up complete and identical to those of an undisturbed run.",
  ["fault_sequences", "crash_points"],
  "All sequences of short, interrupted and failing writes, and a kill at any write, over both generators and the build script.",
  "The generators have no tests; the build runs them once on a healthy disk.",
  ["gen/ecmult/src/lib.rs", "gen/genmult/src/lib.rs", "build.rs"],
  [("generate_to", "gen/ecmult/src/lib.rs, gen/genmult/src/lib.rs"), ("main", "build.rs")],
  observe=["Result of generate_to and the bytes in the file"])

p("C14", "Failures inside caller-supplied components are contained",
  "When a component the caller plugs in (random generator, digest, serde serializer or deserializer, text formatter) fails, by error or by panic, at any of the points where the library calls it, exactly that call fails and the failure reaches the caller unchanged. No key, context or other object the caller holds is altered, and every later or concurrent call - including on the same objects and shared contexts, from any thread - gives the same result as if the failed call had never been made.",
  ["fault_sequences", "histories", "schedules"],
  "All points at which a caller-supplied component is invoked and can fail, within any history of other calls before, during and after.",
  "No test injects a failing component.",
  ["src/lib.rs", "core/src/ecdh.rs"],
  [("SecretKey::random, SharedSecret::new, Serialize/Deserialize, LowerHex, Display", "src/lib.rs, core/src/ecdh.rs, core/src/scalar.rs, core/src/error.rs")],
  observe=["error or panic payload seen by the caller; results of later calls"])

p("C15", "A cleared secret leaves no trace in the memory that held it",
  "From the moment clearing a secret key (or scalar) returns, the memory that held it contains no part of the secret and the key reports zero - in optimised builds too, also when the object is dropped and its memory released or reused immediately afterwards, and whatever other operations used the key before. A memory image captured at any later instant (crash dump, reuse of freed memory) therefore shows only zeros there; other keys and copies are unaffected.",
  ["crash_points", "histories", "configurations"],
  "All instants after clearing at which a memory image may be taken, all histories of use before, optimised and unoptimised builds.",
  "One unit test calls is_zero on a live object in a debug build, which keeps the stores alive; it cannot see a removed dead store.",
  ["core/src/scalar.rs", "src/lib.rs"],
  [("Scalar::clear volatile write", "core/src/scalar.rs"), ("SecretKey::clear", L)],
  observe=["raw bytes of the object's memory after clear, at and after deallocation"])

p("C16", "Every documented build configuration computes the same results",
  "The library builds in each documented feature combination (static tables, lazily created tables, with and without std) with and without debug assertions, and on the same sequence of requests and faults every configuration returns bit-identical results: same keys, signatures, secrets, decodings and error kinds. No configuration panics, hangs or aborts on input that another handles. Nodes built differently therefore interoperate in one deployment without exception.",
  ["configurations", "histories", "fault_sequences", "inputs"],
  "All documented feature sets and build profiles; all request histories with faults.",
  "The test suite is built and run in one configuration (debug, default features).",
  ["src/lib.rs", "core/src/lib.rs", "core/src/ecmult.rs", "Cargo.toml", "build.rs"],
  [("feature gates static-context, lazy-static-context, std, hmac", "Cargo.toml, src/lib.rs"), ("debug_assert!-guarded code", "core/src")],
  observe=["event-log digest of the same seeded run in every configuration"])

p("C17", "Secret-dependent operations run in secret-independent time",
  "Signing, public key derivation and ECDH execute the same instruction and memory-access pattern for every secret key and nonce, so that their timing reveals nothing about the secret.",
  ["inputs", "configurations"],
  "All pairs of secrets for the same public input, on the compiled code.",
  "Tests observe results, not execution traces.",
  ["core/src/ecmult.rs", "core/src/scalar.rs", "core/src/field.rs", "core/src/group.rs"],
  [("cmov based table lookup, ecmult_const", "core/src/ecmult.rs")],
  observe=["instruction and address traces"])

p("C18", "Field, scalar and group kernels are exact for every representable operand",
  "Every public field, scalar and group operation returns the mathematically exact result for every operand that satisfies its documented magnitude and normalisation requirements, including all carry and reduction boundaries.",
  ["inputs"],
  "All operands within the documented magnitude bounds, called directly.",
  "No direct tests of the kernels exist.",
  ["core/src/field.rs", "core/src/scalar.rs", "core/src/group.rs"],
  [("mul_inner, sqr_inner, normalize*, reduce_512, add/double formulas", "core/src")],
  observe=["return values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
