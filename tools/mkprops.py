#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in git; this script is only the readable source of it).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
H="hybrid-dilithium-sphincs/hybrid.c"; R="random/randombytes.c"; F="common/fips202.c"; SP="sphincs/sign.c"; DI="dilithium2/sign.c"; TN="tweetnacl/tweetnacl.c"; W="wasm/hybrid-pqc.c"; PR="common/shake_prng.c"

p("C01","OS entropy reads are complete or reported as failed",
"A request for n random bytes either fills the whole buffer with bytes the operating system delivered during that very request, each in its place and used once, touching nothing outside the buffer, or returns a non-zero code. Interrupted calls and short reads alone never make the request fail, leave a gap or repeat bytes, and a source that keeps failing makes the request return an error after a bounded number of attempts. This holds on every entropy source the library supports: on Linux the C-library call, the raw system call, and the device files of kernels without either; on Windows the primary source and its fallback; arc4random on BSD and WASI; and in JavaScript the browser's or Node.js's cryptography object.",
["fault_sequences","inputs","configurations"],
"every request length (0, small, around and beyond the per-call kernel maximum, beyond 4 GiB), every sequence of interruptions, short reads, transient and permanent errors, for each platform configuration",
"The existing randombytes test runs one configuration against a healthy kernel; interruptions, short reads, errors and lengths above the per-call limit never occur in it.",
[R],[("retry loop, offset arithmetic, chunk limit","randombytes_linux_randombytes_getrandom"),("retry loop over /dev/urandom","randombytes_linux_randombytes_urandom"),("primary and fallback provider","randombytes_win32_randombytes")],["return value and buffer of randombytes"])

p("C02","An entropy outage makes every operation fail closed",
"When the operating system cannot deliver entropy, every operation that needs fresh randomness (hybrid key generation, compact and full signing, key generation of each component scheme, signing with the randomised component, and the WebAssembly entry points over them) reports failure and never returns a key or signature as if it had succeeded. On such a failure the hybrid operations leave the caller's key, signature and length buffers exactly as they were. Once the source recovers, the same call with the same arguments succeeds with a correct result.",
["fault_sequences","histories"],
"every operation, every point of its sequence of entropy requests at which the source starts failing, every kind of failure, every history of earlier outages and recoveries",
"No test makes the entropy source fail, so no error path behind it is executed at all.",
[H,SP,DI,TN,W],[("checks of the return value of randombytes","every caller"),("outputs are written after the last failure point",H)],["return values and output buffers of the key generation and signing calls"])

p("C03","Randomness is fresh, from the OS, and never reused or lost",
"The randomness in every generated key, in every compact signature's nonce and in every randomised signature is exactly the bytes the operating system delivered during that one call, all of them significant: the key pair equals the one derived from those bytes used as seed, and the nonce in the packet is those bytes. No two calls ever share randomness, whatever their interleaving across threads, and also when a process is forked or a snapshot of it is resumed twice, or restarted after a crash.",
["schedules","histories","fault_sequences","crash_points"],
"every history of key generations and signatures across threads, forked or snapshotted processes and restarts, under interruptions and short reads of the entropy source",
"Tests can only see that two outputs differ; they cannot see where the bytes came from, and never fork, resume or run two threads.",
[H,SP,R],[("one OS request per operation, no pool or cache","crypto_sign_*_keypair, crypto_sign_compact_*, SPHINCS+ optrand")],["generated keys, packets, delivered entropy"])

p("C04","Concurrent callers do not affect one another",
"Any number of threads may call any mix of operations at the same time, sharing read-only keys, messages and packets, without locking: each call returns exactly the code and the output bytes it would return if it ran alone with the same inputs and the same entropy. No call modifies its inputs or memory that does not belong to it.",
["schedules","inputs","histories"],
"every interleaving, down to single memory accesses, of concurrent key generation, signing, opening, verification, seed expansion and random requests, including related keys and shared buffers",
"The tests are single-threaded.",
[H,F,PR,SP,DI,TN,R],[("no mutable static state; all state on the stack or in per-call heap contexts","whole library")],["return values and outputs of concurrent calls versus solo calls"])

p("C05","Out of memory never yields a wrong answer or a memory fault",
"If any memory allocation fails during any operation, the operation either still completes correctly, reports failure, or ends the process in an orderly way with a non-zero status. It never reports success with a key, signature, digest or message that is wrong, never accepts a bad signature because of it, and never dereferences invalid memory.",
["fault_sequences","inputs"],
"every allocation of every operation as the failing one, and every burst of failing allocations",
"No test makes an allocation fail.",
[F,PR],[("NULL check after each context allocation, exit(111)","every *_init, *_absorb and *_clone in common/fips202.c")],["return code, outputs, process exit status"])

p("C06","Every finished call has released everything it acquired",
"When a call returns, whether it succeeded, rejected its input, or failed for lack of entropy, every block of memory and every file descriptor, stream or provider handle it acquired has been released exactly once, so that a process can make any number of calls with any mix of outcomes without exhausting a resource. No call releases a resource it does not own.",
["histories","fault_sequences","configurations"],
"every operation and outcome, every history of calls, every failure point of the entropy sources on each platform configuration",
"Tests do not count resources and never take the failing paths.",
[F,PR,R,DI,SP,H],[("release of each hash context on every path","fips202 users"),("close of device descriptors on every path","legacy Linux entropy source")],["allocator and descriptor table before and after each call"])

p("C07","Only what the key holder signed is ever accepted",
"Verification and opening, in compact mode, in full mode and for the stand-alone lattice component, accept a packet only if it is byte for byte a packet that the holder of that key produced in that mode, and then only for, and returning exactly, the message it was produced for. A packet, public key or claimed message that was altered, truncated, extended, torn, or spliced together from other packets in transit or in storage is rejected.",
["fault_sequences","inputs","histories"],
"every packet of every signer at every message length, every corruption by channel or storage at every position, every splice of packets of the same or related signers, every wrong recipient key",
"The compact tamper test uses one message length and adds one to single bytes; full mode tampering and splicing are not tested at all.",
[H,DI,SP,TN,"dilithium2/packing.c","sphincs/fors.c","sphincs/merkle.c","sphincs/wots.c"],[("length, id and component checks",H),("canonical decoding and norm checks","dilithium2"),("root comparison",SP),("ed25519 equation check",TN)],["return value of open/verify and the returned message"])

p("C08","Undamaged signatures always verify, everywhere",
"Every packet a signing call reports as successful is accepted by every open and verify call of its mode under the matching public key, as often as it is delivered, after any restart of signer or verifier, and yields exactly the original message and length. The packet has exactly the documented length for its mode and message, and signing any message of 1 to 64 bytes with a key from any seed succeeds within a bounded number of steps once entropy is available.",
["inputs","histories","fault_sequences","crash_points"],
"every key, message of every length 1 to 64 and content, entropy value, delivery order, duplication and restart",
"The tests sample a few dozen random keys and mostly one message length; rare rejection-sampling and encoding paths are not reached.",
[H,DI,SP,TN],[("sign/open pairs",H),("rejection loop and hint encoding",DI),("index derivation and tree hashing","sphincs")],["return values, lengths and messages"])

p("C09","Keys are recovered identically from their seed after any crash",
"Deriving the key pair from a stored seed, or a full seed from a stored recovery seed, gives the same bytes at every time and place: before and after a crash at any point, on another node, after any history of earlier calls and failures, with any contents of uninitialised memory, and concurrently with other calls. A signer restarted from its seed, or from its stored secret key, produces packets that everyone holding the earlier public key accepts.",
["crash_points","histories","schedules","inputs"],
"every seed, every crash point inside derivation and signing, every history before it, every restart",
"The known-answer tests derive a few keys in a fresh process, once each.",
[H,PR,DI,SP,TN],[("derivation is a pure function of the seed","crypto_sign_*_keypair_seed, *_seed_expander")],["derived keys compared across incarnations"])

p("C10","A rejected call hands nothing to the caller",
"When opening a packet fails for any reason, the caller's message buffer and length are exactly as they were: not one byte of an unauthenticated message is released. When signing or verification is refused because its arguments are malformed (a missing buffer, a message length outside 1 to 64, an impossible packet length), nothing is written, and no call ever modifies its input buffers.",
["fault_sequences","inputs"],
"every damaged packet and every malformed request, at each of the successive checks that can reject it",
"Tests look only at return codes of rejected calls.",
[H],[("message and length are written after the last check",H)],["output and input buffers around rejected calls"])

p("C11","Every component key is needed; modes are not interchangeable",
"An adversary who holds all component secret keys of a victim but one (in compact mode: the classical or the lattice key; in full mode: the classical, the lattice or the hash-based key) cannot make a packet that the victim's public key accepts in that mode. A compact packet is also bound to the signer's hash-based public key, and a packet of one mode is never accepted as one of the other mode, nor a component signature taken from one mode as part of a packet of the other.",
["fault_sequences","inputs","histories"],
"every choice of compromised component keys, every message, every way of combining genuine and forged components and of relabelling packets",
"Tests corrupt single bytes; none builds a packet in which all components but one are genuine for a chosen message.",
[H],[("verification of each component over the same message; hybrid hash includes the hash-based public key; id byte",H)],["return value of open/verify on hybrid forgeries"])

p("C12","Damaged packets and requests cause no memory fault and no hang",
"Opening or verifying any byte string of any length as packet, message or key of any scheme in the library reads and writes only memory it was given or owns, and returns within a bounded number of steps. The same holds for signing and seeded derivation with arbitrary bytes as stored keys and seeds.",
["inputs","fault_sequences"],
"every byte string a faulty channel or storage can deliver as packet, public key or stored secret, of every length",
"Tests feed packets of correct size into oversized buffers without memory checking.",
[H,"dilithium2/packing.c","dilithium2/poly.c","dilithium2/polyvec.c",SP,TN,"sphincs/utils.c","sphincs/wots.c","sphincs/fors.c"],[("length checks before access",H),("bounds in hint decoding","dilithium2/packing.c")],["memory accesses of the call"])

p("C13","Incremental hashing is independent of how data arrives",
"Feeding a message to a hash or extendable-output context in any sequence of fragments, and taking the output in any sequence of pieces, gives the same bytes as the standard function applied to the whole, with any number of contexts in progress at once, and a cloned context continues exactly like the original without either affecting the other. The seed expander delivers the same stream for the same seed, and refuses missing buffers, seeds shorter than 32 bytes and outputs not longer than the seed.",
["inputs","histories","schedules"],
"every fragmentation of input and output, every interleaving of operations on several contexts and their clones",
"Tests use one-shot calls through the key and seed functions only.",
[F,PR],[("byte counter kept in the context",F)],["digest and stream bytes"])

p("C14","No byte of a seed is ignored",
"A stored seed that was damaged in any byte never silently restores the original keys: every byte of a 160-byte key seed and of a 96-byte recovery seed influences the key pair derived from it, so two different seeds give different secret keys. Likewise every byte of entropy the system delivers for a random key pair influences that key pair.",
["inputs","fault_sequences"],
"every seed and every position and value of a corrupted byte in it",
"The known-answer tests fix the output for fixed seeds and never compare two seeds that differ in one byte.",
[H,PR],[("copying and expansion of each seed part",H)],["derived keys for pairs of seeds"])

p("C15","Nodes of different builds interoperate exactly",
"A node running this build and nodes running the reference release understand one another: the same seed gives the same key pair, the same expanded seed and the same random stream; the same key, message and entropy give byte-identical packets; and every packet, genuine or damaged in transit, gets the same verdict, message and length from both. This holds whatever mix of builds signs, relays, verifies and recovers keys during a rolling upgrade.",
["inputs","histories","fault_sequences"],
"every seed, key, message, entropy value and packet, genuine or damaged, exchanged between the two builds in any order",
"The tests pin a handful of seeds; signatures are not pinned at all, and no test compares verdicts on damaged packets.",
[H,DI,SP,TN,F,PR,"dilithium2/poly.c","dilithium2/ntt.c","dilithium2/rounding.c","sphincs/fors.c","sphincs/wotsx1.c"],[("the algorithms themselves","whole library")],["keys, packets and verdicts of both builds"])

p("C16","Buffers released through the WebAssembly binding are wiped",
"When a buffer is released through the WebAssembly binding, every byte of it is zero at the moment the allocator gets it back, so that no later allocation, whatever the order in which the allocator recycles blocks, can show the contents of an earlier key, seed, message or signature.",
["histories","inputs"],
"every history of allocations, operations and releases through the binding, every buffer size and recycling order",
"The WebAssembly binding has no tests.",
[W],[("wipe before free",W)],["contents of a block when the allocator receives it"])

p("C17","On old kernels no random bytes are used before the pool is ready",
"On Linux kernels without a random-bytes system call, a request returns success only with bytes read after the kernel reported at least 128 bits of pool entropy during that request, whichever of the two ways of asking works and however often the wait is interrupted. If readiness cannot be determined the request fails rather than proceeding, and once the pool becomes ready a waiting request completes within a bounded number of steps.",
["fault_sequences","schedules","configurations"],
"every trajectory of the kernel's entropy estimate over time, every interleaving of its growth with the wait, every failure or interruption of each system call involved",
"This configuration is not even compiled by the tests.",
[R],[("entropy gate before the first read","randombytes_linux_wait_for_entropy")],["order of kernel reports, reads and the return value"])

p("C18","Secret data does not influence timing",
"The time and memory access pattern of key generation and signing do not depend on secret key bytes, except through values that are published anyway.",
["inputs"],"every secret key and message","Tests measure no timing.",[H,DI,SP,TN],[("branch-free arithmetic","component schemes")],["execution time"])
p("C19","The component schemes are the published algorithms and are secure",
"For every seed, key and message the component schemes compute what their published specifications define, and forging a signature without the key is computationally infeasible.",
["inputs"],"every input of the pure functions","Known-answer tests cover a handful of inputs.",[DI,SP,TN,F],[("the algorithms","component schemes")],["outputs"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
