#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S,I,H,F,C,P='schedules','inputs','histories','fault_sequences','configurations','crash_points'
SG='src/signatures.cpp'; G='src/g.cpp'; PA='src/pairing.cpp'; AR='src/arithmetic.cpp'; AS='src/arithmetic.s'
SC='src/scalar.cpp'; SH='include/bls12-381/scalar.hpp'; FP='src/fp.cpp'; SHA='src/sha256.cpp'; SI='include/bls12-381/signatures.hpp'
R=[]
def p(id,title,st,over,txt,why,files,mech,**kw):
    R.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=txt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
p('C01','Concurrent callers do not affect each other',
 "Any number of threads may call the library at the same time, on the same or different arguments: every call returns exactly what it returns when it is the only call in the process, and every call finishes, whatever the interleaving, including when they are the first calls made. No two such calls touch shared memory in conflict without synchronisation.",
 [S,I],"every interleaving of 2..4 caller threads at the granularity of single memory accesses, every mix of public operations, from process start",
 "The test program is single-threaded; thread interleavings, first-call races and hangs are never exercised.",
 [SG,G,PA,FP,AR,AS,SC,SHA],[("no mutable shared state in any operation","all of src/"),("constants built before main and only read afterwards","g.cpp/fp.cpp/signatures.cpp static constants")],
 observe_at=["return values of concurrent calls (public headers)"])
p('C02','A yield callback cannot change a result',
 "Passing a progress callback to a weighted sum of points or to a pairing product never changes its result and never changes its inputs, whatever the callback does in between, including running any other operation of the library, starting another such computation inside itself, or switching to another task that does. The result is the exact sum, or the exact pairing product, of the given terms.",
 [S,I,H],"all sizes and contents of the term list (zero, repeated, opposite and identity terms, unreduced scalars, lists of different length), all nestings and cooperative interleavings at callback points",
 "No test passes a callback at all; no test interleaves two computations.",
 [G,PA],[("bucket method with callbacks at fixed strides","g.cpp weightedSum (both groups)"),("callback between precomputation and Miller loop","pairing.cpp")])
p('C03','An exception from the callback cancels cleanly',
 "If the progress callback throws, at whichever of its invocations, the same exception reaches the caller of the weighted sum or pairing product, the callback is not invoked again by that computation, and no memory is lost. The inputs are unmodified and repeating the computation, or doing any other one, afterwards gives the correct result.",
 [P,F,H],"every invocation index at which the callback can throw, every exception type, one or more cancellations in a row, nested computations",
 "No test passes a callback, so no cancellation point is ever exercised.",
 [G,PA],[("working storage owned by containers while the callback runs","g.cpp weightedSum, pairing.cpp miller loop")])
p('C04','Long computations call back in bounded time',
 "A weighted sum that is given a progress callback invokes it from the start and then at least once per bounded amount of work (at most about a thousand point additions), a bound that does not grow with the number of terms or depend on their values. A pairing product of at least twenty terms invokes it at least once.",
 [I,S],"every number of terms up to tens of thousands, every distribution of scalars, both groups, including lists of different length",
 "Deadlines are a property of the whole execution; no test passes a callback or measures how often it fires.",
 [G,PA],[("callback every 256 iterations of each loop","g.cpp weightedSum"),("callback when there are 20 pairs or more","pairing.cpp miller loop")])
p('C05','A failed allocation never gives a wrong answer',
 "When a memory request fails at any point inside any operation, the operation either still returns exactly the correct result or reports the failure (error code or exception); it never crashes, hangs, returns a key, digest, decision or point computed from incomplete data, or loses memory. Every later call returns the correct result.",
 [F,I,H],"every allocation site and every subset of failing requests (one, several, all from some point on), every operation, every history before and after",
 "Tests never make an allocation fail.",
 [SG,PA,G,SC],[("result of malloc checked and propagated","signatures.cpp HMAC/HKDF/key derivation"),("containers throw","signatures.cpp verification, g.cpp weightedSum, pairing.cpp")])
p('C06','Stored encodings survive damage and restarts',
 "Every field element, point, scalar, key and byte string written in any of the encodings and read back, by the same or another node, is the value that was written. Whatever bytes a damaged medium returns instead, a validating decoder either rejects them or returns a value, on the curve if it is a point, whose encoding is exactly those bytes; and no decoder reads outside the bytes it was given.",
 [F,P,I],"every value, every encoding, every bit flip, torn, truncated, stale, misdirected or adversarial content of the record, every crash point between write and read",
 "Tests round-trip a handful of good values and one all-ones buffer; they reach no near-boundary or damaged encodings.",
 [G,FP,SC,SH,SG],[("range check of every coordinate","fp.cpp fromBytes, g.cpp fromCompressed/fromAffine/fromJacobian"),("curve equation check","g.cpp isOnCurve"),("canonical form of sign and infinity flags","g.cpp toCompressed/fromCompressed"),("scalar range","signatures.cpp sk_from_bytes")])
p('C07','Single signatures verify exactly when genuine',
 "Verification of a message and signature under a public key, and of a proof of possession, accepts exactly when the signature is the one the holder of that key makes for exactly those bytes and that purpose. Anything the network turns it into (altered, truncated, replayed for another message, signer or purpose, shifted by a point outside the prime-order group, off the curve, or the identity as key) is rejected, and the signature a key produces for a message is always the one the ciphersuite defines.",
 [F,I,H],"all keys, messages of any length and content, signatures and keys as points in any representation, all sequences of network faults between signer and verifier",
 "Tests verify a handful of fixed vectors; rejecting is a claim about all wrong signatures, keys and messages.",
 [SG,PA,G,FP,SHA],[("pairing equation with the hashed message","signatures.cpp verify/pop_verify"),("subgroup and curve checks on key and signature","signatures.cpp, g.cpp inCorrectSubgroup"),("domain separation tags","signatures.cpp")])
p('C08','Aggregation converges in any order',
 "Replicas that receive the same contributions (public keys, signatures, secret keys, or weighted points) obtain the same aggregate, equal to the exact sum, however the network orders, delays, groups or partially merges them and whatever representation each arrives in. This includes repeated, opposite and identity contributions, and selecting contributors by a bit mask equals aggregating exactly the selected ones.",
 [S,H,I],"all multisets of contributions, all delivery orders, merge trees and groupings, all point representations",
 "Tests add a few fixed keys in one order.",
 [SG,SI,G,SC],[("point addition with its special cases","g.cpp addAssign/doubleAssign"),("sum modulo the group order","signatures.cpp aggregate_secret_keys"),("masked aggregation","signatures.hpp templates")])
p('C09','A quorum certificate proves exactly its signers',
 "An aggregate signature is accepted for a list of keys and messages exactly when it is the sum of the signatures those keys make on those messages, in any order and for any list length, and accepted for one common message exactly when all listed keys, and no others, contributed. For separate messages, lists of different lengths, a key that is the identity or outside the group, and (when asked to check) repeated messages are rejected; for a common message, whose keys were admitted by a proof of possession, an empty list and a combined key that is the identity or outside the group are rejected.",
 [F,S,H,P],"all committees, message assignments and sequences of loss, duplication, reordering, corruption, partition, crash and equivocation on the way to the certificate",
 "Tests check a few fixed aggregates of at most six keys; certificates with a missing, extra, swapped or doubled contribution are not covered.",
 [SG,PA,G],[("product of pairings","signatures.cpp aggregate_verify"),("duplicate message detection","signatures.cpp aggregate_verify"),("sum of keys","signatures.cpp pop_fast_aggregate_verify")])
p('C10','Replicas on different hardware never diverge',
 "Nodes running the portable code, the generic assembly and the extended-instruction assembly compute bit-identical results for every operation and every field, scalar and point input, so a replicated log gives the same state on all of them. A node that stops and continues on different hardware continues with the same state.",
 [C,I,H],"all operations and operand values including the rare carry, borrow and final-subtraction cases, all assignments of code paths to nodes, all restart points",
 "Tests run one code path per build, on sampled operands; the others are never compared with it.",
 [AR,AS,FP],[("three implementations of field arithmetic","arithmetic.s, arithmetic.cpp")])
p('C11','Start-up never selects instructions the CPU lacks',
 "On whatever processor a process starts, and whatever its environment contains, the library only executes instructions that processor has, so it never dies of an illegal instruction; if the environment asks for the extended instructions to be disabled it does not use them. Results are the same in every case.",
 [C],"every combination of processor feature bits and environment contents at process start",
 "Tests run on one machine with one environment.",
 [AR,AS],[("processor detection and environment override at load time","arithmetic.cpp resolver")])
p('C12','Results depend only on arguments, not on history',
 "The result of an operation depends only on the values of its arguments: never on earlier calls (successful, rejected, failed or cancelled), on what unused memory happens to contain, on where the arguments are stored, or on whether one element or point object is passed as several operands or is also the destination, nor on whether an operation that exists in both forms is done in place or into another object. No operation modifies an argument passed for reading.",
 [H,I],"all histories of calls in a process, all memory contents left behind by them, all placements of arguments, all ways of passing one object as several operands or as operand and destination",
 "Tests run each function from a fresh state, with distinct arguments, on whatever memory the allocator gives.",
 [SG,G,PA,FP,AR,AS,SC,SHA],[("locals initialised before use; no caches","all of src/"),("temporaries when destination and source coincide","fp.cpp, g.cpp, arithmetic")])
p('C13','Every call gives back the memory it took',
 "Repeating any call any number of times, on the same or ever different arguments, accepted, rejected or malformed, cancelled or short of memory, does not keep increasing the memory the process holds.",
 [H,I],"all operations, all argument classes including every rejected one, all numbers of repetitions",
 "Tests do not measure memory and rarely pass rejected arguments.",
 [SG,SC,G,PA],[("buffers released on every return path","signatures.cpp HMAC/HKDF/key derivation"),("containers elsewhere","src/")])
p('C14','Key derivation agrees between parties and restarts',
 "Keys derived from a seed along any path are the ones the key-derivation standard defines, whichever node derives them, in whatever order and after any crash and restart. For unhardened steps, the public key derived from a parent public key alone equals the public key of the secret key derived from the parent secret key, for every path and index.",
 [H,P,I],"all seeds of any length, all paths and 32-bit indexes, all interleavings of derivations with crashes, restarts and message reordering between parties",
 "Tests check a few fixed vectors and one watch-only comparison.",
 [SG,SC,SH],[("hardened derivation","signatures.cpp derive_child_sk"),("unhardened derivation of secret and public keys","signatures.cpp derive_child_*_unhardened"),("master key","signatures.cpp secret_key")])
# --- not claimed: see not_applicable in MANIFEST.json
p('C15','Split computations give the whole result',
 "A computation split between several parties gives exactly the result of doing it in one place: partial pairing products multiplied together (also weighted by exponents in the target group, or withdrawn by its inverse and replaced), partial weighted sums added together, a shared key that each party computes from its own secret, and a group signature combined from any sufficient subset of threshold shares, whose group key and shares fit each other. This holds whichever parties take part, whatever way and in whatever representation and encoding each part is computed and sent, in whatever order the parts arrive, and after losses, duplicates, crashes and reassignment; too few shares never give an accepted signature.",
 [S,F,H,I],"all ways of splitting, all assignments to parties, all orders of arrival, all encodings of parts (target-group elements included), all exponents including unreduced ones",
 "Tests compute pairings and sums in one place and never send a target-group element or a share anywhere.",
 [PA,FP,SG,G,SC],[("pairing as Miller loop and final exponentiation","pairing.cpp"),("target-group multiplication, inversion, exponentiation and encoding","fp.cpp fp12, scalar.hpp cyclotomicExp"),("sums of shares and keys","signatures.cpp aggregate_*"),("weighted sums","g.cpp weightedSum")])
p('C16','No argument makes a call spend out of proportion',
 "The time a call takes and the memory it holds grow no faster than the size of its arguments (up to the logarithmic cost of comparing messages), and its stack stays within a fixed bound whatever their size. Content does not matter: hostile, malformed, repeated or degenerate arguments never make a call take many times longer, hold much more memory or use more stack than ordinary arguments of the same size; in particular no call runs forever.",
 [I,F],"all operations, all sizes of argument, all contents (points of small order or off the curve, identities, repeated terms, zero and unreduced scalars, identical, ordered or almost identical messages, malformed text)",
 "Tests do not measure time, memory or stack, and pass small well-formed arguments.",
 [SG,SC,G,PA,FP],[("duplicate check of aggregate_verify","signatures.cpp aggregate_verify"),("weighted sums and pairing products over long lists","g.cpp weightedSum, pairing.cpp"),("hashing and key derivation of long inputs","signatures.cpp, sha256.cpp"),("hexadecimal text","scalar.cpp hexToBytes, bytesToHex")])
p('C20','Field and tower arithmetic is exact',
 "Addition, subtraction, multiplication, inversion, square root, exponentiation and Frobenius maps in the base field and its extensions satisfy the field laws for all elements.",
 [I],"all field elements","Tests sample operands.",[FP,AR,AS],[("tower formulas","fp.cpp")])
p('C21','The pairing is bilinear and non-degenerate',
 "For all points of the two groups and all scalars, the pairing is bilinear, non-degenerate and compatible with the group laws.",
 [I],"all points and scalars","Tests sample points.",[PA,FP],[("Miller loop and final exponentiation","pairing.cpp")])
p('C22','Subgroup checks are exact',
 "The fast subgroup tests accept exactly the points of prime order (and the identity), for every point on each curve.",
 [I],"all curve points","Tests sample points.",[G],[("endomorphism-based tests","g.cpp inCorrectSubgroup")])
p('C23','Hashing to the curve follows the standard',
 "Mapping byte strings and field elements to curve points equals the standard's definition for all inputs, including exceptional cases of the maps.",
 [I],"all messages, tags and field elements","Tests check fixed vectors.",[SG,G],[("expand, map, isogeny, cofactor","signatures.cpp fromMessage, g.cpp")])
p('C24','Secret-dependent timing',
 "The time operations on secret keys take does not depend on the secret.",
 [I],"all secrets","Tests do not measure time.",[G,SH],[("double-and-add","scalar.hpp scale")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for r in R:
        assert len(r['title'])<=80,r['title']
        f.write(json.dumps(r)+'\n')
