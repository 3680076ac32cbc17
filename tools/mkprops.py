#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=observe or [],hook_needed=hook)))
ST=[("digest","chaining value, partial block, total length, collision verdict","sha1cd.go"),]
p("C01","Unflagged messages hash to exactly SHA-1",
 "For every message, if the library does not report a collision, the 20-byte digest it returns is exactly the SHA-1 (FIPS 180-4) digest of that message. This holds for the one-shot function and for the streaming hash, from any intermediate chaining value and for every block content.",
 ["inputs","histories"],"all chaining values, all block contents, all message lengths",
 "The tests hash 32 short strings and four files; a wrong result for a rare word pattern, a rare chaining value or an untested block position is never sampled.",
 ["sha1cd.go","sha1cdblock_generic.go","internal/const.go"],
 [("80-step compression and message expansion","sha1cdblock_generic.go: blockGeneric"),("initial value and padding","sha1cd.go: Reset, checkSum")],ST,["Sum","New().Write/Sum","CollisionResistantSum"])
p("C02","A block is flagged exactly when it is a recognised near-collision block",
 "Processing a block raises the collision verdict if and only if, for at least one of the 32 published disturbance vectors, the block meets that vector's unavoidable bit conditions and its sibling block (the block XOR the vector's message difference), recompressed from the vector's test step, ends in the same chaining value. No vector is skipped, none is tested against a wrong intermediate state or step, and no other block is flagged.",
 ["inputs"],"all chaining values and all 512-bit blocks, all 32 disturbance vectors",
 "Real collisions exist for only one or two of the 32 vectors, so the tests exercise a single path of the detector; errors in any other vector's recompression or in the captured intermediate states are invisible to them.",
 ["sha1cdblock_generic.go","ubc/ubc.go","ubc/const.go"],
 [("recompression check per disturbance vector","sha1cdblock_generic.go: checkCollision, hasCollided"),("captured states at steps 0/58/65","sha1cdblock_generic.go: blockGeneric")],ST,["CollisionResistantSum","Sum"])
p("C03","A flagged block is always hashed with the 240-step safe hash",
 "Whenever a block raises the collision verdict, the chaining value after that block is the one obtained by applying the SHA-1 compression function to that same block three times in a row, and whenever a block does not raise it, exactly once. Later blocks continue from that value, so the digest of a message containing attack blocks is the documented safe digest.",
 ["inputs","histories"],"all chaining values and blocks, any position and number of attack blocks in the message",
 "Tests compare four known attack files; other positions, repeated attack blocks in one call and attack blocks in the padding or buffered path are not sampled.",
 ["sha1cdblock_generic.go","sha1cd.go"],
 [("rehash of a detected block","sha1cdblock_generic.go: blockGeneric (rehash)"),("rehash in the accelerated paths","sha1cdblock_amd64.go, sha1cdblock_arm64.go: block")],ST,["Sum","CollisionResistantSum"])
p("C04","The bit-condition filter returns exactly the vectors whose conditions hold",
 "For every 80-word expanded message block, the exported disturbance-vector mask calculation (portable and cgo-backed) returns a mask whose bit for each of the 32 vectors is set if and only if all of that vector's published unavoidable bit conditions hold. A nil block yields an empty mask in the portable version, and the call never modifies its argument.",
 ["inputs"],"all 2^2560 expanded blocks, all 32 vectors",
 "The only test of the mask needs vectors that are not in the repository, and even then compares a few blocks from one attack; dropping or altering one condition changes the mask only on blocks satisfying every other condition of that vector.",
 ["ubc/ubc.go","cgo/ubc_check.c","cgo/ubc_check.go","cgo/fallback_no_cgo.go"],
 [("sequence of mask updates","ubc/ubc.go: CalculateDvMask"),("C counterpart","cgo/ubc_check.c: ubc_check")],None,["ubc.CalculateDvMask","cgo.CalculateDvMask"])
p("C05","The disturbance-vector catalogue is the published one",
 "The exported catalogue lists exactly the 32 published disturbance vectors I(K,b)/II(K,b), each once, each with its own distinct mask bit in the published order, with the 80-word message difference that its definition (a sum of SHA-1 local collisions) implies, and with a test step at which its state difference is zero; it ends with an all-zero terminator. The C catalogue used by the cgo backend lists the same vectors with the same data.",
 ["inputs","configurations"],"all 32 vectors x 80 words, both backends; the differences must satisfy the SHA-1 message expansion for every index",
 "Only vectors used by the known attack files influence any test; a wrong word in another vector's difference silently disables detection for it.",
 ["ubc/const.go","cgo/ubc_check.c"],
 [("vector table","ubc/const.go: sha1_dvs"),("C vector table","cgo/ubc_check.c: sha1_dvs")],None,["ubc.SHA1_dvs"])
p("C06","amd64 SHA-NI acceleration is indistinguishable from the portable code",
 "On amd64, for every chaining value and every input, the hardware-accelerated path produces the same digest and the same collision verdict as the portable path, whichever way CPU feature detection decides, and whatever the contents of unrelated registers, stack alignment or scratch memory. It reads only the input block and writes only its own outputs.",
 ["inputs","configurations"],"all chaining values and blocks, all CPU-feature outcomes, all incoming register contents and stack alignments",
 "Tests run the golden strings and four files; a mis-stored lane of the captured states or expanded message does not change digests and shows only on attack blocks for particular vectors.",
 ["sha1cdblock_amd64.s","sha1cdblock_amd64.go","sha1cdblock_generic.go"],
 [("SHA-NI block function","sha1cdblock_amd64.s: blockAMD64"),("state rectification and dispatch","sha1cdblock_generic.go: rectifyCompressionState; sha1cdblock_amd64.go: block")],ST,["New().Write/Sum on amd64"])
p("C07","arm64 SHA-1 acceleration is indistinguishable from the portable code",
 "On arm64, for every chaining value and every input, the hardware-accelerated path produces the same digest and the same collision verdict as the portable path, whichever way CPU feature detection decides, and whatever values unrelated registers hold when it is entered. It reads only the input block and writes only its own outputs.",
 ["inputs","configurations"],"all chaining values and blocks, all CPU-feature outcomes, all incoming register contents",
 "Tests run golden strings and four files under one calling context, so a dependence on leftover register contents or a wrong captured state for another vector cannot show.",
 ["sha1cdblock_arm64.s","sha1cdblock_arm64.go","sha1cdblock_generic.go"],
 [("SHA-1 extension block function","sha1cdblock_arm64.s: blockARM64"),("state rectification and dispatch","sha1cdblock_generic.go: rectifyCompressionState; sha1cdblock_arm64.go: block")],ST,["New().Write/Sum on arm64"])
p("C08","The cgo backend computes the same digest and verdict as the Go implementation",
 "For every message, every way of splitting it into writes and every intermediate state, the cgo-backed hash returns the same digest and the same collision verdict as the reference algorithm the Go implementation follows, for one-shot and streaming use. Summing does not disturb a running cgo hash, resetting it makes it fresh, and it never reads outside the written data.",
 ["inputs","histories"],"all chaining values, blocks, buffered amounts and total lengths; writes of every length up to the stated bound",
 "Tests feed whole files in one write; partial-buffer transitions, large totals and vectors other than the ones in the sample files are not reached.",
 ["cgo/sha1.c","cgo/sha1.go","cgo/ubc_check.c","cgo/sha1.h","cgo/ubc_check.h"],
 [("C block processing","cgo/sha1.c: sha1_process, sha1_compression_states, sha1_recompression_step"),("C buffering and padding","cgo/sha1.c: SHA1DCUpdate, SHA1DCFinal"),("Go wrapper","cgo/sha1.go")],
 [("SHA1_CTX","running state of the C library","cgo/sha1.h")],["cgo.New","cgo.Sum"])
p("C09","Digest and verdict depend only on the bytes written, not on how they are split",
 "Writing a message in any sequence of pieces, of any lengths including empty ones and pieces spanning several blocks, gives the same digest and the same collision verdict as writing it in one piece or using the one-shot function. Every byte is absorbed exactly once and in order, whatever amount was already buffered.",
 ["inputs","histories"],"all states (any buffered amount 0-63, any buffer garbage, any chaining value, any total length) and all write lengths up to the bound, by one inductive step plus composed pairs",
 "Tests split each sample at one point only; of the 64 x N combinations of buffered amount and write length almost none is exercised.",
 ["sha1cd.go","sha1cdblock_generic.go"],
 [("buffering","sha1cd.go: Write"),("multi-block loop","sha1cdblock_generic.go: blockGeneric")],ST,["Write","Sum","CollisionResistantSum","MarshalBinary"])
p("C10","Summing is a pure observation",
 "Asking for the digest, with or without the verdict, never changes the running hash: further writes, sums and saved states are as if it had not been called, the two ways of asking agree, and the result is the given prefix followed by the 20 digest bytes without sharing memory with the hash. No write to the running hash's memory happens during the call, so any number of goroutines may ask concurrently.",
 ["inputs","histories","schedules"],"all states, all prefixes up to the bound, with and without spare capacity; all interleavings of concurrent sums",
 "Tests call Sum in the middle once per golden string; concurrent sums, prefixes with spare capacity and states with a pending verdict are not tested.",
 ["sha1cd.go","cgo/sha1.go"],
 [("copy of the state before finalisation","sha1cd.go: Sum, CollisionResistantSum; cgo/sha1.go: Sum, CollisionResistantSum")],ST,["Sum","CollisionResistantSum"])
p("C11","Reset makes a hash indistinguishable from a new one",
 "After any history of writes, detected attacks and restored states, resetting a hash makes it behave exactly as a newly created one: empty message, standard initial chaining value, no collision verdict. Nothing from the previous message can influence later digests, verdicts or saved states.",
 ["histories","inputs"],"all prior states (symbolic), followed by any write up to the bound",
 "Tests reset only hashes that saw benign short strings, never one with a raised verdict, a large total or a restored state.",
 ["sha1cd.go","cgo/sha1.go","cgo/sha1.c"],
 [("state reinitialisation","sha1cd.go: Reset; cgo/sha1.c: SHA1DCInit")],ST,["Reset","New"])
p("C12","A saved state restores the hash exactly, verdict included",
 "Saving a running hash and restoring the bytes into any other hash, whatever that one did before, yields a hash that produces the same digests, the same collision verdict and the same saved state as the original for every continuation. The saved form is a pure function of the message prefix and verdict, and independent of the buffers it came from.",
 ["histories","inputs"],"all source states, all destination states, all continuations up to the bound",
 "Tests save/restore only unflagged states and only into a freshly reset hash; the verdict and the destination's previous state are never varied.",
 ["sha1cd.go","internal/const.go"],
 [("serialisation","sha1cd.go: MarshalBinary, UnmarshalBinary")],ST,["MarshalBinary","UnmarshalBinary"])
p("C13","Restoring rejects malformed states and leaves the hash untouched",
 "Restoring from arbitrary bytes never panics: it succeeds exactly when the bytes have the documented size (98) and begin with one of the two documented identifiers (verdict clear, verdict raised), and otherwise returns an error and leaves the hash exactly as it was. Any accepted state, even one never produced by saving, yields a hash on which every operation works normally.",
 ["inputs"],"all byte strings up to beyond the state size, all prior states of the hash",
 "No test passes malformed bytes to the restore function.",
 ["sha1cd.go","internal/const.go"],
 [("identifier and size checks before any assignment","sha1cd.go: UnmarshalBinary")],ST,["UnmarshalBinary"])
p("C14","A raised verdict stays raised until reset",
 "Once any block of a message raised the collision verdict, every later report for that message is positive, however much benign data follows, however often it is summed, and across save/restore, until the hash is reset or another state is restored; and a verdict is never raised unless some block of this message raised it.",
 ["histories","inputs"],"attack block at any buffer offset and total length, any following writes up to the bound",
 "Tests check the verdict only right after hashing whole files in one write.",
 ["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go"],
 [("verdict accumulation","sha1cdblock_generic.go: blockGeneric; sha1cdblock_{amd64,arm64}.go: block")],ST,["CollisionResistantSum","Sum"])
p("C15","Padding and the 64-bit length field are right for every total length",
 "For every total message length (any value of the 64-bit byte counter, on 32- and 64-bit platforms) the finalisation appends 0x80, the minimal number of zero bytes and the big-endian bit length modulo 2^64, so that exactly one or two final blocks are processed. It never panics and never depends on bytes left in the buffer beyond the pending ones.",
 ["inputs","configurations"],"all 2^64 length counters, all 64 buffered amounts, arbitrary buffer garbage, 32- and 64-bit int",
 "Tests reach two large lengths and short strings; boundaries at 55/56/63/64 bytes, 2^29, 2^32 and 2^61 bytes are mostly not covered.",
 ["sha1cd.go","cgo/sha1.c"],
 [("padding","sha1cd.go: checkSum; cgo/sha1.c: SHA1DCFinal")],ST,["Sum","CollisionResistantSum"])
p("C16","Hash instances are isolated and share no mutable state",
 "No operation on one hash, or one-shot call, changes the observable behaviour of any other hash: results depend only on the instance's own history. No operation writes to memory shared between instances, so distinct instances can be used from different goroutines at the same time without synchronisation.",
 ["histories","schedules"],"all states of two instances, any operation on one between operations on the other; any interleaving of operations on distinct instances",
 "Tests use instances one after the other in a single goroutine; scratch data shared between instances gives right results sequentially.",
 ["sha1cd.go","sha1cdblock_generic.go","ubc/ubc.go","cgo/sha1.go","cgo/sha1.c"],
 [("all working state is per call or per instance","sha1cdblock_generic.go, sha1cdblock_amd64.go, sha1cdblock_arm64.go, cgo/sha1.c")],ST,["New","Write","Sum"])
p("C17","Caller-owned buffers are never modified nor retained",
 "Writing never modifies the caller's bytes and never keeps a reference to them: the caller may overwrite the buffer right after the call without affecting any later result. The same holds for the bytes given to restore and the bytes returned by save and sum.",
 ["inputs","histories"],"all states and all write lengths up to the bound, arbitrary overwriting afterwards",
 "Tests use string constants and never reuse a buffer after writing it.",
 ["sha1cd.go","sha1cdblock_amd64.s","sha1cdblock_arm64.s","cgo/sha1.go","cgo/sha1.c"],
 [("copying into the internal block buffer","sha1cd.go: Write, UnmarshalBinary, MarshalBinary")],ST,["Write","UnmarshalBinary","MarshalBinary","Sum"])
p("C18","Every operation succeeds on every state and reports full progress",
 "From any state, a write of any length returns the number of bytes given and no error, saving never fails, and no operation panics or fails to terminate. Size and BlockSize are always 20 and 64.",
 ["inputs","histories"],"all reachable and restored states, all write lengths up to the bound",
 "Tests ignore the returned count and sample few states; an internal panic guard exists whose unreachability is not tested.",
 ["sha1cd.go","cgo/sha1.go"],
 [("write accounting","sha1cd.go: Write"),("panic guards","sha1cd.go: checkSum; sha1cdblock_generic.go: checkCollision")],ST,["Write","MarshalBinary","Sum"])
p("C19","All build configurations compute the same function",
 "The library gives the same digests, verdicts and saved states when built for 32-bit platforms, without assembly, or with cgo disabled (where the cgo package falls back to the Go code), as in the default 64-bit build. States saved under one configuration restore under any other.",
 ["configurations","inputs"],"build configurations {amd64, arm64, arm, 386, noasm, no-cgo} x all states and inputs up to the bounds",
 "The baseline runs amd64 and arm64 only; the 32-bit, noasm and no-cgo builds are compiled but never run.",
 ["sha1cd.go","sha1cdblock_noasm.go","cgo/fallback_no_cgo.go","sha1cdblock_generic.go"],
 [("build-tag selected block function","sha1cdblock_noasm.go"),("fallback wrappers","cgo/fallback_no_cgo.go")],ST,["New","Sum","cgo.New","cgo.Sum"])
p("C20","Both members of a colliding pair are judged alike",
 "For every disturbance vector, an expanded block meets the vector's bit conditions if and only if its sibling (XOR the vector's message difference) does, and recompressing the sibling's sibling from the shared middle state gives back the original block's input and output chaining values. Hence if one message of a near-collision pair for a listed vector is flagged through that vector, so is the other.",
 ["inputs"],"all expanded blocks, all middle states, all 32 vectors",
 "Needs blocks meeting all conditions of each vector; the sample files provide them for one or two vectors.",
 ["ubc/ubc.go","ubc/const.go","sha1cdblock_generic.go"],
 [("conditions and differences agree","ubc/ubc.go: CalculateDvMask; ubc/const.go: sha1_dvs"),("recompression","sha1cdblock_generic.go: hasCollided")],None,["ubc.CalculateDvMask","ubc.SHA1_dvs","CollisionResistantSum"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
