import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech],
                 **({"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state]} if state else {}),
                 **({"observe_at":obs} if obs else {}),"hook_needed":None}})
GO=["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_amd64.s","sha1cdblock_arm64.go","sha1cdblock_arm64.s","sha1cdblock_noasm.go","internal/const.go"]
C=["cgo/sha1.go","cgo/sha1.c","cgo/sha1.h","cgo/ubc_check.c","cgo/ubc_check.h"]
p("C01","Digests are standard SHA-1 whenever no collision is reported",
 "For every message of fewer than 2^61 bytes for which the Go hash reports no collision, the 20-byte result of Sum, CollisionResistantSum and the package-level Sum equals the SHA-1 digest defined by FIPS 180-4. This holds for every length, including empty input and every position relative to the 64-byte block and 56-byte padding boundaries, and for the portable code as well as each hardware back end.",
 ["inputs","configurations"],"every message content and length, every build configuration (amd64, arm64, noasm/other architectures)",
 "Tests compare a handful of golden strings; content, the 64 residues of the length, and lengths of many blocks are sampled, and a wrong carry, rotation or constant in a rarely used path is only visible on the affected inputs.",
 GO,[("New/Reset initial state, Write buffering, padding and length in checkSum","sha1cd.go"),("blockGeneric compression","sha1cdblock_generic.go"),("SHA-NI and ARMv8 kernels","sha1cdblock_amd64.s, sha1cdblock_arm64.s")],
 [("h","chaining value after all complete blocks","digest"),("x, nx","buffered tail","digest"),("len","message length mod 2^64","digest")],["New().Sum","Sum","CollisionResistantSum"])
p("C02","Hardware and portable back ends agree on digest and verdict",
 "For every chaining state and every 64-byte block, and therefore for every message, the amd64 SHA-extension back end, the arm64 SHA-1 back end and the portable Go back end produce the same digest and the same collision verdict. In particular the intermediate data the kernels hand to the collision test leads to the same decision as in portable code.",
 ["inputs","configurations"],"every message, every chaining state, every CPU/back-end selection",
 "A CPU runs only one back end; the tests compare digests on a few samples, and the verdict depends on intermediate states that ordinary inputs never exercise because the bit-condition filter discards them.",
 GO[1:],[("block dispatch and kernels","sha1cdblock_amd64.go/.s, sha1cdblock_arm64.go/.s"),("rectifyCompressionState","sha1cdblock_generic.go"),("checkCollision","sha1cdblock_generic.go")],None,["Sum and CollisionResistantSum on each architecture"])
p("C03","The cgo package agrees with the Go package",
 "For every message and every way of writing it, the hash and the one-shot Sum of the cgo package return the same digest and the same collision verdict as the Go package: plain SHA-1 when nothing is detected, the hardened digest and true when an attack block is detected. This holds with cgo enabled (C code) and with cgo disabled (fallback).",
 ["inputs","histories","configurations"],"every message, split and build configuration with cgo on or off",
 "The suite compares the two on a few files and fuzz seeds; divergence in a disturbance vector, in buffering at one residue or in one recompression step needs a crafted block to show.",
 C+["cgo/fallback_no_cgo.go"],[("SHA1DCInit/Update/Final and sha1_process","cgo/sha1.c"),("cgo wrappers","cgo/sha1.go"),("fallback","cgo/fallback_no_cgo.go")],None,["cgo.New, cgo.Sum"])
p("C04","Result does not depend on how the message is split into writes",
 "For every message and every sequence of Write calls (of any sizes, including empty ones, with Sum calls in between) whose concatenation is that message, the Go hash gives the same digest and the same verdict. Each Write behaves as if its bytes had been appended to the message written so far.",
 ["histories","inputs"],"every sequence of writes and intermediate sums, any chunk sizes",
 "Splits are unbounded; tests use a few splits and mostly whole-message writes, so a defect for one buffered length and one chunk size goes unnoticed.",
 ["sha1cd.go"]+GO[1:7],[("Write buffering","sha1cd.go (digest).Write"),("block loop over complete blocks","sha1cdblock_*.go")],[("x, nx, len","buffered tail and length","digest")],["Write then Sum/CollisionResistantSum"])
p("C05","Every block of a known attack class is detected",
 "For every chaining state and message block that satisfies the unavoidable bit conditions of one of the 32 supported disturbance vectors and whose message-modified twin (the block XOR that vector's difference, recomputed from the step where the states agree) reaches the same output chaining value, the Go hash reports a collision. No vector is skipped and the check is applied to every block of the message, padding blocks included.",
 ["inputs","configurations"],"every block and chaining state, all 32 disturbance vectors, all back ends",
 "Blocks fulfilling a vector cost about 2^60 work to make; the published files exercise two of the 32 vectors, so the others are untested.",
 ["sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","ubc/ubc.go","ubc/const.go","sha1cd.go"],[("checkCollision loop over the vectors","sha1cdblock_generic.go"),("hasCollided recompression","sha1cdblock_generic.go"),("CalculateDvMask filter","ubc/ubc.go")],None,["CollisionResistantSum verdict"])
p("C06","A collision is reported only on evidence",
 "The Go hash reports a collision only if some processed block satisfies the unavoidable bit conditions of a supported disturbance vector and its message-modified twin, recomputed for that vector, reaches exactly the same output chaining value in all five words. Blocks without such a twin never set the verdict and never change the digest from plain SHA-1.",
 ["inputs","configurations"],"every message and chaining state, all back ends",
 "A comparison that ignores one word or one bit gives false reports only on inputs of probability 2^-100 or so, which no test meets.",
 ["sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","ubc/const.go"],[("five-word comparison","hasCollided in sha1cdblock_generic.go"),("verdict assignment","block functions")],None,["CollisionResistantSum verdict"])
p("C07","The bit-condition mask is exact for every expanded block",
 "For every 80-word expanded message, the mask computed by the Go ubc package and the one computed by the cgo package are equal, and bit i is set exactly when all unavoidable bit conditions of disturbance vector i hold; no other input bits influence it. The result for a missing (nil) input is zero.",
 ["inputs","configurations"],"every 80-word input, all 32 mask bits, Go and C code",
 "The mask has 2^2560 inputs; tests feed a few blocks on which almost all conditions fail early.",
 ["ubc/ubc.go","ubc/const.go","cgo/ubc_check.c","cgo/ubc_check.go"],[("CalculateDvMask","ubc/ubc.go"),("ubc_check","cgo/ubc_check.c")],None,["ubc.CalculateDvMask","cgo.CalculateDvMask"])
p("C08","Disturbance-vector tables are the published ones",
 "The tables of the Go package and of the C code list exactly the 32 published disturbance vectors I(K,b)/II(K,b), each once, followed by a terminator; each entry's 80-word message difference is the one that follows mathematically from its type, K and b, its test step lies where the vector's state difference vanishes, and its mask position is the one the bit-condition mask uses.",
 ["configurations"],"every entry and every word of both tables",
 "A wrong word in one entry disables detection for that vector only and no available colliding file exercises it.",
 ["ubc/const.go","cgo/ubc_check.c"],[("sha1_dvs","ubc/const.go"),("sha1_dvs","cgo/ubc_check.c")],None,["ubc.SHA1_dvs()"])
p("C09","A detected attack block is hashed three times",
 "Whenever a block is detected, the chaining value after it is the result of applying the SHA-1 compression function to that same block three times in succession, so that colliding messages no longer share a digest; all later blocks continue from that value. This is the same in every back end and in the cgo package.",
 ["inputs","configurations"],"every detected block at any position, every back end",
 "Tests have two colliding pairs, whose detected blocks are at fixed positions; later-block effects and other vectors are not reached.",
 ["sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","cgo/sha1.c"],[("rehash of a detected block","blockGeneric, block (amd64/arm64)"),("safe_hash branch","sha1_process in cgo/sha1.c")],None,["Sum, CollisionResistantSum"])
p("C10","The verdict covers every block and stays set until Reset",
 "CollisionResistantSum reports true exactly if some block of the whole padded message written since creation or the last Reset was detected: once set, no further Write or Sum clears it, a detection in the final padding blocks is reported by the call that pads, and one that happened only in a Sum's own padding does not leak into the hash that keeps being written. The package-level Sum reports the same verdict.",
 ["histories","inputs"],"every history of Write, Sum, CollisionResistantSum, Reset",
 "Histories after a detection are not tested, and no file is known whose padding block is detected.",
 ["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go"],[("col flag","digest"),("verdict returned after padding","CollisionResistantSum, Sum")],[("col","a collision was found in a processed block","digest")],["CollisionResistantSum","Sum"])
p("C11","Sum, CollisionResistantSum and MarshalBinary leave the hash unchanged",
 "For every state of a Go or cgo hash, Sum, CollisionResistantSum and (Go) MarshalBinary do not change it: any later call behaves as if they had not been made. Repeating them gives the same answer.",
 ["histories","inputs"],"every reachable state and any later history",
 "Tests call Sum twice on a few short inputs; a mutation visible only for certain buffered lengths or after a detection is missed.",
 ["sha1cd.go","cgo/sha1.go"],[("work on a copy of the digest","Sum, CollisionResistantSum")],None,["any later call"])
p("C12","Reset makes a used hash equivalent to a new one",
 "After Reset, whatever was written, summed or restored before, a Go or cgo hash behaves exactly like a freshly created one, including its collision verdict and its serialized form; and hashes created by New are all equivalent.",
 ["histories"],"every history before Reset and every history after it",
 "Tests reset once after a short write; leftovers matter only for particular earlier histories, e.g. after a detection or a partial block.",
 ["sha1cd.go","cgo/sha1.go","cgo/sha1.c"],[("Reset","sha1cd.go, cgo/sha1.go"),("SHA1DCInit","cgo/sha1.c")],None,["any call after Reset"])
p("C13","Serialized state round-trips, verdict included",
 "For every reachable state, restoring the output of MarshalBinary into any hash of the package, whatever that one contained, gives a hash that behaves exactly like the original for every later call: same digests, same verdict, same serialized form. The serialized form contains nothing but the logical state (unused buffer bytes are zero).",
 ["histories","inputs"],"every state of the source, every prior state of the target, every continuation",
 "Golden states for a few lengths are tested with fresh targets and without a detected collision.",
 ["sha1cd.go","internal/const.go"],[("MarshalBinary/UnmarshalBinary","sha1cd.go")],None,["MarshalBinary, UnmarshalBinary"])
p("C14","Malformed serialized state is rejected and changes nothing",
 "For every byte string whose length is not that of a serialized state or which does not start with a known identifier, UnmarshalBinary returns a non-nil error and leaves the hash exactly as it was; for every other byte string it succeeds and yields a usable hash. MarshalBinary never fails.",
 ["inputs","histories"],"every byte string, every prior state",
 "Tests try valid states only; rejection and atomicity are not tested.",
 ["sha1cd.go"],[("length and magic checks before any assignment","UnmarshalBinary")],None,["UnmarshalBinary"])
p("C15","Caller memory is neither modified nor retained; Sum appends",
 "Write, UnmarshalBinary and the one-shot Sum never modify the bytes they are given and keep no reference to them after returning. Sum(b) and CollisionResistantSum(b) return b followed by exactly the 20 digest bytes, write nothing within b's length, and neither their result nor MarshalBinary's result shares memory with the hash's state. Holds for the Go and the cgo package.",
 ["inputs","histories"],"every argument slice, length and capacity, and every later use of it by the caller",
 "Aliasing shows only if the caller reuses its buffer later in a particular way; tests do not reuse buffers.",
 ["sha1cd.go","cgo/sha1.go","cgo/sha1.c","sha1cdblock_amd64.s","sha1cdblock_arm64.s"],[("copy into the digest's own buffer","Write"),("append of a local array","Sum")],None,["caller's slices"])
p("C16","Separate hashes are independent; no shared mutable state",
 "Operations on one hash never affect another hash, and distinct hashes can be used from different goroutines without synchronisation: no function of the Go or cgo package, including the C code, writes memory other than the hash it is called on, its results and its own locals after start-up, or keeps data in package-level variables. Nothing the API returns lets a caller modify the tables the detection uses.",
 ["schedules","histories","programs"],"every interleaving of operations on distinct hashes, every client program",
 "Race tests sample schedules; a shared scratch buffer or cache can behave well in sequential tests.",
 GO+C+["ubc/ubc.go","ubc/const.go"],[("all scratch data on the stack or in the digest","block functions"),("tables are read-only after initialisation","ubc/const.go, cgo/ubc_check.c")],None,["two hashes"])
p("C17","No input or history makes the Go API panic or hang",
 "For every sequence of API calls with any arguments (any slices, including nil, any byte strings to UnmarshalBinary, any state accepted by it), the exported functions and methods of the Go packages return normally: no panic, no out-of-range access, and every loop terminates.",
 ["inputs","histories"],"every call sequence and argument, including restored states of any accepted form",
 "Out-of-range conditions arise for particular lengths or restored states that tests do not sample.",
 ["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","ubc/ubc.go","cgo/sha1.go"],[("buffer index invariant nx == len mod 64","digest"),("explicit panics in padding and table dispatch","checkSum, checkCollision")],None,["any call"])
p("C18","Hardware kernels run only where the CPU supports them",
 "A hardware kernel is entered only if the CPU feature detection reported every instruction-set extension its instructions need; on any CPU lacking one of them the portable code is used. No build tag or architecture combination lacks a working back end or has two.",
 ["configurations"],"every combination of CPU features and build tags",
 "The test machine has one CPU; a missing check shows as an illegal instruction only on CPUs without the extension.",
 ["sha1cdblock_amd64.go","sha1cdblock_amd64.s","sha1cdblock_arm64.go","sha1cdblock_arm64.s","sha1cdblock_noasm.go"],[("feature variables tested before dispatch","block"),("build constraints","file headers")],None,["illegal instruction"])
p("C19","Hardware kernels touch only their arguments and defined values",
 "For every call, the assembly kernels read only the block, chaining value and constants, write only the chaining value and the two scratch areas within their bounds, never let a value they did not initialise influence results or control flow, and preserve what the Go calling convention requires. They terminate on every call the package makes.",
 ["inputs","configurations"],"every argument and every initial register content",
 "A stray read or an uninitialised register usually holds a harmless value in tests.",
 ["sha1cdblock_amd64.s","sha1cdblock_arm64.s","sha1cdblock_amd64.go","sha1cdblock_arm64.go"],[("register and pointer discipline","the .s files")],None,["memory around the arguments"])
p("C20","The C code stays in bounds and never aborts",
 "For every sequence of calls the cgo package can make, with any data and lengths, the C code reads and writes only inside the objects it is given and its own tables, never reads uninitialised memory, never reaches its abort paths and terminates.",
 ["inputs","histories"],"every history of cgo hash calls, any data lengths",
 "Sanitizers and tests cover only the inputs that are run; the abort and recompression paths need attack blocks.",
 C+["cgo/ubc_check.go"],[("buffer fill logic","SHA1DCUpdate, SHA1DCFinal"),("recompression dispatch","sha1_recompression_step")],None,["process memory"])
p("C21","Exported API is identical in every build configuration",
 "The exported identifiers of the module's packages, with their types, constants and method sets, are the same for every supported architecture and build tag, with cgo on or off, and every configuration type-checks; code written against one build compiles against all of them.",
 ["configurations","programs"],"every supported GOARCH, noasm tag and CGO setting; every client program",
 "Tests are compiled for the host configuration mostly; a signature that differs in a fallback file is not seen.",
 ["cgo/sha1.go","cgo/ubc_check.go","cgo/fallback_no_cgo.go","sha1cd.go","detection.go","ubc/ubc.go","ubc/const.go","sha1cdblock_noasm.go"],[("build constraints selecting one of several files","file headers")],None,["exported API"])
p("C22","The hash.Hash contract is honoured",
 "For every state and argument, Write returns the full length of its argument and a nil error, Size is 20 and BlockSize is 64, and Sum's result is 20 bytes longer than its argument. The value returned by New in either package also implements the collision-resistant interface, and in the Go package binary marshalling and unmarshalling.",
 ["inputs","histories","configurations"],"every state, argument and build configuration",
 "Return values are checked for a few inputs; callers such as io.Copy fail if a partial count is returned for one particular length.",
 ["sha1cd.go","detection.go","cgo/sha1.go","cgo/fallback_no_cgo.go"],[("return values","Write, Size, BlockSize"),("interfaces","detection.go")],None,["return values, type assertions"])
p("C23","One-shot Sum equals streaming",
 "For every byte slice, the package-level Sum of the Go package returns the digest and verdict that a new hash returns from CollisionResistantSum after writing the slice, and Sum returns the same digest as CollisionResistantSum in every state. The same holds within the cgo package.",
 ["inputs","configurations"],"every input and state",
 "Tests compare the two entry points on a few inputs without a detected block.",
 ["sha1cd.go","cgo/sha1.go","cgo/fallback_no_cgo.go"],[("Sum, CollisionResistantSum share the padding routine","sha1cd.go, cgo/sha1.go")],None,["Sum, CollisionResistantSum"])
p("C24","Hashing allocates nothing on the heap per call",
 "Write, and Sum or CollisionResistantSum into a slice with enough capacity, allocate no heap memory in the Go package, whatever the data.",
 ["inputs"],"every input and state",
 "The allocation test runs one input; an allocation on the detected-block path would not be seen.",
 ["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go"],[("no escaping locals","Write, Sum, block functions")])
p("C25","Attacks outside the 32 known vectors are also detected",
 "Any SHA-1 collision attack that is practical to mount is detected, including ones built on disturbance vectors other than the 32 supported.",
 ["inputs"],"every practical cryptanalytic attack",
 "No test can enumerate attacks.",
 ["ubc/const.go"],[("choice of vectors","ubc/const.go")])
p("C26","Reading calls do not write to the hash",
 "Sum, CollisionResistantSum, MarshalBinary, Size and BlockSize never store to the hash or to memory it refers to, not even temporarily, in any state and in the Go and the cgo package. Several goroutines may therefore call them on one hash at the same time and all get the right answer.",
 ["inputs","schedules","configurations"],"every state and every interleaving of reading calls on one hash",
 "A value changed and changed back is invisible to a sequential test; the interleaving that exposes it is rare.",
 ["sha1cd.go","cgo/sha1.go"],[("working on a copy of the hash","Sum, CollisionResistantSum")],None,["results of concurrent Sum calls"])
p("C27","Hashing does nothing but compute",
 "After initialisation no call of the Go or cgo package, for any data, produces output, touches files, the network, the environment, the clock or a random source, or ends the process. Results are a function of the bytes written alone.",
 ["inputs","histories","configurations"],"every call and every path, detected collisions included",
 "A message printed or an environment variable read on the detected-collision path does not make a test fail.",
 ["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","cgo/sha1.go","cgo/sha1.c","cgo/ubc_check.c","cgo/ubc_check.go","ubc/ubc.go"],[("only pure packages are used after init","imports, calls")],None,["output, environment"])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x
print(len(P))
