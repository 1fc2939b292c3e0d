#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
m=lambda n,w:dict(name=n,where=w)
p("C01","Any threshold-sized set of Shamir shares recovers the exact secret",
 "For every non-empty secret and every 2 <= threshold <= parts <= 255, each Shamir splitting entry point succeeds, and combining any set of at least `threshold` of the returned shares, in any order, returns exactly the original secret without error.",
 ["inputs","configurations"],"all secret contents and lengths, all (parts, threshold) in range, every subset of >= threshold shares in every order, every value of the random source, all five splitting variants",
 "The tests round-trip one 43-byte sentence and three lengths at a handful of (parts, threshold) pairs, always with a prefix of the shares and random coefficients; they cannot cover all thresholds, subsets, lengths around the SIMD block sizes, or all 256-valued coefficients.",
 ["shamir/shamir.go","shamir/polynomial.go","shamir/tables.go","galois/galois.go","galois/tables.go","galois/vector_amd64.go","galois/vector_amd64.s"],
 [m("polynomial with the secret byte as intercept","shamir/polynomial.go makePolynomials*, makePolynomial"),m("Horner evaluation at each share's x","shamir/polynomial.go evaluatePolynomials*, evaluate"),m("Lagrange interpolation at 0","shamir/polynomial.go interpolatePolynomial; shamir/shamir.go Combine")],
 [dict(name="x coordinate",meaning="last byte of each share; a distinct non-zero field element",where="shamir/shamir.go")])
p("C02","Splitting validates its parameters and returns well-formed shares",
 "Every Shamir splitting entry point returns an error and no shares exactly when parts < threshold, threshold < 2, parts > 255 or the secret is empty, and never panics. Otherwise it returns exactly `parts` shares, each one byte longer than the secret, whose final bytes are pairwise distinct and non-zero.",
 ["inputs"],"all secrets, all integers parts and threshold (negative and huge ones included), every value of the random source",
 "No test passes an invalid parameter, inspects the x coordinate of a share, or uses more than 20 parts; a collision or a zero x coordinate appears only for particular random draws.",
 ["shamir/shamir.go","csprng/csprng.go"],
 [m("parameter checks","shamir/shamir.go Split, SplitWithRandomizer, SplitWithRandomizerOld, SplitGeneric, SplitP"),m("distinct x coordinates from a permutation / unique bytes, shifted by one","shamir/shamir.go; csprng/csprng.go Perm, GetUniqueBytes")])
p("C03","Fewer than threshold shares reveal nothing about the secret",
 "In every splitting call, each byte of the secret is hidden by its own polynomial of degree at most threshold-1 whose every non-constant coefficient is a byte drawn afresh from the call's random source (the caller-supplied generator when there is one), no drawn byte being used for two coefficients or drawn again by a later call, and no share is the evaluation at zero. Consequently any fewer than `threshold` shares are consistent with every secret of that length.",
 ["inputs","histories"],"all secrets, all (parts, threshold), all earlier calls on the same generator and all earlier uses of recycled scratch buffers",
 "Secrecy is a statement about all possible coefficient draws and all earlier calls; a test sees single outputs, and the existing ones only check that combining works, which also holds for constant or repeated coefficients.",
 ["shamir/shamir.go","shamir/polynomial.go","csprng/csprng.go"],
 [m("random coefficients","shamir/polynomial.go makePolynomials*, makePolynomial"),m("keystream position","csprng/csprng.go Read"),m("non-zero x","shamir/shamir.go")])
p("C04","Combine is total: rejects malformed share sets, never panics",
 "Shamir Combine returns an error exactly when fewer than two shares are given, the shares are shorter than two bytes or differ in length, or two shares carry the same final byte; on every other input it returns a secret one byte shorter than a share, equal to the Lagrange interpolation of the shares at zero. It never panics.",
 ["inputs"],"all lists of byte slices, nil and empty elements included",
 "No test gives Combine a malformed share list; the input space is all lists of byte strings.",
 ["shamir/shamir.go","shamir/polynomial.go"],
 [m("length and duplicate checks","shamir/shamir.go Combine"),m("interpolation","shamir/polynomial.go interpolatePolynomial")])
p("C05","Regenerate extends a share set on the same polynomial",
 "Given valid shares and a number of new shares that fits in the remaining non-zero x coordinates, Regenerate returns that many shares of the same length lying on the polynomial interpolated from the given shares, whose final bytes are non-zero, pairwise distinct and different from those of the given shares, so that any threshold-sized mixture of old and new shares recovers the same secret. Malformed share sets, and negative or unsatisfiable counts, yield an error; it never panics.",
 ["inputs"],"all share lists, all counts, every value of the random source",
 "The two tests use one secret and look at one mixture; collisions and the zero coordinate depend on the random draw.",
 ["shamir/shamir.go","shamir/polynomial.go"],
 [m("choice of new x coordinates","shamir/shamir.go Regenerate"),m("interpolation at the new x","shamir/polynomial.go interpolatePolynomial")])
p("C06","Scalar field arithmetic is GF(2^8) modulo 0x11D, consistently everywhere",
 "All scalar add, subtract, multiply (table and log/exp), divide and exponentiation operations agree, for every operand pair, with the field GF(2^8) defined by the polynomial x^8+x^4+x^3+x^2+1; division by zero panics except where the galois package documents a zero dividend, and exponentiation equals repeated multiplication for every non-negative exponent. The tables used when splitting and those used when combining describe the same field.",
 ["inputs"],"all 65536 operand pairs of each operation, all exponents, every table entry",
 "The galois package has no tests at all; round-trip tests touch a random sprinkling of table entries.",
 ["galois/galois.go","galois/tables.go","shamir/polynomial.go","shamir/tables.go"],
 [m("log/exp/product tables","galois/tables.go, shamir/tables.go"),m("scalar operations","galois/galois.go, shamir/polynomial.go add, mult, div")])
p("C07","Vector field operations equal the scalar ones on every platform path",
 "For vectors of every length (equal lengths for addition), every constant and every combination of CPU features and build configuration (amd64 assembly, arm64 assembly, portable Go), vector addition and constant multiplication return the element-wise scalar results and change no byte outside the documented destination. The galois package builds on every Go architecture.",
 ["inputs","configurations"],"all lengths and contents, all constants, all CPU feature sets, all build configurations",
 "Only the AVX2 path of one machine runs under the tests, and only through splitting; the SSSE3, scalar, arm64 and portable paths are never executed.",
 ["galois/vector_amd64.go","galois/vector_amd64.s","galois/vector_arm64.go","galois/vector_arm64.s","galois/vector_noasm.go","galois/vector.go","galois/tables.go"],
 [m("SIMD kernels with scalar tails","galois/vector_amd64.go, galois/vector_amd64.s"),m("NEON kernels","galois/vector_arm64.go, galois/vector_arm64.s"),m("portable versions","galois/vector_noasm.go, galois/vector.go")])
p("C08","SSMS shares recover the exact secret",
 "For every secret of 1 to 2^32-1 bytes and every 2 <= threshold <= parts <= 255, SSMS (krawczyk) splitting, with or without a caller-supplied generator, succeeds, and combining any at least `threshold` of its shares, in any order and with missing shares given as nil, returns exactly the secret.",
 ["inputs","configurations"],"all secret contents and lengths, all (parts, threshold), all subsets and orders of shares",
 "Tests use a few sentences and (parts, threshold) pairs with one subset each; the outcome depends on the length modulo the threshold and on buffer capacities.",
 ["krawczyk/krawczyk.go","krawczyk/aes.go","shamir/shamir.go"],
 [m("encrypt, erasure-code, share the key and length","krawczyk/krawczyk.go Split, SplitWithRandomizer"),m("inverse pipeline","krawczyk/krawczyk.go Combine"),m("OFB encryption is its own inverse","krawczyk/aes.go")])
p("C09","SSMS splitting validates its parameters and emits the fixed share format",
 "SSMS splitting never panics; it returns an error and no shares exactly when threshold < 2, parts < threshold, parts > 255, or the secret is empty (or exceeds the 32-bit length limit). Otherwise it returns `parts` shares of equal length 22 + ceil(len/threshold), the i-th share ending in the part-id byte i, and each call encrypts under a 16-byte key freshly drawn from the call's random source.",
 ["inputs","histories"],"all secrets, all integers parts and threshold, all earlier calls on the same generator",
 "Only one test checks one share length; panics depend on the exact relation between length, threshold and buffer capacity.",
 ["krawczyk/krawczyk.go","krawczyk/aes.go"],
 [m("parameter checks, share layout","krawczyk/krawczyk.go Split, SplitWithRandomizer"),m("key generation","krawczyk/krawczyk.go")])
p("C10","SSMS Combine reports malformed share sets as errors",
 "SSMS Combine never panics and never modifies the shares it is given, whatever list of byte slices (nil, empty, truncated, ragged or with out-of-range part ids) and whatever parts and threshold it receives; share sets it cannot decode yield an error and no data.",
 ["inputs"],"all lists of byte slices, all integers parts and threshold",
 "No test passes malformed shares; each share byte string is attacker-controlled input.",
 ["krawczyk/krawczyk.go"],
 [m("share parsing and part-id check","krawczyk/krawczyk.go Combine")])
p("C11","Generators emit one continuous, never repeated AES-CTR keystream",
 "Each read from a generator masks the caller's whole buffer (so a zeroed buffer is filled) with the next unread bytes of the AES-CTR keystream determined by the generator's key and IV and reports the full length without error. Consecutive reads of any sizes therefore concatenate to one long read, and no keystream byte is delivered twice.",
 ["inputs","histories"],"all keys and IVs, all sequences of reads of all sizes",
 "The only test makes a single read from a fresh generator.",
 ["csprng/csprng.go","randomizer/randomizer.go"],
 [m("keystream offset","csprng/csprng.go Read"),m("stateful CTR stream","randomizer/randomizer.go Read")])
p("C12","Random permutations and unique bytes are duplicate-free for every size",
 "For every size n and every state of the generator, Perm(n) returns a permutation of 0..n-1 without panicking, in both generator packages, and GetUniqueBytes(n) returns n pairwise distinct bytes, none of them 255.",
 ["inputs"],"all n in 0..255, every value of the random source",
 "One test looks at one random Perm(255); failures need particular random bytes or small n.",
 ["csprng/csprng.go","randomizer/randomizer.go"],
 [m("swap-based shuffle","csprng/csprng.go Perm, randomizer/randomizer.go Perm"),m("duplicate rejection","csprng/csprng.go GetUniqueBytes")])
p("C13","Calls own their memory: inputs untouched, results independent",
 "No splitting, combining or regenerating call modifies the secret or the shares passed in, and the slices it returns overlap neither each other (spare capacity included), nor the inputs, nor any recycled scratch buffer; a scratch buffer handed out by the pool belongs to exactly one holder until it is put back. Hence concurrent calls cannot disturb each other's results.",
 ["inputs","schedules"],"all inputs, all interleavings of concurrent calls (by exclusive ownership of every written location)",
 "The parallel tests never look at the results; use of a buffer after its return to the pool shows only under particular interleavings, and overlap shows only if a caller appends to or mutates a share.",
 ["shamir/shamir.go","shamir/polynomial.go","utils/bufferpool.go","krawczyk/krawczyk.go"],
 [m("buffer pool hand-over","utils/bufferpool.go Get, Put"),m("deferred return of scratch buffers","shamir/shamir.go, shamir/polynomial.go"),m("fresh result buffers","shamir/shamir.go, krawczyk/krawczyk.go newByteMatrix")])
p("C14","Parallel splitting is race-free and complete",
 "The parallel Shamir splitter partitions the secret into disjoint consecutive byte ranges that together cover it, its workers write disjoint locations that no other worker reads, and it returns only after every worker has finished; so every schedule yields a complete share set.",
 ["inputs","schedules"],"all secret lengths, parts, thresholds, all schedules of the workers",
 "SplitP is not called by any test that runs, and a race or missing join depends on the schedule and on lengths above the 1024-byte chunk.",
 ["shamir/shamir.go"],
 [m("chunking loop and wait group","shamir/shamir.go SplitP")])
p("C15","The worker facade dispatches faithfully",
 "A worker's Split and Combine return an error for any algorithm name other than the two supported ones, and otherwise pass input, parts and threshold unchanged and in order to the named scheme with the worker's own generator, returning that scheme's results unchanged.",
 ["inputs"],"all algorithm strings, inputs, n and k",
 "The worker package has no tests.",
 ["worker/worker.go"],
 [m("dispatch","worker/worker.go Split, Combine")])
p("C16","Secret-dependent randomness is unpredictable to an attacker",
 "Every generator seed, key and polynomial coefficient is computationally unpredictable to anyone who does not hold the process's memory.",
 ["histories"],"all attackers of bounded computing power, all process start times",
 "Unpredictability is not visible in any finite set of outputs.",
 ["csprng/csprng.go","shamir/polynomial.go","krawczyk/krawczyk.go","randomizer/randomizer.go"],
 [m("seeding","csprng/csprng.go init, NewCSPRNG"),m("math/rand","shamir/polynomial.go, krawczyk/krawczyk.go")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
