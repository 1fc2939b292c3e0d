D = 'contract-based deductive verification of the Go SSA (gover: symbolic execution, inferred loop invariants, z3/cvc5)'
LEVELS.update({
    'C01': (D + '; round trip verified as client lemma functions over the contracts; the interpolation lemma is a Lean theorem', 'proof', 'every split (SplitP included) and Combine, all sizes, every choice of at least threshold shares'),
    'C02': (D, 'proof', 'every split (SplitP included), all arguments'),
    'C03': (D, 'proof', 'every split (SplitP included): each coefficient is its own draw, all sizes; the counting step of perfect secrecy is a Lean theorem'),
    'C04': (D, 'proof', 'Combine for every argument: value, errors, no panic'),
    'C05': (D, 'proof', 'Regenerate for every argument: value of every new byte, distinct fresh non-zero x, errors, no panic; termination of the resampling loop is probabilistic and not claimed'),
    'C06': (D + '; byte functions by exhaustive evaluation of their SSA', 'proof', 'GalExp for every base and non-negative exponent by SMT; the byte functions and every table entry for all arguments'),
    'C11': (D, 'proof', 'Read of both generators for every buffer; AES and CTR itself (aesctrat, crypto/cipher) are assumed contracts'),
    'C07': (D + '; the linked machine code of the kernels by symbolic execution of its disassembly with per-loop invariants', 'proof', 'every length, constant and CPU feature set on the amd64, arm64 and portable builds; instruction semantics are trusted; built for every GOARCH'),
    'C14': (D + ' under an ownership discipline for goroutines: disjoint byte intervals, WaitGroup ghost counters', 'proof', 'SplitP for all arguments and schedules: race-freedom obligations make every schedule equal to the sequential one that is verified; math/rand package functions assumed goroutine-safe'),
    'C15': (D + ' over a recorded-call contract: which scheme is called, with which arguments, and that its results are returned', 'proof', 'every algorithm name, all arguments; the four scheme functions are opaque here (any result)'),
    'C09': (D, 'proof', 'both SSMS splits (encrypt and the Shamir split of the metadata included), all arguments; AES, OFB, bytes/io and reedsolomon are assumed contracts'),
    'C10': (D, 'proof', 'krawczyk.Combine for every list of byte slices and all integers; reedsolomon, AES and OFB are assumed contracts'),
    'C13': (D + ' with ownership of pooled buffers', 'proof', 'frames, freshness and disjointness of every splitting, combining and regenerating function, and the pool hand-over; concurrency follows from exclusive ownership of every written location'),
    'C12': (D, 'proof', 'every n and every keystream; termination of the rejection loop of GetUniqueBytes is probabilistic and not claimed'),
})
NA = {'C16': 'Unpredictability is a computational statement about math/rand seeding and an adversary, not a property of one execution or of a set of executions that a function contract can express; the code seeds math/rand from the clock, so it would not hold either.'}
