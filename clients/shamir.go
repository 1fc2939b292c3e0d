// Lemma functions: compositions of the real functions, verified from their
// contracts. Nothing of the repository is restated here.
package shamir

import "github.com/fadhilkurnia/shamir/csprng"

func verifRoundTrip_Split(secret []byte, parts, threshold int, pick []int) ([]byte, error) {
	shares, err := Split(secret, parts, threshold)
	if err != nil {
		return nil, err
	}
	sub := make([][]byte, len(pick))
	for i := 0; i < len(pick); i++ {
		sub[i] = shares[pick[i]]
	}
	return Combine(sub)
}

func verifRoundTrip_SplitGeneric(secret []byte, parts, threshold int, pick []int) ([]byte, error) {
	shares, err := SplitGeneric(secret, parts, threshold)
	if err != nil {
		return nil, err
	}
	sub := make([][]byte, len(pick))
	for i := 0; i < len(pick); i++ {
		sub[i] = shares[pick[i]]
	}
	return Combine(sub)
}

func verifRoundTrip_SplitP(secret []byte, parts, threshold int, pick []int) ([]byte, error) {
	shares, err := SplitP(secret, parts, threshold)
	if err != nil {
		return nil, err
	}
	sub := make([][]byte, len(pick))
	for i := 0; i < len(pick); i++ {
		sub[i] = shares[pick[i]]
	}
	return Combine(sub)
}

func verifRoundTrip_SplitWithRandomizer(secret []byte, parts, threshold int, r *csprng.CSPRNG, pick []int) ([]byte, error) {
	shares, err := SplitWithRandomizer(secret, parts, threshold, r)
	if err != nil {
		return nil, err
	}
	sub := make([][]byte, len(pick))
	for i := 0; i < len(pick); i++ {
		sub[i] = shares[pick[i]]
	}
	return Combine(sub)
}

func verifRoundTrip_SplitWithRandomizerOld(secret []byte, parts, threshold int, r *csprng.CSPRNG, pick []int) ([]byte, error) {
	shares, err := SplitWithRandomizerOld(secret, parts, threshold, r)
	if err != nil {
		return nil, err
	}
	sub := make([][]byte, len(pick))
	for i := 0; i < len(pick); i++ {
		sub[i] = shares[pick[i]]
	}
	return Combine(sub)
}
