From ee5a57fc98ca065fa2a48612465a9e7a90d2a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 01/12] fix: CSPRNG.Read restarted the keystream on every call

Every Read masked its buffer with the same keystream prefix, so one
generator gave all its splits the same x coordinates, coefficients and
SSMS keys (with recycled buffers even all-zero coefficients). Keep the
position of the next unread keystream byte.
---
 csprng/csprng.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 4a7f3ec..2be43fe 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -9,6 +9,8 @@ import (
 type CSPRNG struct {
 	c  *aesctrat.AesCtr
 	iv []byte
+	// off is the position of the next unread keystream byte
+	off uint64
 }
 
 func init() {
@@ -19,16 +21,17 @@ func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
 	rand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{ctr, keyIv[16:], 0}
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{ctr, keyIv[16:], 0}
 }
 
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-	r.c.XORKeyStreamAt(buff, buff, r.iv, 0)
+	r.c.XORKeyStreamAt(buff, buff, r.iv, r.off)
+	r.off += uint64(len(buff))
 	return len(buff), nil
 }
 
-- 
2.43.0


From dc0dfe17d50c541f96c5d58f115704dd2161bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 02/12] fix: CSPRNG.Perm indexed out of range

j could reach n in the first iteration, and n-2 wrapped for n < 2.
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 2be43fe..90783ee 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -44,8 +44,8 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	for i := byte(0); i < n-2; i++ {
-		j := 1 + shuffler[i] % (n-i)
+	for i := byte(0); n > 1 && i < n-1; i++ {
+		j := i + shuffler[i] % (n-i)
 		temp := buff[i]
 		buff[i] = buff[j]
 		buff[j] = temp
-- 
2.43.0


From b588471bdc33407521036ab7aa4b90ab3ff5efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 03/12] fix: GetUniqueBytes could return 255, giving a share
 the x coordinate 0

SplitWithRandomizer adds one to each byte; 255 wrapped to x = 0, and that
share was the secret itself.
---
 csprng/csprng.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 90783ee..ca13b2a 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -53,7 +53,7 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	return buff
 }
 
-// GetUniqueBytes produces n unique byte. If n >= 20, this uses Perm(255)
+// GetUniqueBytes produces n unique byte between 0 and 254. If n >= 20, this uses Perm(255)
 // and return the first n bytes. Assuming PRNG that produces uniform number
 // when n >= 20, the chance of producing duplicate byte is greater than 50%,
 // that is why Perm(255) is used.
@@ -63,7 +63,8 @@ func (r *CSPRNG) GetUniqueBytes(n byte) []byte {
 		return r.Perm(255)[:n]
 	}
 	buff := make([]byte, n)
-	isExist := map[byte]bool{}
+	// 255 is excluded, as in Perm(255): callers add 1 and must not get 0
+	isExist := map[byte]bool{255: true}
 	_, _ = r.Read(buff)
 	for i := byte(0); i < n; i++ {
 		isDuplicate := true
-- 
2.43.0


From 6e8479756fea5fe0f494cbcdc5ad3ec7c41e178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 04/12] fix: Regenerate could reuse x coordinates, leak the
 secret at x = 0, or hang

The replacement for a duplicate x was never stored, x = 0 was allowed,
negative counts panicked and unsatisfiable counts looped forever.
---
 shamir/shamir.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 8b3a99c..19de262 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -440,10 +440,8 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 
 	// TODO: make a more efficient version of this by allocating less memory
 	// Create buffer to store the new shares
-	newShares := make([][]byte, numNewShares)
 	x_samples := make([]uint8, len(parts))
 	y_samples := make([]uint8, len(parts))
-	newXs := make([]byte, numNewShares)
 
 	// Set the x value for each sample and ensure no x_sample values are the same,
 	// otherwise div() can be unhappy
@@ -456,18 +454,27 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		checkMap[samp] = true
 	}
 
+	// every new share needs its own x, non-zero and not used by the given parts
+	if numNewShares < 0 || numNewShares > 255-len(parts) {
+		return nil, fmt.Errorf("cannot generate %d new shares from %d parts", numNewShares, len(parts))
+	}
+	newShares := make([][]byte, numNewShares)
+	newXs := make([]byte, numNewShares)
+
 	// generate new random x
 	if _, err := rand.Read(newXs); err != nil {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
-	// ensure no duplicate x generated
-	for _, nx := range newXs {
+	// ensure no duplicate x generated, and no zero x: that share would be the secret
+	checkMap[0] = true
+	for i, nx := range newXs {
 		exists := checkMap[nx]
 		for exists {
 			nx = byte(rand.Uint32())
 			exists = checkMap[nx]
 		}
 		checkMap[nx] = true
+		newXs[i] = nx
 	}
 
 	for i, share := range parts {
-- 
2.43.0


From 6280fb896ccb9dff4ee29132fb21ff5bc9eb8976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 05/12] fix: SSMS Split panicked for some secret lengths when
 parts == threshold

Without parity shards reedsolomon's Split clears bytes past the data that
may lie beyond the slice's capacity (64-byte secrets, for example).
---
 krawczyk/krawczyk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 44b90bc..2b78f40 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -53,6 +53,8 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
+	// encoder.Split may clear up to `threshold` bytes past the data, so they must exist
+	encryptedSecret = append(encryptedSecret, make([]byte, threshold)...)[:len(encryptedSecret)]
 	encodedSecret, err := encoder.Split(encryptedSecret)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
@@ -124,6 +126,8 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
+	// encoder.Split may clear up to `threshold` bytes past the data, so they must exist
+	encryptedSecret = append(encryptedSecret, make([]byte, threshold)...)[:len(encryptedSecret)]
 	encodedSecret, err := encoder.Split(encryptedSecret)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
-- 
2.43.0


From f09ff381d51e1f010bc7306593f4741455872cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 06/12] fix: SSMS Combine panicked on malformed shares

No shares, truncated shares, a part-id equal to parts, and negative parts
now give an error.
---
 krawczyk/krawczyk.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 2b78f40..687af74 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -176,12 +176,15 @@ func newByteMatrix(r, c int) [][]byte {
 }
 
 func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
+	if len(ssData) == 0 {
+		return nil, errors.New("no share is given")
+	}
 	if len(ssData[0]) > math.MaxUint32 {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
 	}
-	if threshold == 0 || parts == 0 {
-		return nil, errors.New("#parts and #threshold can not be zero")
+	if threshold <= 0 || parts <= 0 {
+		return nil, errors.New("#parts and #threshold must be positive")
 	}
 	if threshold > parts {
 		return nil, fmt.Errorf(
@@ -217,11 +220,15 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	encodedData := make([][]byte, parts)
 	ssMetadata := make([][]byte, len(ssData))
 	for i := 0; i < len(ssData); i++ {
+		// each share has the metadata, at least one byte of data, and the part-id
+		if len(ssData[i]) < secretStartIdx+2 {
+			return nil, errors.New("the given secret-shared data is wrong, a share is too short")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
 		partID := ssData[i][len(ssData[i])-1]
-		if partID > byte(parts) {
+		if partID >= byte(parts) {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
 		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
-- 
2.43.0


From 5896c821057a4e327bad23eeb167283e34969284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 07/12] fix: Randomizer.Perm did not return a permutation

It overwrote elements instead of swapping them, and panicked for n = 0.
---
 randomizer/randomizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 0247e73..409018c 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -34,9 +34,10 @@ func (r *Randomizer) Perm(n byte) []byte {
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
 	max := n-1
-	for i := byte(0); i < n-1; i++ {
+	for i := byte(0); i+1 < n; i++ {
 		rx := shuffler[i]%max
 		temp := buff[rx]
+		buff[rx] = buff[max]
 		buff[max] = temp
 		max--
 	}
-- 
2.43.0


From 4fe079661176134b1a77acb573517b8180f94997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 08/12] fix: appending to a share overwrote the next one

The shares are cut from one buffer; limit their capacity.
---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 19de262..9952762 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -60,7 +60,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -137,7 +137,7 @@ func SplitWithRandomizerOld(secret []byte, parts, threshold int, randomizer *csp
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -192,7 +192,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
-- 
2.43.0


From 22731a0c3d219ad4c3b2032c13ac98c3a9b037e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 09/12] fix: GalExp overflowed for large exponents

It also needed time proportional to n.
---
 galois/galois.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galois/galois.go b/galois/galois.go
index 567a76e..89acfd9 100644
--- a/galois/galois.go
+++ b/galois/galois.go
@@ -57,7 +57,7 @@ func GalExp(a byte, n int) byte {
 	}
 
 	logA := logTable[a]
-	logResult := int(logA) * n
+	logResult := int(logA) * (n % 255)
 	for logResult >= 255 {
 		logResult -= 255
 	}
-- 
2.43.0


From 748f66fc32ad6e62353470cd96f7db4d0fd324a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 10/12] fix: package galois did not build on ppc64le

vector.go excluded it, but there is no assembly version for it.
---
 galois/vector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/galois/vector.go b/galois/vector.go
index 56850e7..1294fd1 100644
--- a/galois/vector.go
+++ b/galois/vector.go
@@ -1,7 +1,6 @@
-//go:build (!amd64 || noasm || appengine || gccgo) && (!arm64 || noasm || appengine || gccgo) && (!ppc64le || noasm || appengine || gccgo)
+//go:build (!amd64 || noasm || appengine || gccgo) && (!arm64 || noasm || appengine || gccgo)
 // +build !amd64 noasm appengine gccgo
 // +build !arm64 noasm appengine gccgo
-// +build !ppc64le noasm appengine gccgo
 
 package galois
 
-- 
2.43.0


From 327f020121f13f8042dddb5011b3eb1f9123a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 11/12] fix: SplitP lost data or hung for secrets near or above
 4 GiB

The length was truncated to 32 bits and idx+1024 could wrap.
---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 9952762..58bb071 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -321,8 +321,8 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 	// Because we are using a field of size 256, we can only represent
 	// a single byte as the intercept of the polynomial, so we must
 	// use a new polynomial for each byte.
-	idx := uint32(0)
-	secretLen := uint32(len(secret))
+	idx := 0
+	secretLen := len(secret)
 	var wg sync.WaitGroup
 	for idx < secretLen {
 
@@ -332,7 +332,7 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 		}
 
 		wg.Add(1)
-		go func(startIdx, endIdx uint32, values []byte) {
+		go func(startIdx, endIdx int, values []byte) {
 			defer wg.Done()
 
 			crtIdx := startIdx
-- 
2.43.0


From dea764d625a2705fcaa6f356ea704daea7722fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 12/12] fix: generator's IV changed with the caller's key
 buffer

---
 csprng/csprng.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index ca13b2a..be0c1bf 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -26,7 +26,9 @@ func NewCSPRNG() *CSPRNG {
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:], 0}
+	// the caller keeps keyIv and may overwrite it
+	iv := append([]byte(nil), keyIv[16:]...)
+	return &CSPRNG{ctr, iv, 0}
 }
 
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-- 
2.43.0

