package shamir

import (
	"bytes"
	"encoding/json"
	"fmt"
	"github.com/fadhilkurnia/shamir/csprng"
	mrand "math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

//COMMON

type vSplit struct {
	name string
	f    func(s []byte, n, k int, g *csprng.CSPRNG) ([][]byte, error)
	gen  bool
}

var vSplits = []vSplit{
	{"Split", func(s []byte, n, k int, g *csprng.CSPRNG) ([][]byte, error) { return Split(s, n, k) }, false},
	{"SplitWithRandomizer", SplitWithRandomizer, true},
	{"SplitWithRandomizerOld", SplitWithRandomizerOld, true},
	{"SplitGeneric", func(s []byte, n, k int, g *csprng.CSPRNG) ([][]byte, error) { return SplitGeneric(s, n, k) }, false},
	{"SplitP", func(s []byte, n, k int, g *csprng.CSPRNG) ([][]byte, error) { return SplitP(s, n, k) }, false},
}

// one splitting call, every clause that one call can show
func vOne(r *mrand.Rand, sp vSplit, n, parts, thr int, g *csprng.CSPRNG, deep bool) {
	secret := vSecret(r, n)
	orig := append([]byte{}, secret...)
	var out [][]byte
	var err error
	arg := []interface{}{"fn", sp.name, "len", n, "parts", parts, "threshold", thr, "secret", orig}
	p, hang := vCall(60*time.Second, func() { out, err = sp.f(secret, parts, thr, g) })
	if hang {
		vFail("split does not return", arg...)
	}
	if p != nil {
		vFail(fmt.Sprint("split panics: ", p), arg...)
	}
	if err != nil {
		vFail("split of valid input fails: "+err.Error(), arg...)
	}
	if !bytes.Equal(secret, orig) {
		vFail("split modified its input", arg...)
	}
	vShape(out, n, parts, arg)
	// all parts, exact polynomial of degree < threshold: parts beyond the threshold lie on it
	xs := make([]byte, parts)
	perm := r.Perm(parts)
	for i, q := range perm {
		xs[i] = out[q][n]
	}
	ys := make([]byte, parts)
	step := 1
	if int64(n)*int64(parts)*int64(thr) > 3000000 {
		step = int(int64(n)*int64(parts)*int64(thr)/3000000) + 1
	}
	w := vWeights(xs[:thr], 0)
	var extra [][]byte
	for e := thr; e < parts && e < thr+2; e++ {
		extra = append(extra, vWeights(xs[:thr], xs[e]))
	}
	chk := func(k int) {
		for i, q := range perm {
			ys[i] = out[q][k]
		}
		if vDot(w, ys) != orig[k] {
			vFail(fmt.Sprintf("threshold shares interpolate to %d instead of secret byte %d at index %d", vDot(w, ys), orig[k], k), append(arg, "shares", out)...)
		}
		for e := range extra {
			if vDot(extra[e], ys) != ys[thr+e] {
				vFail(fmt.Sprintf("shares are not on one polynomial of degree < threshold at index %d", k), append(arg, "shares", out)...)
			}
		}
	}
	for k := r.Intn(step); k < n; k += step {
		chk(k)
	}
	for k := 0; k < n && k < 40; k++ {
		chk(k)
		chk(n - 1 - k)
	}
	if deep {
		for _, m := range []int{thr, parts, thr + (parts-thr)/2} {
			if n*m*m > 4000000 {
				continue
			}
			sub := make([][]byte, m)
			for i, q := range r.Perm(parts)[:m] {
				sub[i] = out[q]
			}
			cp := vClone(sub)
			var got []byte
			p, hang := vCall(60*time.Second, func() { got, err = Combine(sub) })
			if p != nil || hang || err != nil || !bytes.Equal(got, orig) {
				vFail(fmt.Sprintf("Combine of %d shares does not return the secret: panic %v, hang %v, err %v", m, p, hang, err), append(arg, "shares", cp, "got", got)...)
			}
			if !vSame(sub, cp) {
				vFail("Combine modified its input", append(arg, "shares", cp)...)
			}
		}
	}
}

func vWeights(xs []byte, x byte) []byte {
	w := make([]byte, len(xs))
	for i := range xs {
		b := byte(1)
		for j := range xs {
			if i != j {
				b = vTab[b][vTab[x^xs[j]][vInvT[xs[i]^xs[j]]]]
			}
		}
		w[i] = b
	}
	return w
}

func vDot(w, ys []byte) byte {
	var r byte
	for i := range w {
		r ^= vTab[w[i]][ys[i]]
	}
	return r
}

func vShape(out [][]byte, n, parts int, arg []interface{}) {
	if len(out) != parts {
		vFail(fmt.Sprintf("%d shares", len(out)), arg...)
	}
	seen := map[byte]bool{0: true}
	for i := range out {
		if len(out[i]) != n+1 {
			vFail(fmt.Sprintf("share %d has %d bytes", i, len(out[i])), arg...)
		}
		if seen[out[i][n]] {
			vFail(fmt.Sprintf("share %d has x=%d, zero or used before", i, out[i][n]), append(arg, "shares", out)...)
		}
		seen[out[i][n]] = true
	}
}

func vGen(r *mrand.Rand) *csprng.CSPRNG {
	b := make([]byte, 32)
	r.Read(b)
	return csprng.NewCSPRNGWithKeyIV(b)
}

func vRoundTrip(deep bool) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	g := vGen(r)
	lens := vLens(70000)
	half := time.Now().Add(time.Until(end) / 2)
	for it := 0; time.Now().Before(end); it++ {
		if it == 1 {
			// large secrets, in the order of their size
			for _, n := range vBigLens(2, 3, 4, 5) {
				for _, sp := range vSplits {
					for _, k := range []int{2, 3, 4, 5} {
						if n*k < 8<<20 && time.Now().Before(half) {
							vOne(r, sp, n, k+r.Intn(2), k, g, false)
						}
					}
				}
			}
		}
		for _, sp := range vSplits {
			for _, pr := range vPairs() {
				n := lens[r.Intn(len(lens))]
				if it == 0 || pr[0] > 60 {
					n = 1 + r.Intn(70)
				}
				vOne(r, sp, n, pr[0], pr[1], g, deep && pr[0] < 40)
			}
			for _, n := range lens {
				if n > 3000 && it%3 != 0 {
					continue
				}
				k := 2 + r.Intn(4)
				vOne(r, sp, n, k+r.Intn(4), k, g, deep)
				if time.Now().After(end) {
					break
				}
			}
			// many small calls: rare draws (x = 0, 255, duplicates)
			for q := 0; q < 3000; q++ {
				k := 2 + r.Intn(30)
				s := k + r.Intn(40)
				vOne(r, sp, 1+r.Intn(3), s, k, g, deep && q%10 == 0)
			}
			for q := 0; q < 300 && it > 0; q++ {
				k := 2 + r.Intn(254)
				s := k + r.Intn(256-k)
				vOne(r, sp, 1+r.Intn(3), s, k, g, false)
			}
		}
	}
}

func TestV_C01(t *testing.T) { vRoundTrip(true) }

func TestV_C02(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	g := vGen(r)
	vals := []int{-1 << 63, -1<<63 + 1, -1 << 32, -1 << 31, -65536, -257, -256, -255, -254, -129, -128, -3, -2, -1, 0, 1, 2, 3, 4, 5, 19, 20, 21, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 65535, 65536, 65537, 1 << 31, 1<<31 + 2, 1 << 32, 1<<32 + 2, 1<<32 + 3, 1<<63 - 1}
	for _, s := range strings.Split(os.Getenv("VERIF_LITS"), ",") {
		n := 0
		if _, err := fmt.Sscan(s, &n); err == nil && n > 5 && n < 1<<20 {
			vals = append(vals, n-1, n, n+1)
		}
	}
	secrets := [][]byte{nil, {}, {0}, {7}, {1, 2, 3}, make([]byte, 17), make([]byte, 40)[:0], make([]byte, 128)}
	for _, sp := range vSplits {
		for _, a := range vals {
			for _, b := range vals {
				for _, s := range secrets {
					want := a < b || b < 2 || a > 255 || len(s) == 0
					var out [][]byte
					var err error
					arg := []interface{}{"fn", sp.name, "secret", s, "parts", a, "threshold", b}
					p, hang := vCall(20*time.Second, func() { out, err = sp.f(s, a, b, g) })
					if p != nil || hang {
						vFail(fmt.Sprintf("panic %v, hang %v", p, hang), arg...)
					}
					if want != (err != nil) {
						vFail(fmt.Sprintf("error %v", err), arg...)
					}
					if err != nil && out != nil {
						vFail("shares together with an error", arg...)
					}
					if err == nil {
						vShape(out, len(s), a, arg)
					}
				}
			}
		}
	}
	vRoundTrip(false)
}

// coefficients of a call, recovered from its shares
func vPolys(out [][]byte, n, thr int) [][]byte {
	xs := make([]byte, thr)
	ys := make([]byte, thr)
	for i := range xs {
		xs[i] = out[i][n]
	}
	res := make([][]byte, n)
	for k := 0; k < n; k++ {
		for i := range ys {
			ys[i] = out[i][k]
		}
		res[k] = vCoefs(xs, ys)
	}
	return res
}

// vRepeat: no run of 8 coefficient bytes comes twice in one large split
func vRepeat(r *mrand.Rand, sp vSplit, n, thr int) {
	if n*thr > 12<<20 {
		return
	}
	secret := make([]byte, n)
	out, err := sp.f(secret, thr, thr, vGen(r))
	arg := []interface{}{"fn", sp.name, "len", n, "parts", thr, "threshold", thr}
	if err != nil {
		vFail("split fails", arg...)
	}
	vShape(out, n, thr, arg)
	xs := make([]byte, thr)
	for i := range xs {
		xs[i] = out[i][n]
	}
	// coefficient j of byte k is a fixed combination of the shares' bytes k
	mat := make([][]byte, thr)
	for i := range mat {
		e := make([]byte, thr)
		e[i] = 1
		mat[i] = vCoefs(xs, e)
	}
	flat := make([]byte, 0, n*(thr-1))
	for k := 0; k < n; k++ {
		for j := 1; j < thr; j++ {
			var c byte
			for i := range mat {
				c ^= vTab[mat[i][j]][out[i][k]]
			}
			flat = append(flat, c)
		}
	}
	for col := 0; col < thr; col++ {
		seq := flat
		if col > 0 {
			if thr == 2 {
				break
			}
			seq = make([]byte, n)
			for k := range seq {
				seq[k] = flat[k*(thr-1)+col-1]
			}
			if col == thr-1 && len(seq) == 0 {
				break
			}
		}
		seen := map[uint64]int{}
		var w uint64
		for i, c := range seq {
			w = w<<8 | uint64(c)
			if i%8 == 7 {
				if z, ok := seen[w]; ok {
					vFail(fmt.Sprintf("drawn bytes %016x at %d and at %d (coefficient stream %d)", w, z, i-7, col), arg...)
				}
				seen[w] = i - 7
			}
		}
		w = 0
		for i, c := range seq {
			w = w<<8 | uint64(c)
			if z, ok := seen[w]; ok && i >= 7 && z != i-7 {
				vFail(fmt.Sprintf("drawn bytes %016x at %d and at %d (coefficient stream %d)", w, z, i-7, col), arg...)
			}
		}
	}
}

func TestV_C03(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	lens := vLens(20000)
	half := time.Now().Add(time.Until(end) / 2)
	for it := 0; time.Now().Before(end); it++ {
		if it == 1 {
			for _, n := range vBigLens(2, 3) {
				for _, sp := range vSplits {
					for thr := 2; thr <= 4; thr++ {
						if time.Now().Before(half) {
							vRepeat(r, sp, n, thr)
						}
					}
				}
			}
		}
		for _, sp := range vSplits {
			g := vGen(r)
			var hist [64][256]int
			var tot [64]int
			seen := map[string]string{}
			for q := 0; q < 60 && time.Now().Before(end); q++ {
				thr := 2 + r.Intn(5)
				if q%7 == 0 {
					thr = 2 + r.Intn(40)
				}
				if q == 11 {
					thr = 255
				}
				parts := thr + r.Intn(3)
				if parts > 255 {
					parts = 255
				}
				n := lens[r.Intn(len(lens))]
				if n*thr*thr > 400000 {
					n = 400000/(thr*thr) + 1
				}
				secret := vSecret(r, n)
				out, err := sp.f(secret, parts, thr, g)
				arg := []interface{}{"fn", sp.name, "len", n, "parts", parts, "threshold", thr, "secret", secret}
				if err != nil {
					vFail("split fails", arg...)
				}
				vShape(out, n, parts, arg)
				ps := vPolys(out, n, thr)
				flat := []byte{}
				for k := range ps {
					if ps[k][0] != secret[k] {
						vFail("a polynomial does not have the secret byte as its constant", arg...)
					}
					for j := 1; j < thr; j++ {
						if j < 64 {
							hist[j][ps[k][j]]++
							tot[j]++
						}
					}
					flat = append(flat, ps[k][1:]...)
				}
				// no run of 8 drawn bytes may come twice, in this call or another
				for _, off := range []int{1, 2} {
					_ = off
				}
				for i := 0; i+8 <= len(flat); i++ {
					s := string(flat[i : i+8])
					if z, ok := seen[s]; ok {
						vFail(fmt.Sprintf("drawn bytes %x used twice: %s and call %d position %d", s, z, q, i), arg...)
					}
					if i%8 == 0 {
						seen[s] = fmt.Sprintf("call %d position %d", q, i)
					}
				}
				// one column: the same coefficient of consecutive bytes
				for j := 1; j < thr && j < 6; j++ {
					col := []byte{}
					for k := range ps {
						col = append(col, ps[k][j])
					}
					loc := map[string]int{}
					for i := 0; i+8 <= len(col); i++ {
						s := string(col[i : i+8])
						if z, ok := loc[s]; ok {
							vFail(fmt.Sprintf("coefficient %d repeats: bytes %d.. and %d..", j, z, i), arg...)
						}
						loc[s] = i
					}
				}
				// coefficients equal to each other within one polynomial, everywhere
				if n >= 8 && thr >= 3 {
					for a := 1; a < thr; a++ {
						for b := a + 1; b < thr; b++ {
							same := true
							for k := range ps {
								if ps[k][a] != ps[k][b] {
									same = false
									break
								}
							}
							if same {
								vFail(fmt.Sprintf("coefficients %d and %d are always equal", a, b), arg...)
							}
						}
					}
				}
			}
			for j := 1; j < 64; j++ {
				if tot[j] > 3000 {
					if c := vChi(&hist[j]); c > 480 {
						vFail(fmt.Sprintf("coefficient %d is not uniform: chi-square %.0f over %d draws", j, c, tot[j]), "fn", sp.name)
					}
				}
			}
			// small secrets: one polynomial per call, coefficients uniform; x never 0
			for _, thr := range []int{2, 3, 4, 5, 9} {
				for n := 1; n <= 3; n++ {
					var h [3][9][256]int
					N := 12000
					if thr > 5 {
						N = 5000
					}
					for q := 0; q < N; q++ {
						secret := []byte{7, 7, 7}[:n]
						out, err := sp.f(secret, thr, thr, g)
						if err != nil {
							vFail("split fails", "fn", sp.name)
						}
						vShape(out, n, thr, []interface{}{"fn", sp.name, "parts", thr, "threshold", thr, "secret", secret})
						ps := vPolys(out, n, thr)
						for k := range ps {
							for j := 1; j < thr; j++ {
								h[k][j][ps[k][j]]++
							}
						}
					}
					for k := 0; k < n; k++ {
						for j := 1; j < thr; j++ {
							if c := vChi(&h[k][j]); c > 480 {
								vFail(fmt.Sprintf("coefficient %d of byte %d is not uniform: chi-square %.0f", j, k, c), "fn", sp.name, "len", n, "threshold", thr)
							}
						}
					}
					if time.Now().After(end) {
						return
					}
				}
			}
			// the draws must not depend on the secret.  (SplitWithRandomizer xors the
			// keystream over whatever its pooled buffer holds, so it is not comparable.)
			if sp.gen && sp.name != "SplitWithRandomizer" {
				for q := 0; q < 40; q++ {
					kb := make([]byte, 32)
					r.Read(kb)
					n := 1 + r.Intn(300)
					thr := 2 + r.Intn(6)
					parts := thr + r.Intn(30)
					pre := r.Intn(3)
					var res [2][][]byte
					var secs [2][]byte
					for w := 0; w < 2; w++ {
						g := csprng.NewCSPRNGWithKeyIV(kb)
						for z := 0; z < pre; z++ {
							sp.f(make([]byte, 9), 3, 2, g)
						}
						secs[w] = make([]byte, n)
						r.Read(secs[w])
						out, err := sp.f(secs[w], parts, thr, g)
						if err != nil {
							vFail("split fails", "fn", sp.name)
						}
						for _, p := range vPolys(out, n, thr) {
							res[w] = append(res[w], p[1:])
						}
					}
					if !vSame(res[0], res[1]) {
						vFail("the coefficients drawn from one generator state depend on the secret", "fn", sp.name, "keyiv", kb, "parts", parts, "threshold", thr, "secret1", secs[0], "secret2", secs[1])
					}
				}
			}
		}
	}
}

func vRef(parts [][]byte) ([]byte, bool) {
	if len(parts) < 2 {
		return nil, false
	}
	L := len(parts[0])
	if L < 2 {
		return nil, false
	}
	seen := map[byte]bool{}
	xs := []byte{}
	for _, p := range parts {
		if len(p) != L {
			return nil, false
		}
		if seen[p[L-1]] {
			return nil, false
		}
		seen[p[L-1]] = true
		xs = append(xs, p[L-1])
	}
	w := vWeights(xs, 0)
	out := make([]byte, L-1)
	ys := make([]byte, len(xs))
	for k := range out {
		for i := range parts {
			ys[i] = parts[i][k]
		}
		out[k] = vDot(w, ys)
	}
	return out, true
}

func vCombineOne(parts [][]byte) {
	cp := vClone(parts)
	want, ok := vRef(parts)
	var got []byte
	var err error
	p, hang := vCall(60*time.Second, func() { got, err = Combine(parts) })
	arg := []interface{}{"fn", "Combine", "parts", cp}
	if p != nil || hang {
		vFail(fmt.Sprintf("panic %v, hang %v", p, hang), arg...)
	}
	if ok != (err == nil) {
		vFail(fmt.Sprintf("error %v, but malformed is %v", err, !ok), arg...)
	}
	if err != nil && got != nil {
		vFail("data together with an error", arg...)
	}
	if err == nil && !bytes.Equal(got, want) {
		vFail("not the interpolation at zero", append(arg, "got", got, "want", want)...)
	}
	if !vSame(cp, parts) {
		vFail("Combine modified its input", arg...)
	}
}

// share sets: valid ones, and each kind of damage at each place
func vSets(r *mrand.Rand) [][]byte {
	m := r.Intn(8)
	if r.Intn(10) == 0 {
		m = r.Intn(256)
	}
	L := r.Intn(6)
	if r.Intn(8) == 0 {
		ls := vLens(3000)
		L = ls[r.Intn(len(ls))]
		if m > 30 {
			m = 3
		}
	}
	perm := r.Perm(256)
	zero := r.Intn(4) == 0
	out := make([][]byte, m)
	for i := range out {
		out[i] = make([]byte, L, L+r.Intn(3))
		r.Read(out[i])
		if L > 0 {
			x := byte(perm[i])
			if x == 0 && !zero {
				x = byte(perm[255])
			}
			if x == 0 && !zero {
				x = 1
			}
			out[i][L-1] = x
		}
		if r.Intn(10) == 0 {
			for k := 0; k+1 < L; k++ {
				out[i][k] = 0
			}
		}
	}
	if m > 0 {
		switch r.Intn(8) {
		case 0:
			out[r.Intn(m)] = nil
		case 1:
			out[r.Intn(m)] = make([]byte, r.Intn(8))
		case 2:
			j := r.Intn(m)
			if L > 1 {
				out[j] = out[j][:L-1]
			}
		case 3:
			j := r.Intn(m)
			if L > 0 {
				out[j] = append([]byte{}, append(append([]byte{}, out[j]...), 9)...)
			}
		case 4:
			i, j := r.Intn(m), r.Intn(m)
			if L > 0 && len(out[i]) == L && len(out[j]) == L {
				out[i][L-1] = out[j][L-1]
			}
		case 5:
			i, j := r.Intn(m), r.Intn(m)
			out[i] = out[j]
		}
	}
	return out
}

func TestV_C04(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	vCombineOne(nil)
	vCombineOne([][]byte{})
	vCombineOne([][]byte{nil, nil})
	vCombineOne([][]byte{{}, {}})
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			vCombineOne([][]byte{{5, byte(a)}, {201, byte(b)}})
		}
	}
	for x := 0; x < 256; x++ {
		for y := 0; y < 256; y++ {
			vCombineOne([][]byte{{byte(y), byte(x)}, {byte(x), byte(x + 1)}, {77, byte(x + 9)}})
		}
	}
	for m := 0; m <= 256; m++ {
		s := make([][]byte, m)
		for i := range s {
			s[i] = []byte{byte(r.Intn(256)), byte(i)}
		}
		vCombineOne(s)
	}
	// damage at the last places of sets of every size
	for m := 2; m <= 258; m++ {
		for q := 0; q < 8; q++ {
			s := make([][]byte, m)
			for i := range s {
				s[i] = []byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(i)}
			}
			j := m - 1 - q/4
			switch q % 4 {
			case 0:
				s[j] = append(s[j], 200)
			case 1:
				s[j] = s[j][:2]
			case 2:
				s[j] = nil
			case 3:
				s[j][2] = s[r.Intn(m)][2]
			}
			vCombineOne(s)
		}
	}
	lits := vBigLens(2)
	for it := 0; time.Now().Before(end); it++ {
		vCombineOne(vSets(r))
		if it%200 == 0 {
			n := lits[r.Intn(len(lits))]
			if n < 1<<19 {
				s := [][]byte{make([]byte, n), make([]byte, n), make([]byte, n)}
				for i := range s {
					r.Read(s[i])
					s[i][n-1] = byte(i + it)
				}
				vCombineOne(s)
			}
		}
	}
}

func vRegOne(r *mrand.Rand, parts [][]byte, n int) {
	cp := vClone(parts)
	_, ok := vRef(parts)
	ok = ok && n >= 0 && n <= 255-len(parts)
	// a set that uses x = 0 leaves one more coordinate free
	zero := false
	for _, p := range parts {
		if len(p) > 0 && p[len(p)-1] == 0 {
			zero = true
		}
	}
	if zero && n == 256-len(parts) {
		return
	}
	var out [][]byte
	var err error
	p, hang := vCall(60*time.Second, func() { out, err = Regenerate(parts, n) })
	arg := []interface{}{"fn", "Regenerate", "parts", cp, "n", n}
	if p != nil || hang {
		vFail(fmt.Sprintf("panic %v, hang %v", p, hang), arg...)
	}
	if ok != (err == nil) {
		vFail(fmt.Sprintf("error %v, expected success: %v", err, ok), arg...)
	}
	if !vSame(cp, parts) {
		vFail("Regenerate modified its input", arg...)
	}
	if err != nil {
		if out != nil {
			vFail("shares together with an error", arg...)
		}
		return
	}
	if len(out) != n {
		vFail(fmt.Sprintf("%d new shares", len(out)), arg...)
	}
	L := len(parts[0])
	seen := map[byte]bool{0: true}
	xs := []byte{}
	for _, p := range parts {
		seen[p[L-1]] = true
		xs = append(xs, p[L-1])
	}
	ys := make([]byte, len(parts))
	for q := range out {
		if len(out[q]) != L {
			vFail(fmt.Sprintf("new share %d has %d bytes", q, len(out[q])), arg...)
		}
		x := out[q][L-1]
		if seen[x] {
			vFail(fmt.Sprintf("new share %d has x=%d: zero or used before", q, x), arg...)
		}
		seen[x] = true
		w := vWeights(xs, x)
		for k := 0; k < L-1; k++ {
			for i := range parts {
				ys[i] = parts[i][k]
			}
			if vDot(w, ys) != out[q][k] {
				vFail(fmt.Sprintf("new share %d is not on the polynomial at byte %d", q, k), append(arg, "got", out)...)
			}
		}
	}
}

func TestV_C05(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	for m := 2; m <= 255; m++ {
		s := make([][]byte, m)
		perm := r.Perm(255)
		for i := range s {
			s[i] = []byte{byte(r.Intn(256)), byte(perm[i] + 1)}
		}
		for _, n := range []int{-1 << 63, -1, 0, 1, 254 - m, 255 - m, 256 - m, 257 - m, 255, 256, 1 << 40} {
			vRegOne(r, s, n)
		}
		if time.Now().After(end) {
			break
		}
	}
	ns := []int{-1 << 62, -300, -2, -1, 0, 1, 2, 3, 5, 10, 100, 200, 250, 251, 252, 253, 254, 255, 256, 1 << 33}
	for time.Now().Before(end) {
		s := vSets(r)
		n := ns[r.Intn(len(ns))]
		if len(s) > 0 && len(s[0]) > 100 && n > 10 {
			n = 3
		}
		vRegOne(r, s, n)
	}
}

func TestV_C06(t *testing.T) {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			x, y := byte(a), byte(b)
			if add(x, y) != x^y {
				vFail("add", "a", a, "b", b, "got", add(x, y))
			}
			if mult(x, y) != vTab[a][b] {
				vFail("mult", "a", a, "b", b, "got", mult(x, y))
			}
			var q byte
			p, _ := vCall(time.Second*5, func() { q = div(x, y) })
			if (b == 0) != (p != nil) {
				vFail(fmt.Sprint("div panics: ", p), "a", a, "b", b)
			}
			if b != 0 && q != vTab[a][vInvT[b]] {
				vFail("div", "a", a, "b", b, "got", q)
			}
		}
	}
}

func TestV_C13(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	lens := vLens(9000)
	g := vGen(r)
	for it := 0; time.Now().Before(end); it++ {
		for _, sp := range vSplits {
			k := 2 + r.Intn(5)
			m := k + r.Intn(5)
			n := lens[r.Intn(len(lens))]
			back := make([]byte, n+64)
			r.Read(back)
			bcp := append([]byte{}, back...)
			secret := back[32 : 32+n : 32+n+r.Intn(32)]
			out, err := sp.f(secret, m, k, g)
			if err != nil {
				vFail("split fails", "fn", sp.name)
			}
			arg := []interface{}{"fn", sp.name, "len", n, "parts", m, "threshold", k}
			if !bytes.Equal(back, bcp) {
				vFail("split modified its input or memory around it", arg...)
			}
			keep := vClone(out)
			// writing to the secret, to one share and to its spare capacity, and later
			// calls, must leave the other shares alone
			for i := range secret {
				secret[i] ^= 0xff
			}
			for q := 0; q < 3; q++ {
				o2, _ := sp.f(make([]byte, n), m, k, g)
				for _, s := range o2 {
					for i := range s {
						s[i] = 0xAA
					}
				}
			}
			if !vSame(out, keep) {
				vFail("shares changed after the call", arg...)
			}
			v := r.Intn(m)
			full := out[v][:cap(out[v])]
			for i := range full {
				full[i] ^= 0x55
			}
			_ = append(out[v], 1, 2, 3)
			for i := range out {
				if i != v && !bytes.Equal(out[i], keep[i]) {
					vFail(fmt.Sprintf("writing to share %d (capacity included) changed share %d", v, i), arg...)
				}
			}
			// Combine
			sub := vClone(keep[:k])
			s1, err := Combine(sub)
			if err != nil {
				vFail("Combine fails", arg...)
			}
			c1 := append([]byte{}, s1...)
			if !vSame(sub, keep[:k]) {
				vFail("Combine modified its input", arg...)
			}
			for _, s := range sub {
				for i := range s {
					s[i] = 0x33
				}
			}
			sp.f(make([]byte, n), m, k, g)
			Combine(vClone(keep[:k]))
			if !bytes.Equal(s1, c1) {
				vFail("the result of Combine changed later", arg...)
			}
			// Regenerate
			sub = vClone(keep[:k])
			if n > 300 {
				for i := range sub {
					sub[i] = sub[i][n-200:]
				}
			}
			scp := vClone(sub)
			n1, err := Regenerate(sub, 3)
			if err != nil {
				vFail("Regenerate fails", arg...)
			}
			if !vSame(sub, scp) {
				vFail("Regenerate modified its input", arg...)
			}
			ncp := vClone(n1)
			f := n1[1][:cap(n1[1])]
			for i := range f {
				f[i] ^= 1
			}
			for _, s := range sub {
				for i := range s {
					s[i] = 0
				}
			}
			Regenerate(vClone(scp), 2)
			if !bytes.Equal(n1[0], ncp[0]) || !bytes.Equal(n1[2], ncp[2]) {
				vFail("new shares of Regenerate overlap", arg...)
			}
		}
		// concurrent calls
		if it%10 == 0 {
			var wg sync.WaitGroup
			for w := 0; w < 16; w++ {
				wg.Add(1)
				seed := r.Int63()
				go func() {
					defer wg.Done()
					r := mrand.New(mrand.NewSource(seed))
					g := vGen(r)
					for q := 0; q < 40; q++ {
						k := 2 + r.Intn(3)
						n := 1 + r.Intn(400)
						s := make([]byte, n)
						r.Read(s)
						sp := vSplits[r.Intn(len(vSplits))]
						out, err := sp.f(s, k+1, k, g)
						if err != nil {
							vFail("split fails", "fn", sp.name)
						}
						runtime.Gosched()
						got, err := Combine(out[:k])
						if err != nil || !bytes.Equal(got, s) {
							vFail("concurrent calls disturb each other", "fn", sp.name, "secret", s, "got", got)
						}
					}
				}()
			}
			wg.Wait()
		}
	}
}

func TestV_C14(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	lens := vLens(40000)
	sp := vSplits[4]
	for it := 0; time.Now().Before(end); it++ {
		for _, n := range lens {
			if n > 9000 && it%3 != 0 {
				continue
			}
			if n < 900 && it > 0 && r.Intn(5) != 0 {
				continue
			}
			k := 2 + r.Intn(3)
			vOne(r, sp, n, k+r.Intn(3), k, nil, false)
			if time.Now().After(end) {
				return
			}
		}
		vOne(r, sp, 1500, 255, 255, nil, false)
		vOne(r, sp, 3000, 255, 2, nil, false)
		runtime.GOMAXPROCS(1 + r.Intn(8))
	}
}
