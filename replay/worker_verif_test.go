package worker

import (
	"bytes"
	"encoding/json"
	"fmt"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	mrand "math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

//COMMON

func vView(alg string, sh [][]byte, k int) [][]byte {
	out := [][]byte{}
	y := 0
	for _, p := range sh {
		if len(p) == 0 {
			return sh
		}
		y = len(p) - 1
		if alg == "krawczyk" {
			y = 20
		}
		if y > len(p) {
			return sh
		}
		out = append(out, append([]byte{byte(len(p)), byte(len(p) >> 8)}, p[y:]...))
	}
	if len(sh) >= k && k >= 2 {
		meta := [][]byte{}
		for _, p := range sh[:k] {
			if len(p) < y+1 {
				return sh
			}
			meta = append(meta, append([]byte(nil), p[:y+1]...))
		}
		sec, _ := shamir.Combine(meta)
		out = append(out, sec)
	}
	return out
}

func vNext(a, b *csprng.CSPRNG) bool {
	x, y := make([]byte, 4), make([]byte, 4)
	a.Read(x)
	b.Read(y)
	return bytes.Equal(x, y)
}

func TestV_C15(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	names := []string{"shamir", "krawczyk", "", "Shamir", "SHAMIR", "shamir ", " shamir", "ssms", "krawczyk\x00", "krawczy", "aes", "shami"}
	vals := []int{-3, -1, 0, 1, 2, 3, 4, 5, 7, 20, 21, 128, 254, 255, 256, 257, 300}
	for time.Now().Before(end) {
		ki := make([]byte, 32)
		r.Read(ki)
		w := Worker{csprng.NewCSPRNGWithKeyIV(ki)}
		g := csprng.NewCSPRNGWithKeyIV(ki)
		for q := 0; q < 50; q++ {
			alg := names[r.Intn(len(names))]
			if r.Intn(2) == 0 {
				alg = names[r.Intn(2)]
			}
			n, k := vals[r.Intn(len(vals))], vals[r.Intn(len(vals))]
			if r.Intn(2) == 0 {
				k = 2 + r.Intn(6)
				n = k + r.Intn(6)
			}
			s := vSecret(r, r.Intn(80))
			var got, want [][]byte
			var err, werr error
			arg := []interface{}{"alg", alg, "n", n, "k", k, "input", s, "keyiv", ki}
			p, hang := vCall(20*time.Second, func() { got, err = w.Split(alg, s, n, k) })
			if p != nil || hang {
				vFail(fmt.Sprintf("Split: panic %v hang %v", p, hang), arg...)
			}
			switch alg {
			case "shamir":
				want, werr = shamir.SplitWithRandomizer(s, n, k, g)
			case "krawczyk":
				want, werr = krawczyk.SplitWithRandomizer(s, n, k, g)
			default:
				if err == nil || got != nil {
					vFail("unknown algorithm accepted", arg...)
				}
				continue
			}
			// the Shamir y bytes depend on what a pooled buffer held: compare what they decode to
			if !vSame(vView(alg, got, k), vView(alg, want, k)) || !vNext(w.r, g) || (err == nil) != (werr == nil) || err != nil && err.Error() != werr.Error() {
				vFail(fmt.Sprintf("Split: errors %v, %v", err, werr), append(arg, "got", got, "want", want)...)
			}
			if err != nil {
				continue
			}
			sub := vClone(got[:k+r.Intn(n-k+1)])
			if r.Intn(6) == 0 {
				sub = sub[:1]
			}
			if r.Intn(6) == 0 {
				alg = names[r.Intn(len(names))]
			}
			var a, b []byte
			p, hang = vCall(20*time.Second, func() { a, err = w.Combine(alg, vClone(sub), n, k) })
			if p != nil || hang {
				vFail(fmt.Sprintf("Combine: panic %v hang %v", p, hang), arg...)
			}
			switch alg {
			case "shamir":
				b, werr = shamir.Combine(vClone(sub))
			case "krawczyk":
				b, werr = krawczyk.Combine(vClone(sub), n, k)
			default:
				if err == nil || a != nil {
					vFail("unknown algorithm accepted by Combine", arg...)
				}
				continue
			}
			if !bytes.Equal(a, b) || (err == nil) != (werr == nil) || err != nil && err.Error() != werr.Error() {
				vFail(fmt.Sprintf("Combine: errors %v, %v", err, werr), append(arg, "alg", alg, "shares", sub)...)
			}
		}
	}
}
