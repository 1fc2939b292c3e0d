package csprng

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

//COMMON

func vStream(ki []byte, n int) []byte {
	b, _ := aes.NewCipher(ki[:16])
	out := make([]byte, n)
	cipher.NewCTR(b, ki[16:32]).XORKeyStream(out, out)
	return out
}

// TestV_C11: reads, mixed with the other operations that draw, deliver the keystream in order
func TestV_C11(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	small := append(vLens(5000), 0)
	big := append(vBigLens(), vLens(400000)...)
	for it := 0; time.Now().Before(end); it++ {
		lens, limit := small, 50000
		if it%8 == 7 {
			lens, limit = big, 2000000
		}
		ki := make([]byte, 32)
		r.Read(ki)
		if r.Intn(4) == 0 {
			for i := 18 + r.Intn(14); i < 32; i++ {
				ki[i] = 0xff
			}
		}
		own := append([]byte{}, ki...)
		g := NewCSPRNGWithKeyIV(own)
		if !bytes.Equal(own, ki) {
			vFail("NewCSPRNGWithKeyIV changed keyIv", "keyiv", ki)
		}
		for i := range own {
			own[i] ^= 0x5a
		}
		total := 0
		sizes := []int{}
		ref := vStream(ki, limit+10000)
		for q := 0; q < 30 && total < limit-10000; q++ {
			n := lens[r.Intn(len(lens))]
			if r.Intn(2) == 0 {
				n = r.Intn(40)
			}
			if total+n > len(ref) {
				break
			}
			back := make([]byte, n+64)
			mask := r.Intn(2) == 0
			if mask {
				r.Read(back)
			}
			was := append([]byte{}, back...)
			buf := back[32 : 32+n : 32+n+r.Intn(30)]
			var k int
			var err error
			arg := []interface{}{"keyiv", ki, "sizes", fmt.Sprint(append(sizes, n))}
			p, hang := vCall(20*time.Second, func() { k, err = g.Read(buf) })
			if p != nil || hang || k != n || err != nil {
				vFail(fmt.Sprintf("Read returns %d, %v; panic %v hang %v", k, err, p, hang), arg...)
			}
			for i := range back {
				want := was[i]
				if i >= 32 && i < 32+n {
					want ^= ref[total+i-32]
				}
				if back[i] != want {
					vFail(fmt.Sprintf("byte %d of the last read is not keystream byte %d", i-32, total+i-32), arg...)
				}
			}
			total += n
			sizes = append(sizes, n)
			if r.Intn(12) == 0 {
				m := r.Intn(256)
				g.Perm(byte(m))
				total += m
				sizes = append(sizes, -m)
			}
		}
	}
	// fresh generators differ
	seen := map[string]bool{}
	for i := 0; i < 300; i++ {
		g := NewCSPRNG()
		b := make([]byte, 16)
		g.Read(b)
		c := make([]byte, 16)
		g.Read(c)
		if seen[string(b)] || seen[string(c)] || bytes.Equal(b, c) {
			vFail("two generators, or two reads, deliver the same bytes", "bytes", b)
		}
		seen[string(b)], seen[string(c)] = true, true
	}
}

func TestV_C12(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	for it := 0; time.Now().Before(end); it++ {
		ki := make([]byte, 32)
		r.Read(ki)
		g := NewCSPRNGWithKeyIV(ki)
		for n := 0; n < 256; n++ {
			arg := []interface{}{"keyiv", ki, "n", n}
			var b []byte
			p, hang := vCall(10*time.Second, func() { b = g.Perm(byte(n)) })
			if p != nil || hang {
				vFail(fmt.Sprintf("Perm: panic %v hang %v", p, hang), arg...)
			}
			var s [256]bool
			for _, x := range b {
				if int(x) >= n || s[x] {
					vFail("Perm is not a permutation", append(arg, "got", b)...)
				}
				s[x] = true
			}
			if len(b) != n {
				vFail("Perm length", append(arg, "got", b)...)
			}
			reps := 1
			if n < 40 {
				reps = 30
			}
			for q := 0; q < reps; q++ {
				p, hang = vCall(10*time.Second, func() { b = g.GetUniqueBytes(byte(n)) })
				if p != nil || hang {
					vFail(fmt.Sprintf("GetUniqueBytes: panic %v hang %v", p, hang), arg...)
				}
				var u [256]bool
				u[255] = true
				for _, x := range b {
					if u[x] {
						vFail("GetUniqueBytes: duplicate or 255", append(arg, "got", b)...)
					}
					u[x] = true
				}
				if len(b) != n {
					vFail("GetUniqueBytes length", append(arg, "got", b)...)
				}
			}
		}
	}
}
