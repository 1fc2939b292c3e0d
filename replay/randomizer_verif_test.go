package randomizer

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

//COMMON

func TestV_C11(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	small := append(vLens(5000), 0)
	big := append(vBigLens(), vLens(400000)...)
	for it := 0; time.Now().Before(end); it++ {
		lens, limit := small, 50000
		if it%8 == 7 {
			lens, limit = big, 2000000
		}
		// the key comes from math/rand: replay it
		sd := r.Int63()
		mrand.Seed(sd)
		ki := make([]byte, 32)
		mrand.Read(ki)
		mrand.Seed(sd)
		g := NewRandomizer()
		b, _ := aes.NewCipher(ki[:16])
		ref := make([]byte, limit+10000)
		cipher.NewCTR(b, ki[16:]).XORKeyStream(ref, ref)
		first := make([]byte, 32)
		g.Read(first)
		total := 32
		known := bytes.Equal(first, ref[:32])
		if !known {
			// another key derivation: only continuity can be judged
			mrand.Seed(sd)
			h := NewRandomizer()
			h.Read(ref)
			if !bytes.Equal(first, ref[:32]) {
				continue
			}
		}
		sizes := []int{32}
		for q := 0; q < 30; q++ {
			n := lens[r.Intn(len(lens))]
			if r.Intn(2) == 0 {
				n = r.Intn(40)
			}
			if total+n > limit {
				break
			}
			back := make([]byte, n+64)
			if r.Intn(2) == 0 {
				r.Read(back)
			}
			was := append([]byte{}, back...)
			buf := back[32 : 32+n]
			arg := []interface{}{"seed", sd, "sizes", fmt.Sprint(append(sizes, n))}
			var k int
			var err error
			p, hang := vCall(20*time.Second, func() { k, err = g.Read(buf) })
			if p != nil || hang || k != n || err != nil {
				vFail(fmt.Sprintf("Read returns %d, %v; panic %v hang %v", k, err, p, hang), arg...)
			}
			for i := range back {
				want := was[i]
				if i >= 32 && i < 32+n {
					want ^= ref[total+i-32]
				}
				if back[i] != want {
					vFail(fmt.Sprintf("byte %d of the last read is not keystream byte %d", i-32, total+i-32), arg...)
				}
			}
			total += n
			sizes = append(sizes, n)
		}
	}
}

func TestV_C12(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	for time.Now().Before(end) {
		sd := r.Int63()
		mrand.Seed(sd)
		g := NewRandomizer()
		for n := 0; n < 256; n++ {
			var b []byte
			p, hang := vCall(10*time.Second, func() { b = g.Perm(byte(n)) })
			arg := []interface{}{"seed", sd, "n", n, "got", b}
			if p != nil || hang {
				vFail(fmt.Sprintf("Perm: panic %v hang %v", p, hang), arg...)
			}
			var s [256]bool
			for _, x := range b {
				if int(x) >= n || s[x] {
					vFail("Perm is not a permutation", arg...)
				}
				s[x] = true
			}
			if len(b) != n {
				vFail("Perm length", arg...)
			}
		}
	}
}
