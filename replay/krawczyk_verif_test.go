package krawczyk

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/shamir"
	mrand "math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

//COMMON

type vSplit struct {
	name string
	f    func(s []byte, n, k int, g *csprng.CSPRNG) ([][]byte, error)
}

var vSplits = []vSplit{
	{"Split", func(s []byte, n, k int, g *csprng.CSPRNG) ([][]byte, error) { return Split(s, n, k) }},
	{"SplitWithRandomizer", SplitWithRandomizer},
}

func vGen(r *mrand.Rand) *csprng.CSPRNG {
	b := make([]byte, 32)
	r.Read(b)
	return csprng.NewCSPRNGWithKeyIV(b)
}

func vFormat(out [][]byte, n, parts, thr int, arg []interface{}) {
	if len(out) != parts {
		vFail(fmt.Sprintf("%d shares", len(out)), arg...)
	}
	L := 22 + (n+thr-1)/thr
	for i := range out {
		if len(out[i]) != L {
			vFail(fmt.Sprintf("share %d has %d bytes, not %d", i, len(out[i]), L), arg...)
		}
		if out[i][L-1] != byte(i) {
			vFail(fmt.Sprintf("share %d ends in %d", i, out[i][L-1]), arg...)
		}
	}
}

func vOne(r *mrand.Rand, sp vSplit, n, parts, thr int, g *csprng.CSPRNG, keys map[string]bool) {
	back := make([]byte, n+600)
	r.Read(back)
	copy(back[300:], vSecret(r, n))
	bcp := append([]byte{}, back...)
	secret := back[300 : 300+n : 300+n+r.Intn(300)]
	orig := append([]byte{}, secret...)
	var out [][]byte
	var err error
	arg := []interface{}{"fn", sp.name, "len", n, "parts", parts, "threshold", thr, "secret", orig}
	p, hang := vCall(60*time.Second, func() { out, err = sp.f(secret, parts, thr, g) })
	if p != nil || hang || err != nil {
		vFail(fmt.Sprintf("split of valid input: panic %v hang %v err %v", p, hang, err), arg...)
	}
	if !bytes.Equal(back, bcp) {
		vFail("split modified its input or memory around it", arg...)
	}
	vFormat(out, n, parts, thr, arg)
	if keys != nil {
		md := make([][]byte, parts)
		for i := range out {
			md[i] = append([]byte{}, out[i][:21]...)
		}
		m, err := shamir.Combine(md[:thr])
		if err != nil || len(m) != 20 || binary.LittleEndian.Uint32(m[16:]) != uint32(n) {
			vFail("the metadata does not hold the key and the length", append(arg, "metadata", m)...)
		}
		if keys[string(m[:16])] {
			vFail("a key is used twice", append(arg, "key", m[:16])...)
		}
		keys[string(m[:16])] = true
		// the data shards hold the OFB encryption under that key
		blk, _ := aes.NewCipher(m[:16])
		ct := make([]byte, n)
		cipher.NewOFB(blk, make([]byte, 16)).XORKeyStream(ct, orig)
		got := []byte{}
		for i := 0; i < thr; i++ {
			got = append(got, out[i][21:len(out[i])-1]...)
		}
		if !bytes.Equal(got[:n], ct) {
			vFail("the secret is not encrypted under the shared key", arg...)
		}
	}
	for _, m := range []int{thr, parts} {
		perm := r.Perm(parts)
		sub := make([][]byte, 0, parts)
		keep := map[int]bool{}
		for _, q := range perm[:m] {
			keep[q] = true
		}
		if r.Intn(2) == 0 {
			for _, q := range perm[:m] {
				sub = append(sub, out[q])
			}
		} else {
			// all positions, the missing ones nil
			for q := 0; q < parts; q++ {
				if keep[q] {
					sub = append(sub, out[q])
				} else {
					sub = append(sub, nil)
				}
			}
		}
		cp := vClone(sub)
		var got []byte
		p, hang := vCall(60*time.Second, func() { got, err = Combine(sub, parts, thr) })
		if p != nil || hang || err != nil || !bytes.Equal(got, orig) {
			vFail(fmt.Sprintf("Combine of %d shares does not return the secret: panic %v hang %v err %v", m, p, hang, err), append(arg, "given", cp, "got", got)...)
		}
		if !vSame(sub, cp) {
			vFail("Combine modified its input", append(arg, "given", cp)...)
		}
	}
}

func vRound(keys bool) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	g := vGen(r)
	lens := vLens(70000)
	var ks map[string]bool
	if keys {
		ks = map[string]bool{}
	}
	for it := 0; time.Now().Before(end); it++ {
		for _, sp := range vSplits {
			for _, pr := range vPairs() {
				vOne(r, sp, 1+r.Intn(600), pr[0], pr[1], g, ks)
				if time.Now().After(end) {
					return
				}
			}
			for _, n := range lens {
				if n > 3000 && it%3 != 0 {
					continue
				}
				k := 2 + r.Intn(6)
				vOne(r, sp, n, k+r.Intn(6), k, g, ks)
				if time.Now().After(end) {
					return
				}
			}
			for n := 1; n < 200; n++ {
				k := 2 + r.Intn(40)
				vOne(r, sp, n, k+r.Intn(40), k, g, ks)
			}
		}
	}
}

func TestV_C08(t *testing.T) { vRound(false) }

func TestV_C09(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	g := vGen(r)
	vals := []int{-1 << 63, -1<<63 + 1, -1 << 32, -65536, -257, -256, -255, -254, -2, -1, 0, 1, 2, 3, 4, 5, 19, 20, 21, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512, 65536, 1 << 32, 1<<32 + 2, 1<<63 - 1}
	secrets := [][]byte{nil, {}, {0}, {7}, {1, 2, 3}, make([]byte, 40)[:0], make([]byte, 128)}
	for _, sp := range vSplits {
		for _, a := range vals {
			for _, b := range vals {
				for _, s := range secrets {
					want := a < b || b < 2 || a > 255 || len(s) == 0
					var out [][]byte
					var err error
					arg := []interface{}{"fn", sp.name, "secret", s, "parts", a, "threshold", b}
					p, hang := vCall(20*time.Second, func() { out, err = sp.f(s, a, b, g) })
					if p != nil || hang {
						vFail(fmt.Sprintf("panic %v, hang %v", p, hang), arg...)
					}
					if want != (err != nil) {
						vFail(fmt.Sprintf("error %v", err), arg...)
					}
					if err != nil && out != nil {
						vFail("shares together with an error", arg...)
					}
					if err == nil {
						vFormat(out, len(s), a, b, arg)
					}
				}
			}
		}
		// every byte of the key is drawn: it varies from call to call, whatever the sizes
		for _, n := range append(vLens(300), 1+r.Intn(300), 1+r.Intn(300)) {
			for _, pr := range [][2]int{{3, 2}, {12, 7}, {131, 2}} {
				var varies [16]bool
				var first []byte
				for rep := 0; rep < 14; rep++ {
					out, err := sp.f(make([]byte, n), pr[0], pr[1], g)
					if err != nil {
						continue
					}
					md := [][]byte{}
					for i := range out[:pr[1]] {
						md = append(md, append([]byte{}, out[i][:21]...))
					}
					m, err := shamir.Combine(md)
					if err != nil || len(m) != 20 {
						continue
					}
					if rep == 0 {
						first = m
					}
					for i := range varies {
						varies[i] = varies[i] || m[i] != first[i]
					}
				}
				for i := range varies {
					if !varies[i] {
						vFail(fmt.Sprintf("byte %d of the key is the same in 14 calls", i), "fn", sp.name, "len", n, "parts", pr[0], "threshold", pr[1], "key", first[:16])
					}
				}
			}
		}
	}
	vRound(true)
}

func TestV_C10(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	old := os.Stdout
	null, _ := os.Open(os.DevNull)
	w, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	_ = null
	vals := []int{-1 << 63, -300, -2, -1, 0, 1, 2, 3, 4, 5, 6, 20, 21, 22, 23, 127, 128, 200, 254, 255, 256, 257, 300, 512, 1 << 32, 1<<63 - 1}
	for it := 0; time.Now().Before(end); it++ {
		thr := 2 + r.Intn(4)
		parts := thr + r.Intn(4)
		if it%20 == 0 {
			thr = 2 + r.Intn(254)
			parts = thr + r.Intn(256-thr)
		}
		n := 1 + r.Intn(60)
		secret := make([]byte, n)
		r.Read(secret)
		out, err := Split(secret, parts, thr)
		if err != nil {
			vFail("split fails", "parts", parts, "threshold", thr)
		}
		var in [][]byte
		valid := true
		for _, q := range r.Perm(parts)[:r.Intn(parts+1)] {
			in = append(in, out[q])
		}
		if len(in) < thr {
			valid = false
		}
		cp, ct := parts, thr
		for d := r.Intn(4); d > 0; d-- {
			if r.Intn(5) == 0 {
				cp, valid = vals[r.Intn(len(vals))], false
			}
			if r.Intn(5) == 0 {
				ct, valid = vals[r.Intn(len(vals))], false
			}
			if len(in) == 0 {
				switch r.Intn(5) {
				case 0:
					in = [][]byte{}
				case 1:
					in = [][]byte{nil}
				case 2:
					in = [][]byte{nil, nil, nil}
				case 3:
					in = [][]byte{{}, {1}}
				}
				valid = false
				continue
			}
			i := r.Intn(len(in))
			switch r.Intn(9) {
			case 0:
				in[i] = nil
				valid = false
			case 1:
				in[i] = []byte{}
				valid = false
			case 2:
				if len(in[i]) > 0 {
					in[i] = append([]byte{}, in[i][:r.Intn(len(in[i]))]...)
				}
				valid = false
			case 3:
				in[i] = append(append([]byte{}, in[i]...), byte(r.Intn(256)))
				valid = false
			case 4:
				if len(in[i]) > 0 {
					in[i] = append([]byte{}, in[i]...)
					in[i][len(in[i])-1] = byte(r.Intn(256))
				}
				valid = false
			case 5:
				if len(in[i]) > 0 {
					in[i] = append([]byte{}, in[i]...)
					in[i][r.Intn(len(in[i]))] ^= byte(1 + r.Intn(255))
				}
				valid = false
			case 6:
				in = append(in, in[i])
				valid = false
			case 7:
				for j := range in {
					if len(in[j]) > 0 {
						in[j] = append([]byte{}, in[j][:len(in[j])-1]...)
					}
				}
				valid = false
			case 8:
				for j := range in {
					in[j] = in[j][:len(in[j])*r.Intn(3)/2]
				}
				valid = false
			}
		}
		cpy := vClone(in)
		backs := make([][]byte, len(in))
		for i := range in {
			backs[i] = append([]byte{}, in[i][:cap(in[i])]...)
		}
		var got []byte
		arg := []interface{}{"fn", "Combine", "shares", cpy, "parts", cp, "threshold", ct}
		os.Stdout = w
		p, hang := vCall(30*time.Second, func() { got, err = Combine(in, cp, ct) })
		os.Stdout = old
		if p != nil || hang {
			vFail(fmt.Sprintf("panic %v hang %v", p, hang), arg...)
		}
		if !vSame(in, cpy) {
			vFail("Combine modified the shares", arg...)
		}
		for i := range in {
			if !bytes.Equal(backs[i], in[i][:cap(in[i])]) {
				vFail("Combine wrote past the end of a share", arg...)
			}
		}
		if err != nil && got != nil {
			vFail("data together with an error", arg...)
		}
		if valid && (err != nil || !bytes.Equal(got, secret)) {
			vFail(fmt.Sprintf("valid shares are not decoded: %v", err), arg...)
		}
		nn := 0
		for _, s := range cpy {
			if s != nil {
				nn++
			}
		}
		bad := nn < 2 || nn < ct || ct < 2 || cp < ct || cp > 255
		for _, s := range cpy {
			if s != nil && (len(s) < 23 || cp >= 0 && cp < 256 && int(s[len(s)-1]) >= cp) {
				bad = true
			}
		}
		if bad && err == nil {
			vFail("an undecodable share set yields data", append(arg, "got", got)...)
		}
	}
}

func TestV_C13(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	lens := vLens(9000)
	g := vGen(r)
	for it := 0; time.Now().Before(end); it++ {
		for _, sp := range vSplits {
			k := 2 + r.Intn(6)
			m := k + r.Intn(6)
			n := lens[r.Intn(len(lens))]
			back := make([]byte, n+600)
			r.Read(back)
			bcp := append([]byte{}, back...)
			secret := back[300 : 300+n : 300+n+r.Intn(300)]
			out, err := sp.f(secret, m, k, g)
			arg := []interface{}{"fn", sp.name, "len", n, "parts", m, "threshold", k}
			if err != nil {
				vFail("split fails", arg...)
			}
			if !bytes.Equal(back, bcp) {
				vFail("split modified its input or memory around it", arg...)
			}
			keep := vClone(out)
			for i := range secret {
				secret[i] ^= 0xff
			}
			sp.f(make([]byte, n), m, k, g)
			if !vSame(out, keep) {
				vFail("shares changed after the call", arg...)
			}
			v := r.Intn(m)
			full := out[v][:cap(out[v])]
			for i := range full {
				full[i] ^= 0x55
			}
			for i := range out {
				if i != v && !bytes.Equal(out[i], keep[i]) {
					vFail(fmt.Sprintf("writing to share %d (capacity included) changed share %d", v, i), arg...)
				}
			}
			// shares in one array, with spare capacity, as a caller may hold them
			L := len(keep[0])
			arr := make([]byte, m*(L+40))
			r.Read(arr)
			sub := [][]byte{}
			for _, q := range r.Perm(m)[:k] {
				b := arr[q*(L+40) : q*(L+40)+L : (q+1)*(L+40)]
				copy(b, keep[q])
				sub = append(sub, b)
			}
			acp := append([]byte{}, arr...)
			s1, err := Combine(sub, m, k)
			if err != nil {
				vFail("Combine fails", arg...)
			}
			if !bytes.Equal(arr, acp) {
				vFail("Combine modified the shares or the memory behind them", arg...)
			}
			c1 := append([]byte{}, s1...)
			for i := range arr {
				arr[i] = 9
			}
			Combine(vClone(keep), m, k)
			if !bytes.Equal(s1, c1) {
				vFail("the result of Combine changed later", arg...)
			}
		}
		if it%10 == 0 {
			var wg sync.WaitGroup
			for w := 0; w < 12; w++ {
				wg.Add(1)
				seed := r.Int63()
				go func() {
					defer wg.Done()
					r := mrand.New(mrand.NewSource(seed))
					g := vGen(r)
					for q := 0; q < 20; q++ {
						n := 1 + r.Intn(400)
						s := make([]byte, n)
						r.Read(s)
						out, err := vSplits[q%2].f(s, 4, 3, g)
						if err != nil {
							vFail("split fails")
						}
						runtime.Gosched()
						got, err := Combine(out[1:], 4, 3)
						if err != nil || !bytes.Equal(got, s) {
							vFail("concurrent calls disturb each other", "secret", s, "got", got)
						}
					}
				}()
			}
			wg.Wait()
		}
	}
}
