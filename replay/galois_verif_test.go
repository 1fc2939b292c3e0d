package galois

import (
	"bytes"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

//COMMON

func TestV_C06(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			x, y := byte(a), byte(b)
			chk := func(nm string, got, want byte) {
				if got != want {
					vFail(nm, "a", a, "b", b, "got", got, "want", want)
				}
			}
			chk("GalAdd", GalAdd(x, y), x^y)
			chk("GalSub", GalSub(x, y), x^y)
			chk("GalMultiply", GalMultiply(x, y), vTab[a][b])
			chk("GalMultiplyLogExp", GalMultiplyLogExp(x, y), vTab[a][b])
			var q byte
			p, _ := vCall(5*time.Second, func() { q = GalDivide(x, y) })
			if (p != nil) != (b == 0 && a != 0) {
				vFail(fmt.Sprint("GalDivide panics: ", p), "a", a, "b", b)
			}
			if p == nil {
				chk("GalDivide", q, vTab[a][vInvT[b]])
			}
		}
	}
	exp := func(a byte, n int) byte {
		res := byte(1)
		b := a
		for n > 0 {
			if n&1 == 1 {
				res = vTab[res][b]
			}
			b = vTab[b][b]
			n >>= 1
		}
		return res
	}
	one := func(a, n int) {
		var q byte
		p, hang := vCall(5*time.Second, func() { q = GalExp(byte(a), n) })
		if p != nil || hang || q != exp(byte(a), n) {
			vFail(fmt.Sprintf("GalExp = %d, panic %v hang %v, want %d", q, p, hang, exp(byte(a), n)), "a", a, "n", n)
		}
	}
	ns := []int{1<<63 - 1, 1<<63 - 2, 1 << 62, 1<<62 + 1, 1 << 56, 1<<55 + 3, 1 << 32, 1<<31 - 1, 1 << 31, 1 << 16, 65535, 65536}
	for n := 0; n < 1200; n++ {
		ns = append(ns, n)
	}
	for k := uint(1); k < 63; k++ {
		ns = append(ns, 1<<k, 1<<k-1, 1<<k+1, (1<<63-1)/int(k), (1<<63-1)/255-int(k), (1<<63-1)/254+int(k))
	}
	for k := 0; k < 1000; k++ {
		ns = append(ns, int(r.Int63()), int(r.Int31()))
	}
	for a := 0; a < 256; a++ {
		for _, n := range ns {
			var q byte
			_ = q
			if GalExpSafe(byte(a), n) != exp(byte(a), n) {
				one(a, n)
				vFail("GalExp", "a", a, "n", n)
			}
		}
	}
}

func GalExpSafe(a byte, n int) (r byte) {
	defer func() {
		if p := recover(); p != nil {
			vFail(fmt.Sprint("GalExp panics: ", p), "a", a, "n", n)
		}
	}()
	return GalExp(a, n)
}

type vMode struct {
	name string
	set  func()
}

func TestV_C07(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	lens := []int{0}
	for n := 1; n <= 300; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, vLens(70000)...)
	for it := 0; time.Now().Before(end); it++ {
		for _, m := range vModes() {
			m.set()
			for _, n := range lens {
				if n > 600 && it%4 != 0 {
					continue
				}
				for _, c := range []int{0, 1, 2, 3, 128, 142, 255, r.Intn(256), r.Intn(256)} {
					vMulOne(r, m.name, byte(c), n)
				}
				vAddOne(r, m.name, n)
			}
			for c := 0; c < 256; c++ {
				vMulOne(r, m.name, byte(c), 320)
				vMulOne(r, m.name, byte(c), r.Intn(200))
			}
		}
	}
}

func vMulOne(r *mrand.Rand, mode string, c byte, n int) {
	for _, fn := range []string{"MulConstVector", "MulConstVectorGeneric"} {
		off := r.Intn(40)
		back := make([]byte, n+off+80)
		r.Read(back)
		if n >= 256 {
			for i := 0; i < 256; i++ {
				back[off+i] = byte(i)
			}
		}
		orig := append([]byte{}, back...)
		a := back[off : off+n : off+n+r.Intn(40)]
		var out []byte
		arg := []interface{}{"fn", fn, "cpu", mode, "c", c, "a", orig[off : off+n], "offset", off}
		p, hang := vCall(30*time.Second, func() {
			if fn == "MulConstVector" {
				out = MulConstVector(c, a)
			} else {
				out = MulConstVectorGeneric(c, a)
			}
		})
		if p != nil || hang {
			vFail(fmt.Sprintf("panic %v hang %v", p, hang), arg...)
		}
		if len(out) != n {
			vFail("result length", arg...)
		}
		for i := range out {
			if out[i] != vTab[c][orig[off+i]] {
				vFail(fmt.Sprintf("element %d is %d, not %d", i, out[i], vTab[c][orig[off+i]]), arg...)
			}
		}
		for i := range back {
			if (i < off || i >= off+n) && back[i] != orig[i] {
				vFail(fmt.Sprintf("byte %d outside the vector changed", i-off), arg...)
			}
		}
	}
}

func vAddOne(r *mrand.Rand, mode string, n int) {
	for _, fn := range []string{"AddVector", "AddVectorGeneric", "AddVectorBatchGeneric"} {
		oa, ob := r.Intn(40), r.Intn(40)
		A := make([]byte, n+oa+80)
		B := make([]byte, n+ob+80)
		r.Read(A)
		r.Read(B)
		alias := r.Intn(5) == 0
		if alias {
			A, oa = B, ob
		}
		a0, b0 := append([]byte{}, A...), append([]byte{}, B...)
		a := A[oa : oa+n]
		b := B[ob : ob+n]
		arg := []interface{}{"fn", fn, "cpu", mode, "a", a0[oa : oa+n], "b", b0[ob : ob+n], "same", alias}
		var out []byte
		p, hang := vCall(30*time.Second, func() {
			switch fn {
			case "AddVector":
				out = AddVector(a, b)
			case "AddVectorGeneric":
				out = AddVectorGeneric(a, b)
			default:
				out = AddVectorBatchGeneric(a, b)
			}
		})
		if p != nil || hang {
			vFail(fmt.Sprintf("panic %v hang %v", p, hang), arg...)
		}
		if len(out) != n {
			vFail("result length", arg...)
		}
		for i := range out {
			if out[i] != a0[oa+i]^b0[ob+i] {
				vFail(fmt.Sprintf("element %d is %d, not %d", i, out[i], a0[oa+i]^b0[ob+i]), arg...)
			}
		}
		for i := range B {
			if (i < ob || i >= ob+n) && B[i] != b0[i] {
				vFail(fmt.Sprintf("byte %d outside b changed", i-ob), arg...)
			}
		}
		if !alias && !bytes.Equal(A, a0) {
			vFail("a changed", arg...)
		}
	}
}
