//go:build amd64 && !noasm && !appengine && !gccgo

package galois

import "github.com/klauspost/cpuid/v2"

func vModes() []vMode {
	s3, s2, a2 := cpuid.CPU.Supports(cpuid.SSSE3), cpuid.CPU.Supports(cpuid.SSE2), cpuid.CPU.Supports(cpuid.AVX2)
	out := []vMode{}
	for i := 0; i < 8; i++ {
		x, y, z := i&1 == 0, i&2 == 0, i&4 == 0
		if x && !s3 || y && !s2 || z && !a2 {
			continue
		}
		out = append(out, vMode{map[bool]string{true: "SSSE3 "}[x] + map[bool]string{true: "SSE2 "}[y] + map[bool]string{true: "AVX2"}[z],
			func() { useSSSE3, useSSE2, useAVX2 = x, y, z }})
	}
	return out
}
