package utils

import (
	"bytes"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

//COMMON

// a buffer belongs to one holder between Get and Put
func TestV_C13(t *testing.T) {
	r := mrand.New(mrand.NewSource(vSeed()))
	end := vDeadline()
	for time.Now().Before(end) {
		for _, size := range []int{-5, 0, 1, 2, 3, 7, 64} {
			p := NewBytesBufferPool(size)
			held := map[*bytes.Buffer]bool{}
			list := []*bytes.Buffer{}
			trace := []string{}
			for q := 0; q < 200; q++ {
				if len(list) == 0 || r.Intn(2) == 0 {
					var b *bytes.Buffer
					pa, hang := vCall(5*time.Second, func() { b = p.Get() })
					trace = append(trace, "Get")
					if pa != nil || hang || b == nil || held[b] {
						vFail(fmt.Sprintf("Get: panic %v hang %v nil %v, already held %v", pa, hang, b == nil, held[b]), "size", size, "ops", strings.Join(trace, " "))
					}
					held[b] = true
					list = append(list, b)
				} else {
					i := r.Intn(len(list))
					b := list[i]
					list = append(list[:i], list[i+1:]...)
					delete(held, b)
					pa, hang := vCall(5*time.Second, func() { p.Put(b) })
					trace = append(trace, "Put")
					if pa != nil || hang {
						vFail(fmt.Sprintf("Put: panic %v hang %v", pa, hang), "size", size, "ops", strings.Join(trace, " "))
					}
				}
			}
			var mu sync.Mutex
			owner := map[*bytes.Buffer]bool{}
			var wg sync.WaitGroup
			for w := 0; w < 8; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for q := 0; q < 200; q++ {
						b := p.Get()
						mu.Lock()
						if owner[b] {
							vFail("two concurrent holders of one buffer", "size", size)
						}
						owner[b] = true
						mu.Unlock()
						runtime.Gosched()
						mu.Lock()
						delete(owner, b)
						mu.Unlock()
						p.Put(b)
					}
				}()
			}
			wg.Wait()
		}
	}
}
