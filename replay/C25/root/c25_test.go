package stomp

import (
	"runtime"
	"strconv"
	"sync"
	"testing"
)

// Ids are non-empty decimal numbers and pairwise different, from any goroutine.
func TestVerifReplayC25(t *testing.T) {
	runtime.GOMAXPROCS(8)
	const G, N = 16, 60000
	out := make([][]string, G)
	var wg, start sync.WaitGroup
	start.Add(1)
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			ids := make([]string, 0, N)
			start.Wait()
			for i := 0; i < N; i++ {
				ids = append(ids, allocateId())
			}
			out[g] = ids
		}(g)
	}
	start.Done()
	wg.Wait()
	seen := make(map[string]int, G*N)
	for g, ids := range out {
		for i, id := range ids {
			if n, err := strconv.ParseUint(id, 10, 64); err != nil || strconv.FormatUint(n, 10) != id {
				t.Fatalf("FAILING INPUT: call %d of goroutine %d returned %q", i, g, id)
			}
			if h, dup := seen[id]; dup {
				t.Fatalf("FAILING INPUT: id %q returned to goroutines %d and %d (16 goroutines allocating concurrently)", id, h, g)
			}
			seen[id] = g
		}
	}
}

// The counter passes sizes of smaller integer types without repeating an id.
func TestVerifReplayC25Wide(t *testing.T) {
	seen := map[string]uint64{}
	for _, at := range []uint64{0, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 53, 1 << 62, 1 << 63} {
		_lastId = at
		for i := 0; i < 300; i++ {
			id := allocateId()
			if old, dup := seen[id]; dup {
				t.Fatalf("FAILING INPUT: with the counter at %d the id %q is returned again (first with the counter at %d)", at, id, old)
			}
			seen[id] = at
			if at < 1<<15 {
				break
			}
		}
	}
}
