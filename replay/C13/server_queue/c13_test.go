package queue

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

// Random histories of operations on the store against one list per destination.
func TestVerifReplayC13(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	dests := []string{"/queue/a", "/queue/b", "", "/queue/a ", "/topic/x"}
	for round := 0; round < 20000; round++ {
		dests := dests
		if round%50 == 0 {
			for i := 0; i < 40; i++ {
				dests = append(dests, fmt.Sprint("/queue/", i))
			}
		}
		steps := 6 + rnd.Intn(30)
		if round%50 == 0 {
			steps = 300
		}
		var st Storage = NewMemoryQueueStorage()
		if rnd.Intn(2) == 0 {
			st.Start()
		}
		want := map[string][]*frame.Frame{}
		log := ""
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					fail("panic %v", p)
				}
			}()
			n := 0
			for step := 0; step < steps; step++ {
				d := dests[rnd.Intn(len(dests))]
				switch rnd.Intn(5) {
				case 0, 1:
					n++
					f := frame.New(frame.MESSAGE, frame.Destination, d, "n", strconv.Itoa(n))
					log += fmt.Sprintf(" Enqueue(%q,%d)", d, n)
					if err := st.Enqueue(d, f); err != nil {
						fail("error %v", err)
					}
					want[d] = append(want[d], f)
				case 2:
					n++
					f := frame.New(frame.MESSAGE, frame.Destination, d, "n", strconv.Itoa(n))
					log += fmt.Sprintf(" Requeue(%q,%d)", d, n)
					if err := st.Requeue(d, f); err != nil {
						fail("error %v", err)
					}
					want[d] = append([]*frame.Frame{f}, want[d]...)
				default:
					log += fmt.Sprintf(" Dequeue(%q)", d)
					f, err := st.Dequeue(d)
					if err != nil {
						fail("error %v", err)
					}
					if len(want[d]) == 0 {
						if f != nil {
							fail("got a frame from an empty destination")
						}
						continue
					}
					if f != want[d][0] {
						fail("got %v, want %v", f, want[d][0])
					}
					want[d] = want[d][1:]
				}
			}
			for _, d := range dests {
				for {
					log += fmt.Sprintf(" Dequeue(%q)", d)
					f, err := st.Dequeue(d)
					if err != nil {
						fail("error %v", err)
					}
					if len(want[d]) == 0 {
						if f != nil {
							fail("got a frame from an empty destination")
						}
						break
					}
					if f != want[d][0] {
						fail("got %v, want %v", f, want[d][0])
					}
					want[d] = want[d][1:]
				}
			}
		}()
	}
}
