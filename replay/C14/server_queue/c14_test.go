package queue

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server/client"
)

// Random histories of one queue against lists of waiting subscriptions and stored messages.
func TestVerifReplayC14(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	for round := 0; round < 8000; round++ {
		log := ""
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					fail("panic %v", p)
				}
			}()
			st := NewMemoryQueueStorage()
			m := NewManager(st)
			other := m.Find("/queue/other")
			q := m.Find("/queue/q")
			if q == other || m.Find("/queue/q") != q {
				fail("queues are mixed up")
			}
			type S struct {
				s     *client.Subscription
				ch    chan *client.Subscription
				state int // 0 idle 1 waiting 2 has a message
				n     int
			}
			var subs []*S
			for i := 0; i < 4; i++ {
				s, ch, _ := client.VerifSub("/queue/q", fmt.Sprint("id", i%3), []string{"auto", "client", "client-individual"}[rnd.Intn(3)])
				subs = append(subs, &S{s: s, ch: ch, n: i})
			}
			var waiting []*S
			var stored []*frame.Frame
			check := func() {
				for _, s := range subs {
					select {
					case got := <-s.ch:
						if got != s.s {
							fail("wrong subscription handed to the connection")
						}
						fail("subscription %d given a message unexpectedly", s.n)
					default:
					}
				}
			}
			expect := func(s *S, f *frame.Frame) {
				select {
				case got := <-s.ch:
					if got != s.s || client.VerifFrame(got) != f {
						fail("wrong message or subscription delivered to %d", s.n)
					}
				default:
					fail("nothing delivered to subscription %d", s.n)
				}
				s.state = 2
				client.VerifSetMsgId(s.s, uint64(rnd.Intn(9)))
				check()
			}
			n := 0
			for step := 0; step < 40; step++ {
				switch rnd.Intn(6) {
				case 0, 1, 2:
					n++
					f := frame.New(frame.MESSAGE, frame.Destination, "/queue/q", "n", fmt.Sprint(n))
					back := rnd.Intn(3) != 0
					if back {
						log += fmt.Sprintf(" Enqueue(%d)", n)
						if err := q.Enqueue(f); err != nil {
							fail("error %v", err)
						}
					} else {
						log += fmt.Sprintf(" Requeue(%d)", n)
						if err := q.Requeue(f); err != nil {
							fail("error %v", err)
						}
					}
					if len(waiting) > 0 {
						s := waiting[0]
						waiting = waiting[1:]
						expect(s, f)
					} else if back {
						stored = append(stored, f)
					} else {
						stored = append([]*frame.Frame{f}, stored...)
					}
				case 3, 4:
					s := subs[rnd.Intn(len(subs))]
					if s.state == 1 {
						continue
					}
					client.VerifSetFrame(s.s, nil)
					log += fmt.Sprintf(" Subscribe(%d)", s.n)
					if err := q.Subscribe(s.s); err != nil {
						fail("error %v", err)
					}
					if len(stored) > 0 {
						f := stored[0]
						stored = stored[1:]
						expect(s, f)
					} else {
						s.state = 1
						waiting = append(waiting, s)
					}
				case 5:
					s := subs[rnd.Intn(len(subs))]
					log += fmt.Sprintf(" Unsubscribe(%d)", s.n)
					q.Unsubscribe(s.s)
					for i, w := range waiting {
						if w == s {
							waiting = append(append([]*S{}, waiting[:i]...), waiting[i+1:]...)
							s.state = 0
							break
						}
					}
				}
				check()
			}
			// what is stored comes back in order from the store
			for _, f := range stored {
				g, err := st.Dequeue("/queue/q")
				if err != nil || g != f {
					fail("stored messages differ")
				}
			}
			if g, _ := st.Dequeue("/queue/q"); g != nil {
				fail("message stored too often: %v", g)
			}
			if g, _ := st.Dequeue("/queue/other"); g != nil {
				fail("message stored under another destination: %v", g)
			}
		}()
	}
}
