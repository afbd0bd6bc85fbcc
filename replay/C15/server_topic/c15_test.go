package topic

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

type verifDelivery struct {
	sub int
	f   *frame.Frame
	ok  bool
}
type verifSub struct {
	n    int
	log  *[]verifDelivery
	same func(f *frame.Frame) bool
}

func (s *verifSub) SendTopicFrame(f *frame.Frame) {
	ok := s.same(f)
	*s.log = append(*s.log, verifDelivery{s.n, f, ok})
	// a subscription puts its own id in the header
	f.Header.Set("subscription", fmt.Sprint(s.n))
}

// Random histories of a topic against the list of its subscriptions.
func TestVerifReplayC15(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	for round := 0; round < 8000; round++ {
		log := ""
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					fail("panic %v", p)
				}
			}()
			m := NewManager()
			top := m.Find("/topic/a")
			if m.Find("/topic/b") == top || m.Find("/topic/a") != top {
				fail("topics are mixed up")
			}
			var got []verifDelivery
			var orig *frame.Frame
			same := func(f *frame.Frame) bool {
				if f == nil || f.Command != orig.Command || !bytes.Equal(f.Body, orig.Body) || f.Header.Len() != orig.Header.Len() {
					return false
				}
				for i := 0; i < f.Header.Len(); i++ {
					k, v := f.Header.GetAt(i)
					k2, v2 := orig.Header.GetAt(i)
					if k != k2 || v != v2 {
						return false
					}
				}
				return true
			}
			var subs []*verifSub
			for i := 0; i < 4; i++ {
				subs = append(subs, &verifSub{i, &got, same})
			}
			var cur []*verifSub
			for step := 0; step < 20; step++ {
				switch rnd.Intn(4) {
				case 0:
					s := subs[rnd.Intn(len(subs))]
					has := false
					for _, c := range cur {
						has = has || c == s
					}
					if has {
						continue
					}
					log += fmt.Sprintf(" Subscribe(%d)", s.n)
					top.Subscribe(s)
					cur = append(cur, s)
				case 1:
					s := subs[rnd.Intn(len(subs))]
					log += fmt.Sprintf(" Unsubscribe(%d)", s.n)
					top.Unsubscribe(s)
					for i, c := range cur {
						if c == s {
							cur = append(append([]*verifSub{}, cur[:i]...), cur[i+1:]...)
							break
						}
					}
				default:
					f := frame.New(frame.MESSAGE, "destination", "/topic/a", "step", fmt.Sprint(step))
					switch rnd.Intn(3) {
					case 0:
						f.Body = []byte(fmt.Sprint("body", step))
					case 1:
						f.Body = []byte{}
					}
					orig = f.Clone()
					got = nil
					log += " Enqueue"
					top.Enqueue(f)
					if len(got) != len(cur) {
						fail("%d deliveries to %d subscriptions", len(got), len(cur))
					}
					for i, d := range got {
						if d.sub != cur[i].n {
							fail("delivery %d went to subscription %d", i, d.sub)
						}
						if !d.ok {
							fail("subscription %d got another message", d.sub)
						}
						if v := d.f.Header.Get("subscription"); v != fmt.Sprint(d.sub) {
							fail("header of subscription %d is shared", d.sub)
						}
						for _, e := range got[:i] {
							if e.f == d.f || e.f.Header == d.f.Header {
								fail("frame shared")
							}
						}
					}
					for i, d := range got {
						for j := range d.f.Body {
							d.f.Body[j] = byte(i + 1)
						}
					}
					for i, d := range got {
						for j := range d.f.Body {
							if d.f.Body[j] != byte(i+1) {
								fail("body shared")
							}
						}
					}
				}
			}
		}()
	}
}
