package server

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server/client"
)

type verifListener struct{}

func (verifListener) Accept() (net.Conn, error) { return nil, errors.New("closed") }
func (verifListener) Close() error              { return nil }
func (verifListener) Addr() net.Addr            { return &net.TCPAddr{} }

type verifStore struct {
	log   []string
	lists map[string][]*frame.Frame
}

func (s *verifStore) Enqueue(q string, f *frame.Frame) error {
	s.log = append(s.log, fmt.Sprintf("E %q", q))
	s.lists[q] = append(s.lists[q], f)
	return nil
}
func (s *verifStore) Requeue(q string, f *frame.Frame) error {
	s.log = append(s.log, fmt.Sprintf("R %q", q))
	s.lists[q] = append([]*frame.Frame{f}, s.lists[q]...)
	return nil
}
func (s *verifStore) Dequeue(q string) (*frame.Frame, error) {
	l := s.lists[q]
	if len(l) == 0 {
		return nil, nil
	}
	s.lists[q] = l[1:]
	return l[0], nil
}
func (s *verifStore) Start() {}
func (s *verifStore) Stop()  {}

// Random histories of requests against queues and topics modelled by name.
func TestVerifReplayC16(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	dests := []string{"/queue/a", "/queue/b", "/queue", "/queue/a/", "/queueing", "/topic/a", "/topic/b", "/QUEUE/a", "queue/a", "", "/queu", " /queue/a", "/topic/queue", "/topic/queue/a", "/topic/a "}
	for round := 0; round < 600; round++ {
		log := ""
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
		}
		store := &verifStore{lists: map[string][]*frame.Frame{}}
		proc := newRequestProcessor(&Server{QueueStorage: store})
		proc.ch = make(chan client.Request)
		pan := make(chan interface{}, 1)
		go func() {
			defer func() { pan <- recover() }()
			proc.Serve(verifListener{})
		}()
		send := func(r client.Request) {
			for i := 0; i < 2; i++ { // the second request is taken when the first one is done
				select {
				case proc.ch <- r:
				case p := <-pan:
					fail("panic: %v", p)
				case <-time.After(20 * time.Second):
					fail("the processor does not take requests")
				}
				r = client.Request{Op: client.ConnectedOp}
			}
		}
		type S struct {
			s       *client.Subscription
			q       chan *client.Subscription
			w       chan *frame.Frame
			n       int
			dest    string
			waiting bool
			busy    bool
			topic   bool
		}
		var subs []*S
		waiting := map[string][]*S{}
		stored := map[string][]*frame.Frame{}
		topics := map[string][]*S{}
		sub := func(d string) *S {
			s, q, w := client.VerifSub(d, fmt.Sprint(len(subs)), "client")
			x := &S{s: s, q: q, w: w, n: len(subs), dest: d}
			subs = append(subs, x)
			return x
		}
		isq := func(d string) bool { return strings.HasPrefix(d, "/queue") }
		var expect map[*S]*frame.Frame
		body := func(f *frame.Frame) string {
			if f == nil {
				return "nothing"
			}
			return string(f.Body)
		}
		check := func() {
			for _, s := range subs {
				var got *frame.Frame
				select {
				case g := <-s.q:
					if g != s.s {
						fail("wrong subscription given to the connection")
					}
					got = client.VerifFrame(g)
				case got = <-s.w:
				default:
				}
				want := expect[s]
				if body(got) != body(want) {
					fail("subscription %d to %q got %s, want %s", s.n, s.dest, body(got), body(want))
				}
			}
			for _, d := range dests {
				if len(store.lists[d]) != len(stored[d]) {
					fail("%d messages stored under %q, want %d", len(store.lists[d]), d, len(stored[d]))
				}
				for i, f := range stored[d] {
					if store.lists[d][i] != f {
						fail("wrong message stored under %q", d)
					}
				}
			}
			expect = map[*S]*frame.Frame{}
		}
		for step := 0; step < 60; step++ {
			d := dests[rnd.Intn(len(dests))]
			if rnd.Intn(2) == 0 {
				d = dests[rnd.Intn(3)]
			}
			expect = map[*S]*frame.Frame{}
			switch rnd.Intn(5) {
			case 0:
				s := sub(d)
				log += fmt.Sprintf(" sub%d(%q)", s.n, d)
				send(client.Request{Op: client.SubscribeOp, Sub: s.s})
				if !isq(d) {
					topics[d] = append(topics[d], s)
				} else if len(stored[d]) > 0 {
					expect[s] = stored[d][0]
					stored[d] = stored[d][1:]
				} else {
					waiting[d] = append(waiting[d], s)
				}
			case 1:
				if len(subs) == 0 {
					continue
				}
				s := subs[rnd.Intn(len(subs))]
				log += fmt.Sprintf(" unsub%d(%q)", s.n, s.dest)
				send(client.Request{Op: client.UnsubscribeOp, Sub: s.s})
				for _, m := range []map[string][]*S{waiting, topics} {
					l := m[s.dest]
					for i, x := range l {
						if x == s {
							m[s.dest] = append(append([]*S{}, l[:i]...), l[i+1:]...)
							break
						}
					}
				}
			default:
				op := client.EnqueueOp
				if rnd.Intn(3) == 0 {
					op = client.RequeueOp
				}
				f := frame.New(frame.MESSAGE, frame.Destination, d)
				f.Body = []byte(fmt.Sprint("m", step))
				log += fmt.Sprintf(" op%v(%q,m%d)", op, d, step)
				send(client.Request{Op: op, Frame: f})
				switch {
				case !isq(d):
					if op == client.EnqueueOp {
						for _, s := range topics[d] {
							expect[s] = f
						}
					}
				case len(waiting[d]) > 0:
					expect[waiting[d][0]] = f
					waiting[d] = waiting[d][1:]
				case op == client.EnqueueOp:
					stored[d] = append(stored[d], f)
				default:
					stored[d] = append([]*frame.Frame{f}, stored[d]...)
				}
			}
			check()
		}
	}
	// the default store
	for _, srv := range []*Server{{}, {QueueStorage: nil}} {
		p := newRequestProcessor(srv)
		q := p.qm.Find("/queue/x")
		if q != p.qm.Find("/queue/x") || q == p.qm.Find("/queue/y") {
			t.Fatalf("FAILING INPUT: queues are not found by name")
		}
		tp := p.tm.Find("/topic/x")
		if tp != p.tm.Find("/topic/x") || tp == p.tm.Find("/topic/y") {
			t.Fatalf("FAILING INPUT: topics are not found by name")
		}
		f := frame.New(frame.MESSAGE, frame.Destination, "/queue/x")
		if err := q.Enqueue(f); err != nil {
			t.Fatalf("FAILING INPUT: enqueue: %v", err)
		}
	}
}
