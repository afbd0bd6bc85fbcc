package stomp

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

// Random events on a client connection next to a model of what it has to do.

type vSub struct {
	s      *Subscription
	name   string // the id that MESSAGE frames use
	reply  bool
	mu     sync.Mutex
	got    []*Message
	closed bool
	want   []string // texts of the messages expected
	final  int      // 0: open, 1: closes silently, 2: closes after one error, 3: reply queue cancelled
	kv     [][]string
	unsub  *vCall
}

type vCall struct {
	id   string
	done chan error
	err  error
	fin  bool
}

func (s *vSub) collect() {
	for m := range s.s.C {
		s.mu.Lock()
		s.got = append(s.got, m)
		s.mu.Unlock()
	}
	s.mu.Lock()
	s.closed = true
	s.mu.Unlock()
}

func vSim(t *testing.T, runs int) {
	rnd := vRand()
	for run := 0; run < runs; run++ {
		c, p := vDial(t, "1.2", ConnOpt.MsgSendTimeout(0), ConnOpt.RcvReceiptTimeout(0), ConnOpt.UnsubscribeReceiptTimeout(0))
		p.setAnswer(nil)
		log := ""
		fail := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("FAILING INPUT:%s: %s", log, fmt.Sprintf(f, a...))
		}
		var subs []*vSub
		var calls []*vCall
		n := 0
		seq := 0
		tx := c.Begin()
		n++
		// a frame must be written now
		expect := func(cmd string) *frame.Frame {
			n++
			if !p.waitFrames(n) {
				fail("no %s frame is written", cmd)
			}
			f := p.frame(n - 1)
			if f.Command != cmd {
				fail("a %s frame is written instead of %s", f.Command, cmd)
			}
			return f
		}
		subscribe := func(id string, reply bool) *vSub {
			v := &vSub{name: id, reply: reply}
			var opts []func(*frame.Frame) error
			if reply {
				opts = append(opts, SubscribeOpt.Header(ReplyToHeader, id))
			} else if id != "" {
				opts = append(opts, SubscribeOpt.Id(id))
			}
			var err error
			if !vWithin(func() { v.s, err = c.Subscribe("/queue/a", AckMode(rnd.Intn(3)), opts...) }) {
				fail("Subscribe does not return")
			}
			if err != nil {
				fail("Subscribe fails: %v", err)
			}
			if v.name == "" {
				v.name = v.s.Id()
			}
			if v.s.Id() != v.name || v.s.Destination() != "/queue/a" || !v.s.Active() {
				fail("the subscription is called %q, destination %q, active %v", v.s.Id(), v.s.Destination(), v.s.Active())
			}
			if !reply {
				f := expect("SUBSCRIBE")
				if vGet(f, "id") != v.name {
					fail("the SUBSCRIBE frame says %q", vGet(f, "id"))
				}
			}
			go v.collect()
			subs = append(subs, v)
			return v
		}
		log += " subscribe sync"
		sync := subscribe("sync", false)
		barrier := func() {
			seq++
			b := fmt.Sprintf("sync%d", seq)
			p.out <- vText("MESSAGE", b, "subscription", "sync", "message-id", "0", "destination", "/queue/a")
			sync.want = append(sync.want, b)
			sync.kv = append(sync.kv, nil)
			if !vSoon(func() bool { sync.mu.Lock(); defer sync.mu.Unlock(); return len(sync.got) >= len(sync.want) }) {
				fail("a MESSAGE for the subscription sync does not arrive any more")
			}
		}
		check := func() {
			for _, v := range subs {
				v := v
				w := len(v.want)
				if v.final >= 2 {
					w++
				}
				vSoon(func() bool {
					v.mu.Lock()
					defer v.mu.Unlock()
					return len(v.got) >= w && v.closed == (v.final != 0)
				})
				v.mu.Lock()
				var g []string
				for i, m := range v.got {
					if m == nil {
						fail("subscription %q got a nil message", v.name)
					}
					if m.Err != nil {
						g = append(g, "error: "+m.Err.Error())
						continue
					}
					g = append(g, string(m.Body))
					if m.Conn != c || m.Subscription != v.s {
						fail("a message of subscription %q has connection %p and subscription %p", v.name, m.Conn, m.Subscription)
					}
					if i < len(v.kv) && v.kv[i] != nil {
						if d, _ := vVal(v.kv[i], "destination"); m.Destination != d {
							fail("a message for the destination %q says %q", d, m.Destination)
						}
						if d, _ := vVal(v.kv[i], "content-type"); m.ContentType != d {
							fail("a message with content type %q says %q", d, m.ContentType)
						}
						if d := vSame(&frame.Frame{Command: "MESSAGE", Header: m.Header}, "MESSAGE", "", v.kv[i]); d != "" {
							fail("%s", d)
						}
					}
				}
				want := strings.Join(v.want, ",")
				got := strings.Join(g, ",")
				if v.final >= 2 {
					if len(g) != len(v.want)+1 || v.got[len(v.got)-1].Err == nil || strings.Join(g[:len(g)-1], ",") != want {
						fail("subscription %q got [%s] instead of [%s] and an error", v.name, got, want)
					}
				} else if got != want {
					fail("subscription %q got [%s] instead of [%s]", v.name, got, want)
				}
				if v.closed != (v.final != 0) {
					fail("the channel of subscription %q is closed: %v", v.name, v.closed)
				}
				v.mu.Unlock()
				if v.s.Active() != (v.final == 0 && v.unsub == nil) {
					fail("subscription %q is active: %v", v.name, v.s.Active())
				}
			}
		}
		finished := func(k *vCall) (error, bool) {
			if !k.fin {
				select {
				case k.err = <-k.done:
					k.fin = true
				default:
				}
			}
			return k.err, k.fin
		}
		steps := 4 + rnd.Intn(20)
		for i := 0; i < steps; i++ {
			switch k := rnd.Intn(14); k {
			case 0:
				if len(subs) < 5 {
					id := fmt.Sprintf("s%d", len(subs))
					if rnd.Intn(3) == 0 {
						id = ""
					}
					log += " subscribe " + id
					subscribe(id, false)
				}
			case 1:
				if len(subs) < 5 {
					id := fmt.Sprintf("r%d", len(subs))
					log += " subscribe reply-to " + id
					subscribe(id, true)
					barrier()
				}
			case 2, 3, 4, 5:
				id := []string{"nobody", "", "s"}[rnd.Intn(3)]
				var v *vSub
				if rnd.Intn(5) > 0 {
					v = subs[rnd.Intn(len(subs))]
					id = v.name
				}
				seq++
				b := fmt.Sprintf("m%d", seq)
				kv := []string{"message-id", fmt.Sprint(seq), "destination", fmt.Sprintf("/d%d", rnd.Intn(3))}
				if id != "" {
					kv = append(kv, "subscription", id)
				}
				if rnd.Intn(3) == 0 {
					kv = append(kv, "content-type", "text/x")
				}
				if rnd.Intn(4) == 0 {
					kv = append(kv, "receipt-id", "1", "k:\n", "v\\")
				}
				log += fmt.Sprintf(" MESSAGE(%q)", id)
				p.out <- vText("MESSAGE", b, kv...)
				if v != nil && v.final == 0 {
					v.want = append(v.want, b)
					v.kv = append(v.kv, kv)
				}
			case 6:
				log += " send-with-receipt"
				k := &vCall{done: make(chan error, 1)}
				go func() { k.done <- tx.Send("/q", "", []byte("x"), SendOpt.Receipt) }()
				k.id = vGet(expect("SEND"), "receipt")
				calls = append(calls, k)
			case 7, 8:
				id := "unknown"
				var k *vCall
				if len(calls) > 0 && rnd.Intn(5) > 0 {
					k = calls[rnd.Intn(len(calls))]
					id = k.id
				}
				log += fmt.Sprintf(" RECEIPT(%q)", id)
				p.out <- vText("RECEIPT", "", "receipt-id", id)
				if k != nil {
					if !vSoon(func() bool { _, f := finished(k); return f }) {
						fail("the call that asked for this receipt does not return")
					}
					if k.err != nil {
						fail("the call that asked for this receipt returns %v", k.err)
					}
				}
			case 9:
				log += " heart-beat"
				p.out <- "\n"
			case 10:
				log += " send"
				seq++
				if err := c.Send("/q", "", []byte(fmt.Sprint(seq))); err != nil {
					fail("it fails: %v", err)
				}
				if f := expect("SEND"); string(f.Body) != fmt.Sprint(seq) {
					fail("the frames are not written in order")
				}
			case 11:
				log += " CONNECTED"
				p.out <- vText("CONNECTED", "", "subscription", "sync", "receipt-id", "1")
			case 12, 13:
				v := subs[rnd.Intn(len(subs))]
				if v == sync {
					continue
				}
				if v.unsub != nil || v.final != 0 {
					log += " unsubscribe again " + v.name
					if err := v.s.Unsubscribe(); err != ErrCompletedSubscription {
						fail("it returns %v", err)
					}
					if m, err := v.s.Read(); m != nil || err != ErrCompletedSubscription {
						fail("Read returns %v, %v", m, err)
					}
					continue
				}
				log += " unsubscribe " + v.name
				check() // nothing is on its way
				u := &vCall{done: make(chan error, 1)}
				v.unsub = u
				go func() { u.done <- v.s.Unsubscribe(SubscribeOpt.Header("x", "y")) }()
				if v.reply {
					v.final = 3
				} else {
					f := expect("UNSUBSCRIBE")
					kv := []string{"id", v.name, "x", "y", "receipt", v.name}
					if d := vSame(f, "UNSUBSCRIBE", "", kv); d != "" {
						fail("%s", d)
					}
					if v.s.Active() {
						fail("the subscription is still active")
					}
					if err := v.s.Unsubscribe(); err != ErrCompletedSubscription {
						fail("a second Unsubscribe returns %v", err)
					}
					if _, fin := finished(u); fin {
						fail("Unsubscribe returns %v before the server confirms", u.err)
					}
					if rnd.Intn(2) == 0 {
						seq++
						b := fmt.Sprintf("m%d", seq)
						log += " MESSAGE(it)"
						p.out <- vText("MESSAGE", b, "subscription", v.name)
						v.want = append(v.want, b)
						v.kv = append(v.kv, []string{"subscription", v.name})
					}
					log += " RECEIPT(it)"
					p.out <- vText("RECEIPT", "", "receipt-id", v.name)
					v.final = 1
				}
				if !vSoon(func() bool { _, f := finished(u); return f }) {
					fail("Unsubscribe does not return")
				}
				if u.err != nil {
					fail("Unsubscribe returns %v", u.err)
				}
			}
			if rnd.Intn(3) == 0 {
				barrier()
				check()
				for _, k := range calls {
					if k.fin {
						continue
					}
					if _, fin := finished(k); fin {
						fail("the call that asked for receipt %q returned %v without one", k.id, k.err)
					}
				}
			}
			if p.closed() > 0 {
				fail("the connection was closed")
			}
		}
		barrier()
		check()
		if p.n() != n {
			fail("%d frames were written, %d expected", p.n(), n)
		}
		// the end, perhaps while a subscription waits to be confirmed
		for _, v := range subs {
			if v.final == 0 && v != sync && !v.reply && v.unsub == nil && rnd.Intn(3) == 0 {
				v := v
				log += " unsubscribe " + v.name
				u := &vCall{done: make(chan error, 1)}
				v.unsub = u
				go func() { u.done <- v.s.Unsubscribe() }()
				expect("UNSUBSCRIBE")
			}
		}
		switch rnd.Intn(4) {
		case 0:
			log += " ERROR"
			p.out <- vText("ERROR", "the body", "message", "gone", "receipt-id", "x")
			for _, v := range subs {
				if v.final == 0 {
					vSoon(func() bool { v.mu.Lock(); defer v.mu.Unlock(); return v.closed })
					v.mu.Lock()
					if len(v.got) == len(v.want)+1 {
						m := v.got[len(v.got)-1]
						if m.Err == nil || m.Err.Error() != "gone" || string(m.Body) != "the body" || m.Subscription != v.s {
							fail("subscription %q gets %+v", v.name, m)
						}
						if e, ok := m.Err.(*Error); !ok || e.Frame == nil || e.Frame.Command != "ERROR" {
							fail("the error for subscription %q does not hold the frame", v.name)
						}
					}
					v.mu.Unlock()
				}
			}
		case 1:
			log += " connection lost"
			p.out <- "CLOSE"
		case 2:
			log += " RECEIPT without id"
			p.out <- vText("RECEIPT", "", "id", "x")
		case 3:
			log += " nothing can be written"
			p.mu.Lock()
			p.failWrite = true
			p.mu.Unlock()
			c.Send("/q", "", nil)
		}
		for _, v := range subs {
			if v.final == 0 {
				v.final = 2
			}
		}
		for _, k := range calls {
			k := k
			if k.fin {
				continue
			}
			if !vSoon(func() bool { _, f := finished(k); return f }) {
				fail("a call that waits for a receipt does not return")
			}
			if k.err == nil {
				fail("a call that waits for a receipt returns no error")
			}
		}
		check()
		if !vSoon(func() bool { return p.closed() > 0 }) {
			fail("the network connection is not closed")
		}
		var err error
		if !vWithin(func() { err = c.Send("/q", "", nil) }) || err == nil {
			fail("a later Send: %v", err)
		}
	}
	_ = time.Second
}
