package stomp

import (
	"errors"
	"fmt"
	"strconv"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

// A random list of options against what it has to make of a list of entries.
func TestVerifReplayC18(t *testing.T) {
	rnd := vRand()
	c, p := vDial(t, "1.2", ConnOpt.MsgSendTimeout(0), ConnOpt.RcvReceiptTimeout(0))
	boom := errors.New("boom")
	receipts := map[string]bool{}
	texts := []string{"", "a", "/queue/x", "text/plain", "a:b\nc\\", "receipt", "k"}
	text := func() string { return texts[rnd.Intn(len(texts))] }
	n := 0
	for round := 0; round < 3000; round++ {
		dest, ct := text(), text()
		body := make([]byte, rnd.Intn(20))
		if rnd.Intn(50) == 0 {
			body = make([]byte, 100000)
		}
		rnd.Read(body)
		zeros := rnd.Intn(2) == 0
		for i := range body {
			if body[i] == 0 && !zeros {
				body[i] = 1 // without a content-length, a zero byte ends the frame
			}
		}
		if rnd.Intn(8) == 0 {
			body = nil
		}
		keep := string(body)
		sub := rnd.Intn(5) == 0
		tx := !sub && rnd.Intn(4) == 0
		var kv []string
		cmd := "SEND"
		mode := AckMode(rnd.Intn(3))
		if sub {
			cmd = "SUBSCRIBE"
			kv = []string{"destination", dest, "ack", []string{"auto", "client", "client-individual"}[mode]}
		} else {
			kv = []string{"content-length", strconv.Itoa(len(body)), "destination", dest}
			if ct != "" {
				kv = append(kv, "content-type", ct)
			}
		}
		log := fmt.Sprintf("%s to %q, content type %q, %d bytes, transaction %v, options", cmd, dest, ct, len(body), tx)
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
		}
		var opts []func(*frame.Frame) error
		var want error
		anyReceipt := false
		set := func(o func(*frame.Frame) error, l string, eff func()) {
			log += " " + l
			opts = append(opts, o)
			if want == nil && eff != nil {
				eff()
			}
		}
		for i := rnd.Intn(5); i > 0; i-- {
			k, v := fmt.Sprintf("k%d", rnd.Intn(3)), text()
			if rnd.Intn(8) == 0 && !sub {
				k = "destination"
			}
			switch rnd.Intn(9) {
			case 0:
				set(nil, "nil", func() {})
			case 1:
				set(SendOpt.Receipt, "Receipt", func() {
					if sub {
						want = ErrInvalidCommand
						return
					}
					anyReceipt = true
					kv = vSet(kv, "receipt", "?")
				})
			case 2:
				if zeros {
					break
				}
				set(SendOpt.NoContentLength, "NoContentLength", func() {
					if sub {
						want = ErrInvalidCommand
						return
					}
					kv = vDel(kv, "content-length")
				})
			case 3, 4:
				set(SendOpt.Header(k, v), fmt.Sprintf("Header(%q,%q)", k, v), func() {
					if sub {
						want = ErrInvalidCommand
						return
					}
					kv = append(kv, k, v)
				})
			case 5:
				set(SubscribeOpt.Header(k, v), fmt.Sprintf("SubscribeOpt.Header(%q,%q)", k, v), func() {
					if !sub {
						want = ErrInvalidCommand
						return
					}
					kv = append(kv, k, v)
				})
			case 6:
				id := fmt.Sprintf("s%d", round)
				set(SubscribeOpt.Id(id), "Id", func() {
					if !sub {
						want = ErrInvalidCommand
						return
					}
					kv = vSet(kv, "id", id)
				})
			case 7:
				if rnd.Intn(3) == 0 {
					set(func(f *frame.Frame) error { f.Header.Set("k1", "broken"); return boom }, "failing", func() { want = boom })
				}
			case 8:
				set(func(f *frame.Frame) error { f.Header.Set(k, v); return nil }, fmt.Sprintf("Set(%q,%q)", k, v), func() { kv = vSet(kv, k, v) })
			}
		}
		var err error
		var s *Subscription
		trans := ""
		if tx {
			x := c.Begin()
			trans = x.Id()
			n++
			if !vWithin(func() { err = x.Send(dest, ct, body, opts...) }) {
				fail("Send does not return")
			}
			kv = vSet(kv, "transaction", trans)
		} else if sub {
			if !vWithin(func() { s, err = c.Subscribe(dest, mode, opts...) }) {
				fail("Subscribe does not return")
			}
		} else if !vWithin(func() { err = c.Send(dest, ct, body, opts...) }) {
			fail("Send does not return")
		}
		if want == nil && err != nil {
			fail("error %v", err)
		}
		if want != nil && err != want {
			fail("error %v instead of %v", err, want)
		}
		if string(body) != keep {
			fail("the body was changed")
		}
		if want == nil {
			n++
			if !p.waitFrames(n) {
				fail("nothing was sent")
			}
			f := p.frame(n - 1)
			if anyReceipt && f.Header.Get("receipt") != "" {
				id := f.Header.Get("receipt")
				if receipts[id] {
					fail("the receipt id %q was used before", id)
				}
				receipts[id] = true
				f.Header.Set("receipt", "?")
			}
			if sub {
				if id, ok := vHas(f, "id"); !ok || id == "" {
					fail("the SUBSCRIBE frame has no id")
				} else if s.Id() != id {
					fail("the subscription is called %q, the frame says %q", s.Id(), id)
				} else {
					if _, ok := vVal(kv, "id"); !ok {
						kv = vSet(kv, "id", id)
					}
				}
				body = nil
			}
			if d := vSame(f, cmd, string(body), kv); d != "" {
				fail("%s", d)
			}
		} else if rnd.Intn(10) == 0 {
			// nothing may have been sent
			if err := c.Send("probe", "", nil); err != nil {
				fail("the next Send fails: %v", err)
			}
			n++
			if !p.waitFrames(n) {
				fail("the next SEND does not arrive")
			}
			if f := p.frame(n - 1); f.Header.Get("destination") != "probe" {
				fail("a %s frame was sent", f.Command)
			}
		}
	}
	if p.n() > n {
		t.Fatalf("FAILING INPUT: %d frames were sent by %d successful calls", p.n(), n)
	}
	// the options refuse frames of another kind and leave them alone
	for _, cmd := range []string{"SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "BEGIN", "", "send", "SEND", "SEND", "SEND", "SEND", "SUBSCRIBE", "SEND", "SEND"} {
		opts := map[string]func(*frame.Frame) error{"SendOpt.Receipt": SendOpt.Receipt, "SendOpt.NoContentLength": SendOpt.NoContentLength, "SendOpt.Header": SendOpt.Header("k", "v"), "SubscribeOpt.Id": SubscribeOpt.Id("i"), "SubscribeOpt.Header": SubscribeOpt.Header("k", "v")}
		for name, o := range opts {
			ok := cmd == "SEND" && name[:4] == "Send" || cmd == "SUBSCRIBE" && name[:3] == "Sub" || cmd == "UNSUBSCRIBE" && name == "SubscribeOpt.Header"
			kv := []string{"content-length", "3", "k", "w", "receipt", "r", "id", "j", "content-length", "4"}
			f := frame.New(cmd, kv...)
			body := []string{"", "abc", "a\x00c", "\x00"}[rnd.Intn(4)]
			f.Body = []byte(body)
			err := o(f)
			if ok != (err == nil) || err != nil && err != ErrInvalidCommand {
				t.Fatalf("FAILING INPUT: %s on a %q frame returns %v", name, cmd, err)
			}
			if ok {
				switch name {
				case "SendOpt.Receipt":
					kv = vSet(kv, "receipt", vGet(f, "receipt"))
					if vGet(f, "receipt") == "r" {
						t.Fatalf("FAILING INPUT: SendOpt.Receipt keeps the receipt %q", "r")
					}
				case "SendOpt.NoContentLength":
					// Del removes one entry or all, see C03
					if _, has := vHas(f, "content-length"); has {
						t.Fatalf("FAILING INPUT: NoContentLength leaves the content-length of a frame with body %q", body)
					}
					kv = vDel(kv, "content-length")
				case "SubscribeOpt.Id":
					kv = vSet(kv, "id", "i")
				default:
					kv = append(kv, "k", "v")
				}
			}
			if d := vSame(f, cmd, body, kv); d != "" {
				t.Fatalf("FAILING INPUT: %s on a %q frame with body %q (error %v): %s", name, cmd, body, err, d)
			}
		}
	}
}
