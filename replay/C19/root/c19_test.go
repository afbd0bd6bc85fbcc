package stomp

import (
	"fmt"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestVerifReplayC19(t *testing.T) {
	rnd := vRand()
	for _, version := range []string{"1.0", "1.1", "1.2", ""} {
		c, p := vDial(t, version, ConnOpt.MsgSendTimeout(0), ConnOpt.RcvReceiptTimeout(0))
		n := 0
		var subs []*Subscription
		for mode := AckAuto; mode <= AckClientIndividual; mode++ {
			s, err := c.Subscribe("/q", mode, SubscribeOpt.Id(fmt.Sprintf("s%d", mode)))
			if err != nil {
				t.Fatalf("FAILING INPUT: Subscribe: %v", err)
			}
			n++
			subs = append(subs, s)
		}
		for round := 0; round < 1500; round++ {
			mode := AckMode(rnd.Intn(3))
			s := subs[mode]
			var kv []string
			for i := rnd.Intn(4); i > 0; i-- {
				k := []string{"ack", "message-id", "id", "subscription", "ack", "message-id"}[rnd.Intn(6)]
				kv = append(kv, k, fmt.Sprintf("%d", rnd.Intn(100)))
			}
			if rnd.Intn(10) == 0 {
				kv = append(kv, "ack", "")
			}
			if rnd.Intn(2) == 0 {
				kv = append(kv, "message-id", "m:1\\", "ack", "a1")
			}
			m := &Message{Conn: c, Subscription: s, Header: frame.NewHeader(kv...)}
			log := fmt.Sprintf("version %q, mode %v, message header %q", version, mode, kv)
			received := true
			switch {
			case rnd.Intn(12) == 0:
				m.Conn = nil
				received = false
				log += ", no connection"
			case rnd.Intn(12) == 0:
				m.Subscription = nil
				received = false
				log += ", no subscription"
			case rnd.Intn(12) == 0:
				m.Header = nil
				received = false
				log += ", no header"
			case rnd.Intn(3) == 0:
				// through the server
				kv = append([]string{"subscription", s.Id(), "destination", "/q"}, kv...)
				log = fmt.Sprintf("version %q, mode %v, MESSAGE with header %q", version, mode, kv)
				p.out <- vText("MESSAGE", "b", kv...)
				if !vWithin(func() { m = <-s.C }) || m == nil || m.Err != nil {
					t.Fatalf("FAILING INPUT: %s: not delivered: %v", log, m)
				}
			}
			ack := rnd.Intn(2) == 0
			inTx := rnd.Intn(3) == 0
			cmd := "ACK"
			if !ack {
				cmd = "NACK"
			}
			log += fmt.Sprintf(": %s, in a transaction: %v", cmd, inTx)
			fail := func(f string, a ...interface{}) {
				t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
			}
			var want []string
			bad := false
			switch {
			case !received, !ack && (version == "1.0" || version == ""), !ack && mode == AckAuto:
				bad = true
			case mode == AckAuto:
			case version == "1.2":
				id, ok := vVal(kv, "ack")
				bad = !ok
				want = []string{"id", id}
			default:
				id, ok := vVal(kv, "message-id")
				bad = !ok
				want = []string{"subscription", s.Id(), "message-id", id}
			}
			var tx *Transaction
			if inTx {
				tx = c.Begin()
				n++
				if want != nil {
					want = append(want, "transaction", tx.Id())
				}
			}
			var err error
			func() {
				defer func() {
					if e := recover(); e != nil {
						fail("panic: %v", e)
					}
				}()
				switch {
				case inTx && ack:
					err = tx.Ack(m)
				case inTx:
					err = tx.Nack(m)
				case ack:
					err = c.Ack(m)
				default:
					err = c.Nack(m)
				}
			}()
			if bad != (err != nil) {
				fail("error %v", err)
			}
			if !bad && want != nil {
				n++
			}
			if bad || want == nil {
				c.Begin()
				n++
			}
			if !p.waitFrames(n) {
				fail("nothing is sent")
			}
			f := p.frame(n - 1)
			if bad || want == nil {
				if f.Command != "BEGIN" || p.n() > n {
					fail("a %s frame is sent", f.Command)
				}
			} else if d := vSame(f, cmd, "", want); d != "" {
				fail("%s", d)
			}
		}
		c.MustDisconnect()
	}
	// on what each side is told
	for _, v := range []Version{"1.0", "1.1", "1.2"} {
		if v.SupportsNack() != (v != "1.0") {
			t.Fatalf("FAILING INPUT: SupportsNack of %q is %v", v, v.SupportsNack())
		}
	}
	for m, s := range map[AckMode]string{AckAuto: "auto", AckClient: "client", AckClientIndividual: "client-individual"} {
		if m.String() != s || m.ShouldAck() != (m != AckAuto) {
			t.Fatalf("FAILING INPUT: mode %q: String %q, ShouldAck %v", s, m.String(), m.ShouldAck())
		}
	}
}
