package stomp

import (
	"fmt"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

// Random operations on transactions against a model of each.
func TestVerifReplayC20(t *testing.T) {
	rnd := vRand()
	for run := 0; run < 250; run++ {
		version := []string{"1.1", "1.2", "1.0"}[rnd.Intn(3)]
		short := run%5 == 4
		c, p := vDial(t, version, ConnOpt.MsgSendTimeout(0), ConnOpt.RcvReceiptTimeout(0))
		mode := AckMode(rnd.Intn(3))
		s, err := c.Subscribe("/q", mode)
		if err != nil {
			t.Fatalf("FAILING INPUT: Subscribe: %v", err)
		}
		n := 1
		closed := false
		type vtx struct {
			tx   *Transaction
			done bool
		}
		var txs []*vtx
		used := map[string]bool{}
		log := fmt.Sprintf("version %s, ack mode %v:", version, mode)
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
		}
		// what was sent since: exactly the frame, or nothing
		expect := func(cmd string, body string, kv []string) {
			n++
			if !p.waitFrames(n) {
				fail("no %s frame is sent", cmd)
			}
			f := p.frame(n - 1)
			if v, ok := vVal(kv, "receipt"); ok && v == "?" {
				r := vGet(f, "receipt")
				if r == "" || used[r] {
					fail("the receipt id %q of the %s frame is not fresh", r, cmd)
				}
				used[r] = true
				kv = vSet(kv, "receipt", r)
			}
			if d := vSame(f, cmd, body, kv); d != "" {
				fail("%s", d)
			}
		}
		for step := 0; step < 12; step++ {
			if len(txs) == 0 || rnd.Intn(6) == 0 {
				log += " Begin"
				tx, err := c.BeginWithError()
				if tx == nil || tx.Id() == "" || used[tx.Id()] || tx.Conn() != c {
					fail("it returns %v", tx)
				}
				if closed != (err != nil) {
					fail("it returns the error %v", err)
				}
				used[tx.Id()] = true
				txs = append(txs, &vtx{tx: tx})
				if !closed {
					expect("BEGIN", "", []string{"transaction", tx.Id()})
				}
				continue
			}
			i := rnd.Intn(len(txs))
			x := txs[i]
			var err error
			do := func(name string, f func() error) {
				log += fmt.Sprintf(" %d.%s", i, name)
				if !vWithin(func() { err = f() }) {
					fail("it does not return")
				}
			}
			refuse := false // the server does not confirm
			if rnd.Intn(6) == 0 {
				refuse = true
				if short {
					log += " (the connection breaks instead of a receipt)"
					p.setAnswer(func(f *frame.Frame) string {
						if _, ok := vHas(f, "receipt"); ok {
							return "CLOSE"
						}
						return ""
					})
				} else {
					log += " (an ERROR instead of a receipt)"
					p.setAnswer(func(f *frame.Frame) string {
						if _, ok := vHas(f, "receipt"); ok {
							return vText("ERROR", "no", "message", "refused")
						}
						return ""
					})
				}
			}
			var cmd, body string
			var kv []string
			receipt, ends, nothing, bad := false, false, false, false
			switch k := rnd.Intn(8); k {
			case 0:
				do("Abort", x.tx.Abort)
				cmd, kv, ends = "ABORT", []string{"transaction", x.tx.Id()}, true
			case 1:
				do("Commit", x.tx.Commit)
				cmd, kv, ends = "COMMIT", []string{"transaction", x.tx.Id()}, true
			case 2:
				do("AbortWithReceipt", x.tx.AbortWithReceipt)
				cmd, kv, ends, receipt = "ABORT", []string{"transaction", x.tx.Id(), "receipt", "?"}, true, true
			case 3:
				do("CommitWithReceipt", x.tx.CommitWithReceipt)
				cmd, kv, ends, receipt = "COMMIT", []string{"transaction", x.tx.Id(), "receipt", "?"}, true, true
			case 4, 5:
				body = fmt.Sprintf("body %d", step)
				cmd, kv = "SEND", []string{"content-length", fmt.Sprint(len(body)), "destination", "/d", "transaction", x.tx.Id()}
				var opts []func(*frame.Frame) error
				name := "Send"
				if k == 5 {
					opts = append(opts, SendOpt.Receipt)
					kv = append(kv, "receipt", "?")
					receipt = true
					name = "Send(receipt)"
				}
				if rnd.Intn(3) == 0 {
					opts = append(opts, SendOpt.Header("transaction", "other"), SendOpt.Header("x", "y"))
					kv = append(kv, "x", "y")
					name += "(with its own transaction)"
				}
				do(name, func() error { return x.tx.Send("/d", "", []byte(body), opts...) })
			default:
				m := &Message{Conn: c, Subscription: s, Header: frame.NewHeader("message-id", "7", "ack", "8")}
				if rnd.Intn(5) == 0 {
					m.Header = nil
					bad = true
				}
				cmd = "ACK"
				if version == "1.2" {
					kv = []string{"id", "8", "transaction", x.tx.Id()}
				} else {
					kv = []string{"subscription", s.Id(), "message-id", "7", "transaction", x.tx.Id()}
				}
				nothing = mode == AckAuto
				if k == 7 {
					cmd = "NACK"
					bad = bad || version == "1.0" || mode == AckAuto
					do("Nack", func() error { return x.tx.Nack(m) })
				} else {
					do("Ack", func() error { return x.tx.Ack(m) })
				}
			}
			switch {
			case x.done:
				if err != ErrCompletedTransaction {
					fail("the transaction is completed, but the error is %v", err)
				}
			case bad:
				if err == nil {
					fail("no error")
				}
			case nothing:
				if err != nil {
					fail("error %v", err)
				}
			case closed:
				if err == nil || err == ErrCompletedTransaction {
					fail("the connection is closed and the transaction is open, but the error is %v", err)
				}
			default:
				expect(cmd, body, kv)
				if refuse && receipt {
					if err == nil {
						fail("there was no receipt, but no error either")
					}
					closed = true
					vSoon(func() bool { return p.closed() > 0 })
				} else if err != nil {
					fail("error %v", err)
				} else if ends {
					x.done = true
				}
			}
			p.setAnswer(vConfirm)
		}
		// nothing else was sent
		if !closed {
			c.Send("probe", "", nil)
			n++
			if !p.waitFrames(n) || vGet(p.frame(n-1), "destination") != "probe" {
				fail("a frame was sent that should not be: %v", p.frame(n-1))
			}
		}
		c.MustDisconnect()
	}
}
