package client

import (
	"fmt"
	"testing"
)

// Random sessions that run into a frame the server must refuse.
func TestVerifReplayC08(t *testing.T) {
	verifConn(t, vOpts{rounds: 5000, steps: 12, gen: func(h *vH) {
		var f vFrame
		n := h.rnd.Intn(20)
		switch {
		case n < 3:
			f = h.vSubscribe()
		case n < 5:
			f = h.vSend()
		case n == 5:
			f = h.vUnsubscribe()
		case n == 6:
			f = h.vAck(h.pick("ACK", "NACK"))
		case n == 7:
			f = vFrame{cmd: h.pick("BEGIN", "COMMIT", "ABORT"), hs: [][2]string{{"transaction", h.pick("t", "u")}}}
		case n < 14:
			if s := h.waiting(); s != nil {
				h.deliver(s)
			}
			return
		default:
			f = vFrame{cmd: h.pick("CONNECT", "STOMP", "MESSAGE", "RECEIPT", "ERROR", "CONNECTED", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT", "DISCONNECT", "SUBSCRIBE", "ACK", "NACK")}
			h.maybe(&f, 60, "id", h.pick("1", "2", "3", "", "18446744073709551616", "+1", "0x1", "1 "))
			h.maybe(&f, 60, "destination", h.pick("/queue/a", "", "x"))
			h.maybe(&f, 50, "ack", h.pick("auto", "client", "client-individual", "Auto", "", "1", "-1", "18446744073709551615"))
			h.maybe(&f, 30, "message-id", h.pick("1", "2", "", "x", "99999999999999999999"))
			h.maybe(&f, 30, "transaction", h.pick("t", "nope", ""))
			h.maybe(&f, 10, "accept-version", "1.2")
			if f.cmd == "DISCONNECT" {
				h.maybe(&f, 50, "receipt", "bye")
				h.send(f)
				h.hangup()
				return
			}
		}
		h.serial++
		h.maybe(&f, 40, "receipt", h.pick(fmt.Sprint("r", h.serial), "", "a:b"))
		h.send(f)
	}})
}
