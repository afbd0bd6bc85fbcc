package client

import (
	"fmt"
	"testing"
)

// Random sessions in which most frames ask for a receipt.
func TestVerifReplayC09(t *testing.T) {
	verifConn(t, vOpts{rounds: 9000, steps: 25, gen: func(h *vH) {
		var f vFrame
		switch h.rnd.Intn(8) {
		case 0, 1:
			f = h.vSend()
		case 2:
			f = h.vSubscribe()
		case 3:
			f = h.vUnsubscribe()
		case 4:
			f = h.vAck(h.pick("ACK", "NACK"))
		case 5, 6:
			tx := h.pick("t1", "t2", "t3")
			f = vFrame{cmd: "BEGIN"}
			if _, ok := h.txs[tx]; ok {
				f.cmd = h.pick("COMMIT", "ABORT", "COMMIT")
			}
			f.hs = [][2]string{{"transaction", tx}}
		case 7:
			if s := h.waiting(); s != nil {
				h.deliver(s)
				return
			}
			f = h.vSend()
		}
		if f.cmd == "SEND" || f.cmd == "ACK" || f.cmd == "NACK" {
			if tx, ok := h.openTx(); ok {
				h.maybe(&f, 50, "transaction", tx)
			}
		}
		h.serial++
		h.maybe(&f, 60, "receipt", h.pick(fmt.Sprint("r", h.serial), "a:b\\c\nd", "", "0"))
		if h.rnd.Intn(40) == 0 {
			h.maybe(&f, 100, "receipt", "second")
		}
		h.send(f)
	}, finish: func(h *vH) {
		f := vFrame{cmd: "DISCONNECT"}
		h.maybe(&f, 60, "receipt", "bye")
		h.send(f)
		h.hangup()
	}})
}
