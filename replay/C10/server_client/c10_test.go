package client

import "testing"

// Random sessions with transactions, next to a list of kept frames per transaction.
func TestVerifReplayC10(t *testing.T) {
	verifConn(t, vOpts{rounds: 9000, steps: 30, gen: func(h *vH) {
		var f vFrame
		switch h.rnd.Intn(12) {
		case 0, 1, 2, 3:
			f = h.vSend()
		case 4:
			f = h.vSubscribe()
		case 5:
			f = h.vAck(h.pick("ACK", "NACK"))
		case 6, 7, 8:
			tx := h.vTx()
			f = vFrame{cmd: "BEGIN"}
			_, ok := h.txs[tx]
			if ok {
				f.cmd = h.pick("COMMIT", "COMMIT", "ABORT")
			}
			if h.rnd.Intn(60) == 0 {
				f.cmd = h.pick("BEGIN", "COMMIT", "ABORT")
			}
			f.hs = [][2]string{{"transaction", tx}}
			h.maybe(&f, 20, "x", "y")
			h.send(f)
			return
		default:
			if s := h.waiting(); s != nil {
				h.deliver(s)
				return
			}
			f = h.vSend()
		}
		if f.cmd == "SEND" || f.cmd == "ACK" || f.cmd == "NACK" {
			if tx, ok := h.openTx(); ok {
				h.maybe(&f, 70, "transaction", tx)
			}
			if h.rnd.Intn(200) == 0 {
				h.maybe(&f, 100, "transaction", "unknown")
			}
			if h.rnd.Intn(20) == 0 {
				h.maybe(&f, 100, "receipt", "r")
			}
		}
		h.send(f)
	}})
}
