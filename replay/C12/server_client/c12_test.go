package client

import "testing"

// Random sessions that end in every way, with messages on their way.
func TestVerifReplayC12(t *testing.T) {
	verifConn(t, vOpts{rounds: 4000, steps: 14, gen: func(h *vH) {
		switch h.rnd.Intn(9) {
		case 0, 1, 2:
			h.send(h.vSubscribe())
		case 3:
			h.cancelled()
		case 4:
			h.send(h.vAck(h.pick("ACK", "NACK")))
		case 5:
			f := vFrame{cmd: "BEGIN", hs: [][2]string{{"transaction", "t"}}}
			if _, ok := h.txs["t"]; ok {
				f = h.vSend()
				f.hs = append(f.hs, [2]string{"transaction", "t"})
			}
			h.send(f)
		default:
			if s := h.waiting(); s != nil {
				h.deliver(s)
			}
		}
	}, finish: func(h *vH) {
		switch h.rnd.Intn(6) {
		case 0:
			h.hangup()
		case 1:
			h.send(vFrame{cmd: "DISCONNECT", hs: [][2]string{{"receipt", "bye"}}})
			h.hangup()
		case 2, 3:
			h.hangupLoaded()
		case 4:
			h.breakWrite()
			if h.phase != 2 {
				h.hangup()
			}
		case 5:
			h.send(vFrame{cmd: "MESSAGE"})
		}
	}})
}
