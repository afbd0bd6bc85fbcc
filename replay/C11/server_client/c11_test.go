package client

import "testing"

// Random deliveries and acknowledgements next to a list of outstanding messages.
func TestVerifReplayC11(t *testing.T) {
	verifConn(t, vOpts{rounds: 9000, steps: 40, gen: func(h *vH) {
		switch h.rnd.Intn(10) {
		case 0:
			h.send(h.vSubscribe())
		case 1:
			if h.rnd.Intn(3) == 0 {
				h.send(h.vUnsubscribe())
			}
		case 2, 3:
			h.send(h.vAck("ACK"))
		case 4:
			h.send(h.vAck("NACK"))
		case 5:
			if len(h.all) > 0 && h.rnd.Intn(3) == 0 {
				s := h.all[h.rnd.Intn(len(h.all))]
				if s.waiting && s.active {
					h.topic(s)
				}
			}
		default:
			if s := h.waiting(); s != nil {
				h.deliver(s)
			} else {
				h.send(h.vSubscribe())
			}
		}
	}})
}
