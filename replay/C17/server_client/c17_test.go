package client

import "testing"

// Random deliveries from queues and topics, and the numbers they carry.
func TestVerifReplayC17(t *testing.T) {
	verifConn(t, vOpts{rounds: 9000, steps: 40, gen: func(h *vH) {
		switch h.rnd.Intn(8) {
		case 0:
			h.send(h.vSubscribe())
		case 1:
			if h.rnd.Intn(3) == 0 {
				h.send(h.vUnsubscribe())
			}
		case 2:
			h.send(h.vAck("ACK"))
		case 3:
			h.send(h.vAck("NACK"))
		case 4, 5:
			if s := h.waiting(); s != nil {
				h.topic(s)
			}
		default:
			if s := h.waiting(); s != nil {
				h.deliver(s)
			} else {
				h.send(h.vSubscribe())
			}
		}
	}})
}
