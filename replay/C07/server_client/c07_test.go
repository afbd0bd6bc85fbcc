package client

import (
	"math/rand"
	"testing"
	"time"
)

// Random first frames of a session, under random configurations.
func TestVerifReplayC07(t *testing.T) {
	verifConn(t, vOpts{rounds: 4000, steps: 2, connect: "any", cfg: func(r *rand.Rand) vConfig {
		c := vConfig{hb: []time.Duration{0, time.Millisecond, 1500 * time.Microsecond, 60 * time.Second, 999999999 * time.Millisecond, 3000 * time.Hour}[r.Intn(6)]}
		if r.Intn(3) == 0 {
			c.auth = func(l, p string) bool { return l == "u" && p == "p" }
		}
		return c
	}, gen: func(h *vH) {
		if h.phase == 1 {
			h.send(h.vSend())
			return
		}
		h.hb = int(h.cfg.hb / time.Millisecond)
		if h.hb > 999999999 {
			h.hb = 999999999
		}
		f := vFrame{cmd: h.pick("CONNECT", "STOMP", "CONNECT", "STOMP", "STOMP", "SEND", "SUBSCRIBE", "DISCONNECT", "BEGIN", "ACK", "MESSAGE", "CONNECTED")}
		if f.cmd == "SEND" {
			f = h.vSend()
		}
		if f.cmd == "SUBSCRIBE" {
			f = h.vSubscribe()
		}
		v := h.pick("1.0,1.1,1.2", "1.2", "1.1", "1.2,1.1", "1.1,1.0", "1.0", "", "1.3,1.1", "2.0", "1.2,1.0", "9,1.2,x", "1.1,1.1")
		h.maybe(&f, 92, "accept-version", v)
		l, p := h.pick("u", "u", "u", ""), "p"
		if h.rnd.Intn(60) == 0 || l == "" && (h.cfg.auth == nil || h.rnd.Intn(50) == 0) {
			p = h.pick("p", "q", "")
			h.maybe(&f, 70, "login", l)
			h.maybe(&f, 70, "passcode", p)
		} else {
			h.maybe(&f, 100, "login", "u")
			h.maybe(&f, 100, "passcode", "p")
		}
		h.maybe(&f, 75, "heart-beat", h.pick("0,0", "0,0", "1,1", "1000,2000", "70000,0", "0,70000", "999999999,999999999", "00001,3", "5,5,5", "5", "", ",", "1000000000,1", "-1,1", "a,b", "1, 2"))
		h.maybe(&f, 4, "receipt", "r")
		h.send(f)
	}})
}
