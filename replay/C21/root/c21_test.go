package stomp

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

// what a heart-beat value means, by the STOMP specification
func vBeat(s string) (int64, int64, bool) {
	i := strings.Index(s, ",")
	if i < 0 {
		return 0, 0, false
	}
	num := func(t string) (int64, bool) {
		n := int64(0)
		for _, ch := range t {
			if ch < '0' || ch > '9' || n > 1000000000000 {
				return 0, false
			}
			n = n*10 + int64(ch-'0')
		}
		return n, t != "" && n <= 9223372036854
	}
	a, ok1 := num(s[:i])
	b, ok2 := num(s[i+1:])
	return a, b, ok1 && ok2
}

// A random list of options and a random answer.
func TestVerifReplayC21(t *testing.T) {
	rnd := vRand()
	boom := errors.New("boom")
	durs := []time.Duration{0, time.Millisecond, 1500 * time.Microsecond, 20 * time.Millisecond, time.Second, 7 * time.Second, time.Minute, 2 * time.Minute, time.Hour, 300 * time.Microsecond}
	dur := func() time.Duration { return durs[rnd.Intn(len(durs))] }
	texts := []string{"", "a", "x:y", "l\\n", "two\nlines", "host"}
	text := func() string { return texts[rnd.Intn(len(texts))] }
	for round := 0; round < 3000; round++ {
		log := ""
		fail := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("FAILING INPUT: options%s: %s", log, fmt.Sprintf(f, a...))
		}
		// the model
		cmd, host, login, pass := "CONNECT", "", "", ""
		rt, wt, he := time.Minute, time.Minute, DefaultHeartBeatError
		ms, rr, dr, ur := DefaultMsgSendTimeout, DefaultRcvReceiptTimeout, DefaultDisconnectReceiptTimeout, DefaultUnsubscribeReceiptTimeout
		var vers, extra []string
		rcap, wcap := 20, 20
		grace := 1.0
		stats := false
		var called *frame.Header
		callback := false
		var want error
		opts := []func(*Conn) error{ConnOpt.Logger(vLog{})}
		add := func(o func(*Conn) error, l string, eff func()) {
			log += " " + l
			opts = append(opts, o)
			if want == nil && eff != nil {
				eff()
			}
		}
		for i := rnd.Intn(7); i > 0; i-- {
			switch rnd.Intn(20) {
			case 0:
				a, b := text(), text()
				add(ConnOpt.Login(a, b), fmt.Sprintf("Login(%q,%q)", a, b), func() { login, pass = a, b })
			case 1:
				a := text()
				add(ConnOpt.Host(a), fmt.Sprintf("Host(%q)", a), func() { host = a })
			case 2:
				add(ConnOpt.UseStomp, "UseStomp", func() { cmd = "STOMP" })
			case 3, 4:
				var vs []Version
				bad := false
				for j := rnd.Intn(4); j > 0; j-- {
					v := []Version{V10, V11, V12, V11, V12, "1.3", ""}[rnd.Intn(7)]
					if rnd.Intn(4) > 0 && v != V10 && v != V11 && v != V12 {
						v = V12
					}
					bad = bad || v != V10 && v != V11 && v != V12
					vs = append(vs, v)
				}
				add(ConnOpt.AcceptVersion(vs...), fmt.Sprintf("AcceptVersion(%q)", vs), func() {
					if bad {
						want = boom
					}
					for _, v := range vs {
						vers = append(vers, string(v))
					}
				})
			case 5, 6, 7:
				a, b := dur(), dur()
				add(ConnOpt.HeartBeat(a, b), fmt.Sprintf("HeartBeat(%v,%v)", a, b), func() { wt, rt = a, b })
			case 8:
				a := dur()
				add(ConnOpt.HeartBeatError(a), fmt.Sprintf("HeartBeatError(%v)", a), func() { he = a })
			case 9:
				a := dur()
				add(ConnOpt.MsgSendTimeout(a), fmt.Sprintf("MsgSendTimeout(%v)", a), func() { ms = a })
			case 10:
				a := dur()
				add(ConnOpt.RcvReceiptTimeout(a), fmt.Sprintf("RcvReceiptTimeout(%v)", a), func() { rr = a })
			case 11:
				a := dur()
				add(ConnOpt.DisconnectReceiptTimeout(a), fmt.Sprintf("DisconnectReceiptTimeout(%v)", a), func() { dr = a })
			case 12:
				a := dur()
				add(ConnOpt.UnsubscribeReceiptTimeout(a), fmt.Sprintf("UnsubscribeReceiptTimeout(%v)", a), func() { ur = a })
			case 13, 14:
				a, b := []string{"k", "k2", "k"}[rnd.Intn(3)], text()
				add(ConnOpt.Header(a, b), fmt.Sprintf("Header(%q,%q)", a, b), func() { extra = append(extra, a, b) })
			case 15:
				n := rnd.Intn(60)
				if rnd.Intn(2) == 0 {
					add(ConnOpt.ReadChannelCapacity(n), fmt.Sprintf("ReadChannelCapacity(%d)", n), func() {
						rcap = n
						if n == 0 {
							rcap = 20
						}
					})
				} else {
					add(ConnOpt.WriteChannelCapacity(n), fmt.Sprintf("WriteChannelCapacity(%d)", n), func() {
						wcap = n
						if n == 0 {
							wcap = 20
						}
					})
				}
			case 16:
				add(nil, "nil", func() {})
			case 17:
				if rnd.Intn(4) == 0 {
					add(func(*Conn) error { return boom }, "failing", func() { want = boom })
				}
			case 18:
				add(ConnOpt.ResponseHeaders(func(h *frame.Header) { called = h.Clone() }), "ResponseHeaders", func() { callback = true })
			case 19:
				switch rnd.Intn(4) {
				case 0:
					n := rnd.Intn(100)
					add(ConnOpt.ReadBufferSize(n), fmt.Sprintf("ReadBufferSize(%d)", n), nil)
				case 1:
					n := rnd.Intn(100)
					add(ConnOpt.WriteBufferSize(n), fmt.Sprintf("WriteBufferSize(%d)", n), nil)
				case 2:
					g := float64(rnd.Intn(4)) + 0.5
					add(ConnOpt.HeartBeatGracePeriodMultiplier(g), fmt.Sprintf("Multiplier(%v)", g), func() { grace = g })
				case 3:
					add(ConnOpt.WithStats(), "WithStats", func() { stats = true })
				}
			}
		}
		// the answer
		acmd := "CONNECTED"
		if rnd.Intn(10) == 0 {
			acmd = []string{"ERROR", "RECEIPT", "MESSAGE", "CONNECT"}[rnd.Intn(4)]
		}
		var akv []string
		if rnd.Intn(4) > 0 {
			akv = append(akv, "version", []string{"1.0", "1.1", "1.2", "1.2", "1.1", "", "2.0", "1.25", "1", "1.2 ", "0.9"}[rnd.Intn(11)])
		}
		if rnd.Intn(2) == 0 {
			akv = append(akv, "session", text())
		}
		if rnd.Intn(2) == 0 {
			akv = append(akv, "server", text())
		}
		if rnd.Intn(5) > 0 {
			akv = append(akv, "heart-beat", []string{"0,0", "0,5", "5,0", "20000,30000", "1,1", "90000,100000", "3600000,3600000", "", "a,b", "1", "1,2,3", "-1,3", " 1,2", "60000,60000", "5000,5000", "5001,5001", "9999999999,1", "99999999999999999999,1"}[rnd.Intn(18)])
		}
		if rnd.Intn(4) == 0 {
			akv = append(akv, "version", "9.9", "heart-beat", "x", "session", "second")
			if _, ok := vVal(akv[:len(akv)-6], "heart-beat"); !ok && rnd.Intn(2) == 0 {
				akv[len(akv)-4] = "other"
			}
		}
		answer := vText(acmd, "", akv...)
		switch rnd.Intn(16) {
		case 0:
			answer = "\n"
		case 1:
			answer = "NONSENSE\n\n\x00"
		case 2:
			answer = "CLOSE"
		}
		p := newPeer()
		p.connected = answer
		var c *Conn
		var err error
		if !vWithin(func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("PANIC %v", e)
				}
			}()
			c, err = Connect(p, opts...)
		}) {
			fail("answer %q: Connect does not return", answer)
		}
		if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			fail("answer %q: %v", answer, err)
		}
		if want != nil {
			if err == nil || c != nil {
				fail("an option fails, but Connect does not")
			}
			if want == boom && opts != nil && err != boom && !strings.Contains(log, "AcceptVersion") {
				fail("an option fails with boom, Connect with %v", err)
			}
			p.mu.Lock()
			if len(p.frames) > 0 {
				fail("an option fails, but a frame is sent")
			}
			p.mu.Unlock()
			p.Close()
			continue
		}
		// the frame
		if !vSoon(func() bool { p.mu.Lock(); defer p.mu.Unlock(); return len(p.frames) > 0 }) {
			fail("no frame is sent")
		}
		if host == "" {
			host = "default"
		}
		if len(vers) == 0 {
			vers = []string{"1.0", "1.1", "1.2"}
		}
		kv := []string{"host", host, "heart-beat", fmt.Sprintf("%d,%d", wt.Milliseconds(), rt.Milliseconds()), "accept-version", strings.Join(vers, ",")}
		if login != "" || pass != "" {
			kv = append(kv, "login", login, "passcode", pass)
		}
		kv = append(kv, extra...)
		p.mu.Lock()
		f := p.frames[0]
		p.mu.Unlock()
		if f == nil {
			fail("a heart-beat is sent instead of the frame")
		}
		g := f.Clone()
		if d := vSame(g, cmd, "", kv); d != "" {
			fail("%s", d)
		}
		// the outcome
		v, _ := vVal(akv, "version")
		hb, has := vVal(akv, "heart-beat")
		sx, sy, hbok := vBeat(hb)
		good := answer == vText(acmd, "", akv...) && acmd == "CONNECTED" && (v == "" || v == "1.0" || v == "1.1" || v == "1.2") && (!has || hbok)
		if good != (err == nil) {
			fail("answer %q: the error is %v", answer, err)
		}
		if (err == nil) != (c != nil) {
			fail("answer %q: the connection is %v, the error %v", answer, c, err)
		}
		if !good {
			p.Close()
			continue
		}
		if v == "" {
			v = "1.0"
		}
		ses, _ := vVal(akv, "session")
		srv, _ := vVal(akv, "server")
		if string(c.Version()) != v || c.Session() != ses || c.Server() != srv {
			fail("answer %q: version %q, session %q, server %q", answer, c.Version(), c.Session(), c.Server())
		}
		var erd, ewr time.Duration
		if has && sx > 0 && rt >= time.Millisecond {
			erd = time.Duration(sx) * time.Millisecond
			if erd < rt {
				erd = rt
			}
			erd += he
		}
		if has && sy > 0 && wt >= time.Millisecond {
			ewr = time.Duration(sy) * time.Millisecond
			if ewr > he {
				ewr -= he
			}
		}
		if erd > 0 || !has || sx < 9000000000 { // no overflow
			if c.readTimeout != erd || c.writeTimeout != ewr {
				fail("answer %q: read timeout %v instead of %v, write timeout %v instead of %v", answer, c.readTimeout, erd, c.writeTimeout, ewr)
			}
		}
		if c.msgSendTimeout != ms || c.rcvReceiptTimeout != rr || c.disconnectReceiptTimeout != dr || c.unsubscribeReceiptTimeout != ur || c.hbGracePeriodMultiplier != grace || c.statsEnabled != stats {
			fail("the settings are %v %v %v %v %v %v", c.msgSendTimeout, c.rcvReceiptTimeout, c.disconnectReceiptTimeout, c.unsubscribeReceiptTimeout, c.hbGracePeriodMultiplier, c.statsEnabled)
		}
		if cap(c.readCh) != rcap || cap(c.writeCh) != wcap {
			fail("the channels hold %d and %d", cap(c.readCh), cap(c.writeCh))
		}
		if callback != (called != nil) {
			fail("the callback was called: %v", called != nil)
		}
		if callback {
			if d := vSame(&frame.Frame{Command: "CONNECTED", Header: called}, "CONNECTED", "", akv); d != "" {
				fail("callback: %s", d)
			}
		}
		c.MustDisconnect()
	}
	// the host of the address is the default host, and an option overrides it
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	defer ln.Close()
	got := make(chan *frame.Frame, 10)
	go func() {
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			f, err := frame.NewReader(nc).Read()
			if err != nil {
				f = nil
			}
			got <- f
			io.WriteString(nc, vText("CONNECTED", "", "version", "1.2"))
		}
	}()
	for _, h := range []string{"", "other"} {
		var opts []func(*Conn) error
		want := "127.0.0.1"
		if h != "" {
			opts = append(opts, ConnOpt.Host(h))
			want = h
		}
		c, err := Dial("tcp", ln.Addr().String(), append(opts, ConnOpt.Logger(vLog{}))...)
		if err != nil {
			t.Fatalf("FAILING INPUT: Dial with host option %q: %v", h, err)
		}
		if f := <-got; f == nil || vGet(f, "host") != want {
			t.Fatalf("FAILING INPUT: Dial with host option %q sends %v", h, f)
		}
		c.MustDisconnect()
	}
	if c, err := Dial("tcp", "127.0.0.1:1"); err == nil || c != nil {
		t.Fatalf("FAILING INPUT: Dial to a closed port returns %v, %v", c, err)
	}
}
