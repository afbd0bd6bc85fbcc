package stomp

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

// a network connection that cannot be closed properly
type vBadClose struct{ *vPeer }

func (b vBadClose) Close() error { b.vPeer.Close(); return errors.New("bad close") }

// Operations that wait for the lock while the connection is closed.
func vWaiting(t *testing.T) {
	for k := 0; k < 8; k++ {
		c, p := vDial(t, "1.2")
		s, _ := c.Subscribe("/q", AckClient)
		tx := c.Begin()
		p.waitFrames(2)
		m := &Message{Conn: c, Subscription: s, Header: frame.NewHeader("ack", "1", "message-id", "1")}
		name := []string{"Send", "Ack", "Subscribe", "Begin", "Commit", "Disconnect", "MustDisconnect", "tx.Send"}[k]
		res := make(chan string, 1)
		c.closeMutex.Lock()
		go func() {
			defer func() {
				if e := recover(); e != nil {
					res <- fmt.Sprint("panic: ", e)
				}
			}()
			var err error
			switch k {
			case 0:
				err = c.Send("/q", "", nil)
			case 1:
				err = c.Ack(m)
			case 2:
				_, err = c.Subscribe("/q", AckAuto)
			case 3:
				_, err = c.BeginWithError()
			case 4:
				err = tx.Commit()
			case 5:
				err = c.Disconnect()
			case 6:
				err = c.MustDisconnect()
			case 7:
				err = tx.Send("/q", "", nil)
			}
			if (err == nil) != (k == 5 || k == 6) {
				res <- fmt.Sprint("error ", err)
				return
			}
			res <- ""
		}()
		time.Sleep(20 * time.Millisecond)
		close(c.writeCh)
		c.closed = true
		c.closeMutex.Unlock()
		select {
		case e := <-res:
			if e != "" {
				t.Fatalf("FAILING INPUT: %s waits for the lock while the connection is closed: %s", name, e)
			}
		case <-time.After(5 * time.Second):
			t.Fatalf("FAILING INPUT: %s waits for the lock while the connection is closed: it does not return", name)
		}
		p.Close()
	}
}

// Every way of closing, then every operation.
func TestVerifReplayC24(t *testing.T) {
	rnd := vRand()
	vWaiting(t)
	for run := 0; run < 400; run++ {
		version := []string{"1.1", "1.2"}[rnd.Intn(2)]
		c, p := vDial(t, version, ConnOpt.MsgSendTimeout(0), ConnOpt.RcvReceiptTimeout(30*time.Millisecond), ConnOpt.DisconnectReceiptTimeout(30*time.Millisecond))
		log := "version " + version + ":"
		if rnd.Intn(4) == 0 {
			log += " (Close fails)"
			c.closeMutex.Lock()
			c.conn = vBadClose{p}
			c.closeMutex.Unlock()
		}
		bad := func(err error) bool { return err != nil && err.Error() != "bad close" }
		fail := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
		}
		var err error
		do := func(l string, f func() error) {
			t.Helper()
			log += " " + l
			if !vWithin(func() {
				defer func() {
					if e := recover(); e != nil {
						err = fmt.Errorf("PANIC %v", e)
					}
				}()
				err = f()
			}) {
				fail("it does not return")
			}
			if err != nil && len(err.Error()) > 5 && err.Error()[:5] == "PANIC" {
				fail("%v", err)
			}
		}
		s, err0 := c.Subscribe("/q", AckClient)
		if err0 != nil {
			fail("Subscribe: %v", err0)
		}
		tx := c.Begin()
		n := 2
		// while the connection is open
		for i := rnd.Intn(4); i > 0; i-- {
			switch rnd.Intn(4) {
			case 0:
				do("send", func() error { return c.Send("/q", "", []byte("x")) })
				if err != nil {
					fail("error %v", err)
				}
				n++
			case 1:
				do("send with receipt", func() error { return c.Send("/q", "", []byte("x"), SendOpt.Receipt) })
				if err != nil {
					fail("error %v", err)
				}
				n++
			case 2:
				log += " (the server is slow)"
				p.waitFrames(n)
				p.setAnswer(nil)
				do("send with receipt", func() error { return c.Send("/q", "", []byte("x"), SendOpt.Receipt) })
				if err != ErrMsgReceiptTimeout {
					fail("there was no receipt, but the error is %v", err)
				}
				n++
				p.waitFrames(n)
				p.out <- vConfirm(p.frame(n - 1))
				p.setAnswer(vConfirm)
			case 3:
				do("send with a failing option", func() error {
					return c.Send("/q", "", nil, func(*frame.Frame) error { return ErrNilOption })
				})
				if err != ErrNilOption {
					fail("error %v", err)
				}
			}
		}
		if !p.waitFrames(n) {
			fail("%d frames were written instead of %d", p.n(), n)
		}
		disc := 0
		net := 1
		how := rnd.Intn(9)
		switch how {
		case 0:
			do("Disconnect", c.Disconnect)
			if bad(err) {
				fail("error %v", err)
			}
			disc = 1
		case 1:
			p.setAnswer(nil)
			do("Disconnect without an answer", c.Disconnect)
			if err != ErrDisconnectReceiptTimeout {
				fail("error %v", err)
			}
			disc = 1
		case 2:
			p.setAnswer(func(f *frame.Frame) string { return vText("ERROR", "", "message", "no") })
			do("Disconnect answered by ERROR", c.Disconnect)
			if err == nil {
				fail("no error")
			}
			disc = 1
		case 3:
			do("MustDisconnect", c.MustDisconnect)
			if bad(err) {
				fail("error %v", err)
			}
		case 4:
			log += " ERROR from the server"
			p.out <- vText("ERROR", "", "message", "no")
		case 5:
			log += " connection lost"
			p.out <- "CLOSE"
		case 6:
			log += " garbage"
			p.out <- "GARBAGE\n\n\x00"
		case 7:
			log += " RECEIPT without id"
			p.out <- vText("RECEIPT", "")
		case 8:
			p.setAnswer(func(f *frame.Frame) string { return vText("ERROR", "", "message", "no") })
			do("send with receipt answered by ERROR", func() error { return c.Send("/q", "", nil, SendOpt.Receipt) })
			if err == nil {
				fail("no error")
			}
			n++
		}
		if !vSoon(func() bool { return p.closed() >= net }) {
			fail("the network connection is not closed")
		}
		if how < 4 && p.closed() > 1 {
			fail("the network connection is closed %d times", p.closed())
		}
		if !vSoon(func() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.ended }) {
			fail("the network connection stays open")
		}
		// the loop gives up the connection, too
		c.closeMutex.Lock()
		c.closeMutex.Unlock()
		for i := 2 + rnd.Intn(4); i > 0; i-- {
			m := &Message{Conn: c, Subscription: s, Header: frame.NewHeader("ack", "1", "message-id", "1")}
			mustErr := true
			switch rnd.Intn(11) {
			case 0:
				do("send", func() error { return c.Send("/q", "", []byte("x")) })
				if err != ErrAlreadyClosed {
					fail("error %v", err)
				}
			case 1:
				do("send with receipt", func() error { return c.Send("/q", "", []byte("x"), SendOpt.Receipt) })
				if err != ErrAlreadyClosed {
					fail("error %v", err)
				}
			case 2:
				do("subscribe", func() error {
					x, e := c.Subscribe("/q", AckAuto)
					if e == nil || x != nil {
						fail("it returns %v, %v", x, e)
					}
					return e
				})
			case 3:
				do("ack", func() error { return c.Ack(m) })
			case 4:
				do("nack", func() error { return c.Nack(m) })
			case 5:
				do("begin", func() error { _, e := c.BeginWithError(); return e })
			case 6:
				do("commit", func() error { return tx.Commit() })
			case 7:
				do("tx.Send", func() error { return tx.Send("/q", "", nil) })
			case 8:
				do("abort with receipt", func() error { return tx.AbortWithReceipt() })
			case 9:
				do("Disconnect", c.Disconnect)
				mustErr = false
				if err != nil {
					fail("error %v", err)
				}
			case 10:
				do("MustDisconnect", c.MustDisconnect)
				mustErr = false
				if err != nil {
					fail("error %v", err)
				}
			}
			if mustErr && err == nil {
				fail("no error on a closed connection")
			}
		}
		if p.n() > n+disc {
			fail("%d frames were written instead of %d", p.n(), n+disc)
		}
		if disc == 1 {
			f := p.frame(n)
			if f == nil || f.Command != "DISCONNECT" || vGet(f, "receipt") == "" || f.Header.Len() != 1 {
				fail("the last frame is %v, not a DISCONNECT with a receipt", f)
			}
		}
	}
	// submitting is given up after the time that was set, with the lock released
	c := &Conn{}
	_ = c
	for _, to := range []time.Duration{time.Millisecond, 3 * time.Millisecond} {
		c, p := vDial(t, "1.2", ConnOpt.MsgSendTimeout(to), ConnOpt.RcvReceiptTimeout(0), ConnOpt.WriteChannelCapacity(1))
		// a server that does not read: the pipe blocks the loop
		p.mu.Lock()
		var err error
		if !vWithin(func() {
			for i := 0; i < 100 && err == nil; i++ {
				err = c.Send("/q", "", nil)
			}
		}) {
			t.Fatalf("FAILING INPUT: Send to a server that does not read does not return after %v", to)
		}
		p.mu.Unlock()
		if err != nil && err != ErrMsgSendTimeout {
			t.Fatalf("FAILING INPUT: Send to a server that does not read fails with %v", err)
		}
		if err == nil {
			continue
		}
		if !vWithin(func() { err = c.Send("/q", "", nil) }) {
			t.Fatalf("FAILING INPUT: after a Send that timed out the next one does not return")
		}
		c.MustDisconnect()
	}
}
