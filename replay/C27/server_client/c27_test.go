package client

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

// A network connection that remembers when it was written to and which read
// deadline was in force at each read.
type hbConn struct {
	in     chan []byte
	buf    []byte
	closed chan struct{}
	once   sync.Once
	gate   chan struct{} // held: writes wait

	mu       sync.Mutex
	deadline time.Time
	setNo    int
	reads    []hbRead
	writes   []hbWrite
	werr     bool
}
type hbRead struct {
	at, deadline time.Time
	fresh        bool // the deadline was set since the previous read
	last         []byte
}
type hbWrite struct {
	at   time.Time
	data string
}

func newHbConn() *hbConn {
	return &hbConn{in: make(chan []byte, 100), closed: make(chan struct{}), gate: make(chan struct{}, 1)}
}
func (c *hbConn) Read(p []byte) (int, error) {
	if len(c.buf) == 0 {
		c.mu.Lock()
		c.reads = append(c.reads, hbRead{at: time.Now(), deadline: c.deadline, fresh: c.setNo > 0})
		c.setNo = 0
		c.mu.Unlock()
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.buf = b
		case <-c.closed:
			return 0, errors.New("closed")
		}
	}
	n := copy(p, c.buf)
	c.buf = c.buf[n:]
	return n, nil
}
func (c *hbConn) Write(p []byte) (int, error) {
	c.gate <- struct{}{}
	<-c.gate
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.werr {
		return 0, errors.New("no")
	}
	c.writes = append(c.writes, hbWrite{time.Now(), string(p)})
	return len(p), nil
}
func (c *hbConn) Close() error                     { c.once.Do(func() { close(c.closed) }); return nil }
func (c *hbConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *hbConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *hbConn) SetDeadline(t time.Time) error    { return c.SetReadDeadline(t) }
func (c *hbConn) SetWriteDeadline(time.Time) error { return nil }
func (c *hbConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.deadline = t
	c.setNo++
	return nil
}
func (c *hbConn) snapshot() ([]hbRead, []hbWrite) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]hbRead{}, c.reads...), append([]hbWrite{}, c.writes...)
}

// waitReads waits until the connection has asked for input n times.
func (c *hbConn) waitReads(n int) []hbRead {
	for i := 0; i < 4000; i++ {
		if r, _ := c.snapshot(); len(r) >= n {
			return r
		}
		time.Sleep(time.Millisecond)
	}
	r, _ := c.snapshot()
	return r
}

func hbExpect(hs string, has bool, min time.Duration) (cx, cy int64) {
	if has {
		p := strings.SplitN(hs, ",", 2)
		cx, _ = strconv.ParseInt(p[0], 10, 64)
		cy, _ = strconv.ParseInt(p[1], 10, 64)
	}
	m := int64(min / time.Millisecond)
	if m > 999999999 {
		m = 999999999
	}
	if cx > 0 && cx < m {
		cx = m
	}
	if cy > 0 && cy < m {
		cy = m
	}
	return
}

func hbConnect(rnd *rand.Rand, hb string) []byte {
	s := []string{"CONNECT", "STOMP"}[rnd.Intn(2)] + "\naccept-version:1.2\n"
	if hb != "" {
		s += "heart-beat:" + hb + "\n"
	}
	return []byte(s + "\n\x00")
}

// hbReadRound: the deadlines of the reads.
func hbReadRound(rnd *rand.Rand) string {
	hb := ""
	if rnd.Intn(5) > 0 {
		xs := []int{0, 0, 1, 7000, 10000, 30000, 999999999}
		hb = fmt.Sprintf("%d,%d", xs[rnd.Intn(len(xs))], []int{0, 60000, 120000}[rnd.Intn(3)])
	}
	min := []time.Duration{0, 9 * time.Second, 20 * time.Second, time.Minute}[rnd.Intn(4)]
	c := newHbConn()
	req := make(chan Request, 1000)
	NewConn(vConfig{hb: min}, c, req)
	defer c.Close()
	log := []string{fmt.Sprintf("server minimum %v", min)}
	n := 1
	if len(c.waitReads(n)) < n {
		return "server does not read"
	}
	for i := rnd.Intn(2); i > 0; i-- {
		log = append(log, "end-of-line before CONNECT")
		c.in <- []byte("\n")
		n++
		c.waitReads(n)
	}
	log = append(log, fmt.Sprintf("CONNECT with heart-beat %q", hb))
	c.in <- hbConnect(rnd, hb)
	n++
	cx, _ := hbExpect(hb, hb != "", min)
	check := func() string {
		rs := c.waitReads(n)
		if len(rs) < n {
			return strings.Join(log, "; ") + ": the server does not read on"
		}
		r := rs[n-1]
		want := 2 * time.Duration(cx) * time.Millisecond
		if cx == 0 {
			if !r.deadline.IsZero() {
				return fmt.Sprintf("%s: no heart-beat was agreed, but the next read has a deadline %v away", strings.Join(log, "; "), r.deadline.Sub(r.at))
			}
			return ""
		}
		if r.deadline.IsZero() {
			return fmt.Sprintf("%s: the next read has no deadline, it should be %v away", strings.Join(log, "; "), want)
		}
		d := r.deadline.Sub(r.at) - want
		if d < -150*time.Millisecond || d > 150*time.Millisecond {
			return fmt.Sprintf("%s: the deadline of the next read is %v away, it should be %v", strings.Join(log, "; "), r.deadline.Sub(r.at), want)
		}
		return ""
	}
	if m := check(); m != "" {
		return m
	}
	for i := 0; i < 6; i++ {
		switch rnd.Intn(5) {
		case 0:
			log = append(log, "heart-beat")
			c.in <- []byte("\n")
			time.Sleep(time.Duration(rnd.Intn(2)) * 300 * time.Millisecond)
		case 4:
			// pauses count
			log = append(log, "a heart-beat after 300 ms")
			time.Sleep(300 * time.Millisecond)
			c.in <- []byte("\n")
		case 1:
			log = append(log, "SEND")
			c.in <- []byte("SEND\ndestination:/queue/a\n\nx\x00")
		case 2:
			log = append(log, "SUBSCRIBE")
			c.in <- []byte(fmt.Sprintf("SUBSCRIBE\nid:%d\ndestination:/queue/a\n\n\x00", i))
		case 3:
			// the server is busy: several frames come in while it cannot write
			k := 16 + rnd.Intn(4)
			log = append(log, fmt.Sprintf("%d frames with receipts, while writing to the client takes 300 ms", k))
			c.gate <- struct{}{}
			s := ""
			for j := 0; j < k; j++ {
				s += "SEND\ndestination:/queue/a\nreceipt:1\n\nx\x00"
			}
			c.in <- []byte(s)
			time.Sleep(300 * time.Millisecond)
			<-c.gate
		}
		n++
		if m := check(); m != "" {
			return m
		}
	}
	return ""
}

// hbWriteRound: when the server writes heart-beats.
func hbWriteRound(rnd *rand.Rand) string {
	ms := []int{60, 80, 120}[rnd.Intn(3)]
	min, cy := 0, ms
	if rnd.Intn(2) == 0 {
		min, cy = ms, 1+rnd.Intn(ms)
	}
	if rnd.Intn(6) == 0 {
		cy = 0
	}
	hb := fmt.Sprintf("%d,%d", []int{0, 30000, 300000}[rnd.Intn(3)], cy)
	_, want := hbExpect(hb, true, time.Duration(min)*time.Millisecond)
	c := newHbConn()
	req := make(chan Request, 1000)
	conn := NewConn(vConfig{hb: time.Duration(min) * time.Millisecond}, c, req)
	defer c.Close()
	log := []string{fmt.Sprintf("server minimum %d ms; CONNECT with heart-beat %q", min, hb)}
	c.in <- hbConnect(rnd, hb)
	next := func() (Request, bool) {
		select {
		case r := <-req:
			return r, true
		case <-time.After(5 * time.Second):
			return Request{}, false
		}
	}
	if r, ok := next(); !ok || r.Op != ConnectedOp {
		return "not connected"
	}
	c.in <- []byte("SUBSCRIBE\nid:1\ndestination:/queue/a\n\n\x00SUBSCRIBE\nid:2\ndestination:/queue/a\nack:client\n\n\x00SUBSCRIBE\nid:3\ndestination:/queue/a\n\n\x00UNSUBSCRIBE\nid:3\n\n\x00")
	var subs []*Subscription
	var gone *Subscription
	for i := 0; i < 4; i++ {
		r, ok := next()
		if !ok {
			return "no request for the subscriptions"
		}
		if r.Op == UnsubscribeOp {
			gone = r.Sub
		} else {
			subs = append(subs, r.Sub)
		}
	}
	msg := func() *frame.Frame {
		return frame.New(frame.MESSAGE, frame.Destination, "/queue/a")
	}
	idle := []bool{true, true}
	writes := 0 // events that may have restarted the interval are those that write
	for i := 0; i < 10; i++ {
		k := rnd.Intn(7)
		switch k {
		case 0:
			log = append(log, "a message to a topic")
			conn.Send(msg())
			writes++
		case 1:
			if idle[0] && len(subs) > 0 {
				log = append(log, "a message to an auto subscription")
				subs[0].SendQueueFrame(msg())
				next()
				writes++
			}
		case 2:
			if idle[1] && len(subs) > 1 {
				log = append(log, "a message to a client subscription")
				subs[1].SendQueueFrame(msg())
				idle[1] = false
				writes++
			}
		case 3:
			if gone != nil {
				log = append(log, "a message to a cancelled subscription")
				gone.SendQueueFrame(msg())
				gone = nil
				next()
			}
		case 4, 5:
			log = append(log, "the client sends frames for a while")
			for j := 0; j < 12; j++ {
				c.in <- []byte("SEND\ndestination:/queue/b\n\nx\x00")
				time.Sleep(time.Duration(ms) * time.Millisecond / 3)
			}
		case 6:
			log = append(log, "a pause")
			time.Sleep(time.Duration(ms*7/2) * time.Millisecond)
		}
		time.Sleep(time.Duration(rnd.Intn(ms)) * time.Millisecond)
	}
	end := time.Now()
	_, ws := c.snapshot()
	select {
	case <-c.closed:
		return strings.Join(log, "; ") + ": the server closed the connection"
	default:
	}
	iv := time.Duration(want) * time.Millisecond
	frames := 0
	for i, w := range ws {
		if w.data != "\n" {
			if strings.Trim(w.data, "\n") == "" {
				return fmt.Sprintf("%s: the server writes %q for a heart-beat", strings.Join(log, "; "), w.data)
			}
			frames++
			if strings.Contains(w.data, "MESSAGE") && strings.HasPrefix(w.data, "\n") {
				return fmt.Sprintf("%s: the server writes %q", strings.Join(log, "; "), w.data)
			}
			continue
		}
		if want == 0 {
			return strings.Join(log, "; ") + ": no heart-beat was agreed, but the server writes one"
		}
		if i > 0 && w.at.Sub(ws[i-1].at) < iv-3*time.Millisecond {
			return fmt.Sprintf("%s: a heart-beat %v after the last write, the interval is %v", strings.Join(log, "; "), w.at.Sub(ws[i-1].at), iv)
		}
	}
	if want > 0 {
		for i := range ws {
			to := end
			if i+1 < len(ws) {
				to = ws[i+1].at
			}
			if g := to.Sub(ws[i].at); g > iv*2+100*time.Millisecond {
				return fmt.Sprintf("%s: nothing was written for %v, the interval is %v", strings.Join(log, "; "), g, iv)
			}
		}
	}
	return ""
}

// a failing heart-beat ends the connection
func hbFailRound(rnd *rand.Rand) string {
	c := newHbConn()
	req := make(chan Request, 1000)
	NewConn(vConfig{}, c, req)
	defer c.Close()
	c.in <- hbConnect(rnd, "0,50")
	select {
	case <-req:
	case <-time.After(5 * time.Second):
		return "not connected"
	}
	c.mu.Lock()
	c.werr = true
	c.mu.Unlock()
	select {
	case <-c.closed:
		return ""
	case <-time.After(time.Second):
		return "CONNECT with heart-beat 0,50, then writing fails: the server does not end the connection"
	}
}

func TestVerifReplayC27(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < 24; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(seed*1000 + int64(w)))
			for i := 0; i < 6; i++ {
				var m string
				switch {
				case w%8 == 7:
					m = hbFailRound(rnd)
				case w%2 == 0:
					m = hbReadRound(rnd)
				default:
					m = hbWriteRound(rnd)
				}
				if m != "" {
					mu.Lock()
					t.Errorf("FAILING INPUT: %s", m)
					mu.Unlock()
					return
				}
			}
		}(w)
	}
	wg.Wait()
}
