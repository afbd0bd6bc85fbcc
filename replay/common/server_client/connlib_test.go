package client

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

// A server connection driven from both sides, one event at a time, next to a
// model of what it has to do. The network connection hands every write to the
// test and waits, the request channel is not buffered: the order of the events
// is the order in which the connection makes them.

type vNullLog struct{}

func (vNullLog) Debugf(string, ...interface{})   {}
func (vNullLog) Infof(string, ...interface{})    {}
func (vNullLog) Warningf(string, ...interface{}) {}
func (vNullLog) Errorf(string, ...interface{})   {}
func (vNullLog) Debug(string)                    {}
func (vNullLog) Info(string)                     {}
func (vNullLog) Warning(string)                  {}
func (vNullLog) Error(string)                    {}

type vConfig struct {
	hb   time.Duration
	auth func(l, p string) bool
}

func (c vConfig) Authenticate(l, p string) bool { return c.auth == nil || c.auth(l, p) }
func (c vConfig) HeartBeat() time.Duration      { return c.hb }
func (c vConfig) Logger() stomp.Logger          { return vNullLog{} }

type vRW struct {
	in        chan []byte
	buf       []byte
	wrote     chan []byte
	closed    chan struct{}
	once      sync.Once
	closedCh  chan struct{} // one value per Close call
	mu        sync.Mutex
	failing   bool
	deadlines []time.Duration // -1: none
	reads     []int           // number of deadlines set before each read
}

func newVRW() *vRW {
	return &vRW{in: make(chan []byte, 100), wrote: make(chan []byte), closed: make(chan struct{}), closedCh: make(chan struct{}, 10)}
}
func (c *vRW) Read(p []byte) (int, error) {
	if len(c.buf) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.buf = b
		case <-c.closed:
			return 0, errors.New("closed")
		}
	}
	n := copy(p, c.buf)
	c.buf = c.buf[n:]
	return n, nil
}
func (c *vRW) Write(p []byte) (int, error) {
	c.mu.Lock()
	f := c.failing
	c.mu.Unlock()
	if f {
		return 0, errors.New("write fails")
	}
	b := append([]byte{}, p...)
	select {
	case c.wrote <- b:
		return len(p), nil
	case <-c.closed:
		return 0, errors.New("closed")
	}
}
func (c *vRW) Close() error {
	c.once.Do(func() { close(c.closed) })
	select {
	case c.closedCh <- struct{}{}:
	default:
	}
	return nil
}
func (c *vRW) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *vRW) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *vRW) SetDeadline(t time.Time) error    { return nil }
func (c *vRW) SetWriteDeadline(time.Time) error { return nil }
func (c *vRW) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t.IsZero() {
		c.deadlines = append(c.deadlines, -1)
	} else {
		c.deadlines = append(c.deadlines, time.Until(t))
	}
	return nil
}
func (c *vRW) setFailing() {
	c.mu.Lock()
	c.failing = true
	c.mu.Unlock()
}

type vFrame struct {
	cmd  string
	hs   [][2]string
	body string
}

func (f vFrame) get(k string) (string, bool) {
	for _, h := range f.hs {
		if h[0] == k {
			return h[1], true
		}
	}
	return "", false
}
func (f vFrame) has(k string) bool { _, ok := f.get(k); return ok }
func (f vFrame) without(ks ...string) vFrame {
	g := vFrame{f.cmd, nil, f.body}
o:
	for _, h := range f.hs {
		for _, k := range ks {
			if h[0] == k {
				continue o
			}
		}
		g.hs = append(g.hs, h)
	}
	return g
}

var vEsc = strings.NewReplacer("\\", "\\\\", "\r", "\\r", "\n", "\\n", ":", "\\c")
var vUnesc = strings.NewReplacer("\\\\", "\\", "\\r", "\r", "\\n", "\n", "\\c", ":")

func (f vFrame) bytes() []byte {
	s := f.cmd + "\n"
	for _, h := range f.hs {
		s += vEsc.Replace(h[0]) + ":" + vEsc.Replace(h[1]) + "\n"
	}
	return []byte(s + "\n" + f.body + "\x00")
}

func (f vFrame) String() string {
	s := f.cmd
	for _, h := range f.hs {
		s += " " + strconv.Quote(h[0]+":"+h[1])
	}
	if f.body != "" {
		s += " body=" + strconv.Quote(f.body)
	}
	return s
}

// vParse takes the first frame off the bytes a server wrote ("" = end-of-line).
func vParse(s string) (f vFrame, rest string, ok bool) {
	if strings.HasPrefix(s, "\n") {
		return vFrame{}, s[1:], true
	}
	i := strings.Index(s, "\n\n")
	if i < 0 {
		return f, s, false
	}
	ls := strings.Split(s[:i], "\n")
	f.cmd = ls[0]
	n := -1
	for _, l := range ls[1:] {
		j := strings.Index(l, ":")
		if j < 0 {
			j = len(l) - 1
		}
		h := [2]string{vUnesc.Replace(l[:j]), vUnesc.Replace(l[j+1:])}
		if h[0] == "content-length" && n < 0 {
			if x, err := strconv.Atoi(h[1]); err == nil {
				n = x
			}
		}
		f.hs = append(f.hs, h)
	}
	s = s[i+2:]
	if n < 0 {
		n = strings.IndexByte(s, 0)
		if n < 0 {
			return f, "", false
		}
	}
	if len(s) < n+1 {
		return f, "", false
	}
	f.body = s[:n]
	return f, s[n+1:], true
}

func vFromFrame(f *frame.Frame) vFrame {
	if f == nil {
		return vFrame{cmd: "nil-frame"}
	}
	g := vFrame{cmd: f.Command, body: string(f.Body)}
	if f.Header != nil {
		for i := 0; i < f.Header.Len(); i++ {
			k, v := f.Header.GetAt(i)
			g.hs = append(g.hs, [2]string{k, v})
		}
	}
	return g
}

type vSub struct {
	id, dest, ack string
	ptr           *Subscription
	n             int
	active        bool // the connection has it
	waiting       bool // ready for a message, in the eyes of the upper layer
}

type vOut struct {
	s  *vSub
	no uint64
	f  vFrame
}

type vH struct {
	rnd     *rand.Rand
	rw      *vRW
	req     chan Request
	c       *Conn
	log     []string
	acc     string
	phase   int // 0 not connected, 1 connected, 2 ended
	version string
	txs     map[string][]vFrame
	subs    map[string]*vSub
	all     []*vSub
	out     []vOut
	last    uint64
	hb      int // server's minimum, in milliseconds
	cfg     vConfig
	serial  int
	failed  string
}

type vFail struct{ s string }

func (h *vH) fail(f string, a ...interface{}) {
	panic(vFail{strings.Join(h.log, "; ") + ": " + fmt.Sprintf(f, a...)})
}

func newVH(rnd *rand.Rand, cfg vConfig) *vH {
	h := &vH{rnd: rnd, rw: newVRW(), req: make(chan Request), txs: map[string][]vFrame{}, subs: map[string]*vSub{}, cfg: cfg, hb: int(cfg.hb / time.Millisecond)}
	h.c = NewConn(cfg, h.rw, h.req)
	return h
}

// event: what the connection does next
type vEvent struct {
	kind string // write, req, close, none
	f    vFrame
	r    Request
}

func (h *vH) next(d time.Duration) vEvent {
	if f, rest, ok := vParse(h.acc); h.acc != "" && ok {
		h.acc = rest
		return vEvent{kind: "write", f: f}
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	for {
		select {
		case b := <-h.rw.wrote:
			h.acc += string(b)
			if f, rest, ok := vParse(h.acc); ok {
				h.acc = rest
				return vEvent{kind: "write", f: f}
			}
		case r := <-h.req:
			return vEvent{kind: "req", r: r}
		case <-h.rw.closedCh:
			return vEvent{kind: "close"}
		case <-tm.C:
			return vEvent{kind: "none"}
		}
	}
}

func (h *vH) sub(s *Subscription) *vSub {
	for _, x := range h.all {
		if x.ptr == s {
			return x
		}
	}
	return nil
}

func vKeys(f vFrame) string {
	m := map[string]bool{}
	var ks []string
	for _, x := range f.hs {
		if !m[x[0]] {
			m[x[0]] = true
			ks = append(ks, strconv.Quote(x[0]+":"+x[1]))
		}
	}
	sort.Strings(ks)
	return f.cmd + " " + strings.Join(ks, " ") + " body=" + strconv.Quote(f.body)
}

// canonical text of an event
func (h *vH) show(e vEvent) string {
	switch e.kind {
	case "write":
		f := e.f
		switch f.cmd {
		case "":
			return "write EOL"
		case "ERROR":
			r, ok := f.get("receipt-id")
			if !f.has("message") {
				return "write ERROR without message"
			}
			if ok {
				return "write ERROR receipt-id=" + strconv.Quote(r)
			}
			return "write ERROR"
		case "CONNECTED":
			return "write " + vKeys(f.without("server", "session"))
		}
		return "write " + vKeys(f)
	case "req":
		r := e.r
		switch r.Op {
		case SubscribeOp, UnsubscribeOp:
			nm := map[RequestOp]string{SubscribeOp: "subscribe", UnsubscribeOp: "unsubscribe"}[r.Op]
			if r.Sub == nil {
				return nm + " nil"
			}
			s := h.sub(r.Sub)
			if s == nil {
				return fmt.Sprintf("%s new id=%q dest=%q ack=%q", nm, r.Sub.Id(), r.Sub.Destination(), r.Sub.Ack())
			}
			return fmt.Sprintf("%s S%d", nm, s.n)
		case EnqueueOp:
			return "enqueue " + vFromFrame(r.Frame).String()
		case RequeueOp:
			return "requeue " + vBase(vFromFrame(r.Frame))
		case ConnectedOp:
			if r.Conn != h.c {
				return "connected other"
			}
			return "connected"
		case DisconnectedOp:
			if r.Conn != h.c {
				return "disconnected other"
			}
			return "disconnected"
		}
		return "request " + r.Op.String()
	}
	return e.kind
}

// vBase: a message without what the server adds on delivery
func vBase(f vFrame) string {
	return vKeys(f.without("message-id", "id", "ack", "subscription"))
}

func (h *vH) expect(want ...string) {
	for _, w := range want {
		e := h.next(10 * time.Second)
		got := h.show(e)
		if strings.HasPrefix(w, "subscribe new ") && got == w {
			s := h.all[len(h.all)-1]
			if s.ptr != nil {
				h.fail("internal: no new subscription expected")
			}
			s.ptr = e.r.Sub
			s.waiting = true
			continue
		}
		if got != w {
			h.fail("expected %s, got %s", w, got)
		}
		if strings.HasPrefix(w, "subscribe S") {
			h.sub(e.r.Sub).waiting = true
		}
		if strings.HasPrefix(w, "unsubscribe S") {
			h.sub(e.r.Sub).waiting = false
		}
	}
}

func (h *vH) note(f string, a ...interface{}) {
	h.log = append(h.log, fmt.Sprintf(f, a...))
}

func receiptEv(id string) string {
	return "write " + vKeys(vFrame{cmd: "RECEIPT", hs: [][2]string{{"receipt-id", id}}})
}
func errEv(f vFrame) string {
	if r, ok := f.get("receipt"); ok {
		return "write ERROR receipt-id=" + strconv.Quote(r)
	}
	return "write ERROR"
}

func vDec(s string) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
	}
	n, err := strconv.ParseUint(s, 10, 64)
	return n, err == nil
}

func (h *vH) ackName(f vFrame) (uint64, bool) {
	if v, ok := f.get("ack"); ok {
		return vDec(v)
	}
	if v, ok := f.get("id"); ok && h.version == "1.2" {
		return vDec(v)
	}
	if v, ok := f.get("message-id"); ok {
		return vDec(v)
	}
	return 0, false
}

func vHB(f vFrame) (int, int, bool) {
	v, ok := f.get("heart-beat")
	if !ok {
		return 0, 0, true
	}
	p := strings.Split(v, ",")
	if len(p) != 2 || len(p[0]) > 9 || len(p[1]) > 9 {
		return 0, 0, false
	}
	a, ok1 := vDec(p[0])
	b, ok2 := vDec(p[1])
	return int(a), int(b), ok1 && ok2
}

// handle: the events a frame has to cause, and whether it is refused
func (h *vH) handle(f vFrame) (ev []string, refused bool, rest vFrame) {
	if h.phase == 0 {
		if f.cmd != "CONNECT" && f.cmd != "STOMP" || f.has("receipt") {
			return nil, true, f
		}
		l, _ := f.get("login")
		p, _ := f.get("passcode")
		if !h.cfg.Authenticate(l, p) {
			return nil, true, f
		}
		v := ""
		if av, ok := f.get("accept-version"); ok {
			for _, x := range strings.Split(av, ",") {
				if (x == "1.1" || x == "1.2") && x > v {
					v = x
				}
			}
		}
		cx, cy, ok := vHB(f)
		if v == "" || !ok {
			return nil, true, f
		}
		if cx > 0 && cx < h.hb {
			cx = h.hb
		}
		if cy > 0 && cy < h.hb {
			cy = h.hb
		}
		h.phase, h.version = 1, v
		return []string{"write " + vKeys(vFrame{cmd: "CONNECTED", hs: [][2]string{{"version", v}, {"heart-beat", fmt.Sprintf("%d,%d", cy, cx)}}}), "connected"}, false, f
	}
	receipt := func() {
		if r, ok := f.get("receipt"); ok {
			ev = append(ev, receiptEv(r))
			f = f.without("receipt")
		}
	}
	tx, inTx := f.get("transaction")
	switch f.cmd {
	case "DISCONNECT":
		receipt()
		return ev, false, f
	case "BEGIN", "COMMIT", "ABORT":
		if !inTx {
			return nil, true, f
		}
		receipt()
		l, open := h.txs[tx]
		if open == (f.cmd == "BEGIN") {
			return ev, true, f
		}
		delete(h.txs, tx)
		if f.cmd == "BEGIN" {
			h.txs[tx] = []vFrame{}
		}
		if f.cmd == "COMMIT" {
			for _, g := range l {
				e, bad, r := h.handle(g)
				ev = append(ev, e...)
				if bad {
					h.fail("internal: a kept frame is refused: %v", r)
				}
			}
		}
		return ev, false, f
	case "SEND", "ACK", "NACK":
		no := uint64(0)
		if f.cmd == "SEND" {
			if !f.has("destination") {
				return nil, true, f
			}
		} else {
			n, ok := h.ackName(f)
			if !ok {
				return nil, true, f
			}
			no = n
		}
		receipt()
		if inTx {
			if _, ok := h.txs[tx]; !ok {
				return ev, true, f
			}
			h.txs[tx] = append(h.txs[tx], f.without("transaction"))
			return ev, false, f
		}
		if f.cmd == "SEND" {
			g := f
			g.cmd = "MESSAGE"
			return append(ev, "enqueue "+g.String()), false, f
		}
		var keep []vOut
		for _, o := range h.out {
			hit := o.no == no
			if f.cmd == "ACK" && o.s.ack == "client" {
				hit = o.no <= no
			}
			if !hit {
				keep = append(keep, o)
				continue
			}
			if f.cmd == "NACK" {
				ev = append(ev, "requeue "+vBase(o.f))
			}
			if o.s.active {
				ev = append(ev, fmt.Sprintf("subscribe S%d", o.s.n))
			}
		}
		h.out = keep
		return ev, false, f
	case "SUBSCRIBE":
		id, ok := f.get("id")
		dest, ok2 := f.get("destination")
		ack, ok3 := f.get("ack")
		if !ok3 {
			ack = "auto"
		}
		if !ok || !ok2 || ack != "auto" && ack != "client" && ack != "client-individual" || h.subs[id] != nil {
			return nil, true, f
		}
		receipt()
		s := &vSub{id: id, dest: dest, ack: ack, n: len(h.all), active: true}
		h.all = append(h.all, s)
		h.subs[id] = s
		return append(ev, fmt.Sprintf("subscribe new id=%q dest=%q ack=%q", id, dest, ack)), false, f
	case "UNSUBSCRIBE":
		id, ok := f.get("id")
		s := h.subs[id]
		if !ok || s == nil {
			return nil, true, f
		}
		receipt()
		delete(h.subs, id)
		s.active = false
		return append(ev, fmt.Sprintf("unsubscribe S%d", s.n)), false, f
	}
	return nil, true, f
}

// send gives the connection a frame and checks what it does
func (h *vH) send(f vFrame) {
	h.note("client sends %v", f)
	h.rw.in <- f.bytes()
	ev, bad, rest := h.handle(f)
	if bad {
		ev = append(ev, errEv(rest))
	}
	h.expect(ev...)
	if bad {
		h.end(nil)
	} else if len(ev) == 0 {
		h.barrier()
	}
}

// barrier waits until the connection has handled everything so far
func (h *vH) barrier() {
	f := vFrame{cmd: "SEND", hs: [][2]string{{"destination", "/queue/barrier"}}}
	h.rw.in <- f.bytes()
	f.cmd = "MESSAGE"
	h.expect("enqueue " + f.String())
}

// message: what a delivery writes
func (h *vH) message(f vFrame, s *vSub, queue bool) string {
	h.last++
	n := strconv.FormatUint(h.last, 10)
	g := f.without("message-id", "id", "ack", "subscription")
	g.hs = append(g.hs, [2]string{"message-id", n}, [2]string{"id", n}, [2]string{"subscription", s.id})
	if queue && s.ack != "auto" {
		g.hs = append(g.hs, [2]string{"ack", n})
	}
	return "write " + vKeys(g)
}

func (h *vH) newMessage(dest string) (vFrame, *frame.Frame) {
	h.serial++
	f := vFrame{cmd: "MESSAGE", hs: [][2]string{{"destination", dest}}, body: fmt.Sprint("m", h.serial)}
	if h.rnd.Intn(4) == 0 {
		f.hs = append(f.hs, [2]string{"x", "y:z"})
	}
	if h.rnd.Intn(4) == 0 {
		// a message that was delivered before
		f.hs = append(f.hs, [2]string{"message-id", "77"}, [2]string{"ack", "78"}, [2]string{"subscription", "old"}, [2]string{"id", "79"})
	}
	g := frame.New("MESSAGE")
	for _, x := range f.hs {
		g.Header.Add(x[0], x[1])
	}
	g.Body = []byte(f.body)
	return f, g
}

// deliver: the upper layer gives a waiting subscription a message
func (h *vH) deliver(s *vSub) {
	f, g := h.newMessage(s.dest)
	h.note("S%d (id=%s, %s) gets the message %s", s.n, s.id, s.ack, f.body)
	s.waiting = false
	s.ptr.SendQueueFrame(g)
	if !s.active {
		h.expect("requeue " + vBase(f))
		return
	}
	h.expect(h.message(f, s, true))
	if s.ack == "auto" {
		h.expect(fmt.Sprintf("subscribe S%d", s.n))
	} else {
		h.out = append(h.out, vOut{s, h.last, f})
	}
}

func (h *vH) topic(s *vSub) {
	f, g := h.newMessage(s.dest)
	h.note("S%d (id=%s, %s) gets the topic message %s", s.n, s.id, s.ack, f.body)
	s.ptr.SendTopicFrame(g)
	h.expect(h.message(f, s, false))
}

// end checks the clean-up. pending: messages handed to the connection that it
// may or may not have written yet.
func (h *vH) end(pending []vOut) {
	h.phase = 2
	want := map[string]int{}
	for _, s := range h.subs {
		want[fmt.Sprintf("unsubscribe S%d", s.n)]++
	}
	requeue := map[string]int{}
	for _, o := range h.out {
		requeue[vBase(o.f)]++
	}
	written := map[string]bool{}
	disc := false
	for {
		e := h.next(10 * time.Second)
		got := h.show(e)
		switch {
		case got == "close":
			if !disc {
				h.fail("closed before the disconnection was announced")
			}
			for w, n := range want {
				if n != 0 {
					h.fail("clean-up did not: %s", w)
				}
			}
			for w, n := range requeue {
				if n != 0 {
					h.fail("message not given back: %s", w)
				}
			}
			for _, o := range pending {
				if n := requeue[vBase(o.f)]; n == 0 && !(written[vBase(o.f)] && o.s.ack == "auto") && o.no == 0 {
					h.fail("message lost: %s", vBase(o.f))
				}
			}
			// nothing comes after that
			if e := h.next(3 * time.Millisecond); e.kind != "none" {
				h.fail("after the end: %s", h.show(e))
			}
			return
		case got == "disconnected":
			if disc {
				h.fail("disconnected twice")
			}
			disc = true
		case want[got] > 0:
			want[got]--
			if h.rnd.Intn(2) == 0 {
				// another subscription gets a message before its cancellation has arrived
				for _, s := range h.all {
					if s.ptr != nil && s.active && s.waiting && want[fmt.Sprintf("unsubscribe S%d", s.n)] > 0 && h.rnd.Intn(2) == 0 {
						f, g := h.newMessage(s.dest)
						h.note("during the clean-up S%d gets %s", s.n, f.body)
						s.waiting = false
						s.ptr.SendQueueFrame(g)
						requeue[vBase(f)]++
					}
				}
			}
		case strings.HasPrefix(got, "requeue ") && requeue[got[8:]] > 0:
			for w, n := range want {
				if n > 0 {
					h.fail("%s before %s", got, w)
				}
			}
			requeue[got[8:]]--
		default:
			ok := false
			for i := range pending {
				o := &pending[i]
				b := vBase(o.f)
				if strings.HasPrefix(got, "write MESSAGE ") && vBase(e.f) == b && !written[b] && o.no == 0 {
					written[b] = true
					if o.s.ack != "auto" {
						requeue[b]++
						o.no = 1
					}
					ok = true
					break
				}
				if got == fmt.Sprintf("subscribe S%d", o.s.n) && written[b] && o.s.ack == "auto" && o.no == 0 {
					o.no = 3
					ok = true
					break
				}
				if got == "requeue "+b && !written[b] && o.no == 0 {
					o.no = 2
					ok = true
					break
				}
			}
			if !ok {
				h.fail("during the clean-up: unexpected %s (still to come: %v %v)", got, want, requeue)
			}
		}
	}
}

func (h *vH) hangup() {
	h.note("client hangs up")
	close(h.rw.in)
	h.end(nil)
}

// hangup while messages are on their way
func (h *vH) hangupLoaded() {
	// hold the connection at a request
	f := vFrame{cmd: "SEND", hs: [][2]string{{"destination", "/queue/z"}}, body: "hold"}
	h.note("client sends %v and hangs up, meanwhile", f)
	h.rw.in <- f.bytes()
	close(h.rw.in)
	time.Sleep(time.Millisecond)
	var pending []vOut
	for _, s := range h.all {
		if s.ptr != nil && s.active && s.waiting && h.rnd.Intn(3) > 0 {
			f, g := h.newMessage(s.dest)
			h.note("S%d (%s) gets %s", s.n, s.ack, f.body)
			s.waiting = false
			s.ptr.SendQueueFrame(g)
			pending = append(pending, vOut{s: s, f: f})
		}
	}
	f.cmd = "MESSAGE"
	// the frame may be handled before or after the messages
	e := h.next(10 * time.Second)
	for h.show(e) != "enqueue "+f.String() {
		got := h.show(e)
		ok := false
		for i := range pending {
			o := &pending[i]
			if strings.HasPrefix(got, "write MESSAGE ") && vBase(e.f) == vBase(o.f) && o.no == 0 {
				ok = true
				o.no = 1
				if o.s.ack != "auto" {
					h.out = append(h.out, *o)
				} else {
					e = h.next(10 * time.Second)
					if h.show(e) != fmt.Sprintf("subscribe S%d", o.s.n) {
						h.fail("expected subscribe S%d, got %s", o.s.n, h.show(e))
					}
					o.no = 3
				}
				break
			}
		}
		if !ok {
			h.fail("expected enqueue, got %s", got)
		}
		e = h.next(10 * time.Second)
	}
	h.end(pending)
}

// the network connection breaks while a message is being written
func (h *vH) breakWrite() {
	for _, s := range h.all {
		if s.ptr != nil && s.active && s.waiting {
			h.rw.setFailing()
			f, g := h.newMessage(s.dest)
			h.note("writes fail and S%d (%s) gets %s", s.n, s.ack, f.body)
			s.waiting = false
			s.ptr.SendQueueFrame(g)
			h.out = append(h.out, vOut{s, 0, f})
			h.end(nil)
			return
		}
	}
}

type vOpts struct {
	rounds  int
	steps   int
	connect string // "": a good CONNECT, "any": anything
	gen     func(h *vH) // one step
	finish  func(h *vH)
	cfg     func(r *rand.Rand) vConfig
}

func verifConn(t *testing.T, o vOpts) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stop := false
	const workers = 16
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(seed*1000 + int64(w)))
			for round := w; round < o.rounds; round += workers {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					return
				}
				msg := vRound(rnd, o)
				if msg != "" {
					mu.Lock()
					if !stop {
						t.Errorf("FAILING INPUT: %s", msg)
					}
					stop = true
					mu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
}

func vRound(rnd *rand.Rand, o vOpts) (msg string) {
	cfg := vConfig{}
	if o.cfg != nil {
		cfg = o.cfg(rnd)
	}
	h := newVH(rnd, cfg)
	defer func() {
		if p := recover(); p != nil {
			if f, ok := p.(vFail); ok {
				msg = f.s
			} else {
				msg = fmt.Sprint(strings.Join(h.log, "; "), ": panic ", p)
			}
		}
		if h.phase != 2 || msg != "" {
			// let the connection go
			h.rw.Close()
			go func() {
				for {
					if e := h.next(time.Second); e.kind == "none" {
						return
					}
				}
			}()
		}
	}()
	if o.connect == "" {
		v := []string{"1.1", "1.2"}[rnd.Intn(2)]
		h.send(vFrame{cmd: "CONNECT", hs: [][2]string{{"accept-version", v}}})
	}
	for i := 0; i < o.steps && h.phase != 2; i++ {
		o.gen(h)
	}
	if h.phase != 2 {
		if o.finish != nil {
			o.finish(h)
		} else {
			h.hangup()
		}
	}
	return ""
}

// ---- pieces of scripts

func (h *vH) pick(xs ...string) string { return xs[h.rnd.Intn(len(xs))] }

func (h *vH) maybe(f *vFrame, p int, k string, v string) {
	if h.rnd.Intn(100) < p {
		i := h.rnd.Intn(len(f.hs) + 1)
		f.hs = append(f.hs, [2]string{})
		copy(f.hs[i+1:], f.hs[i:])
		f.hs[i] = [2]string{k, v}
	}
}

func (h *vH) vSend() vFrame {
	h.serial++
	f := vFrame{cmd: "SEND", body: fmt.Sprint("b", h.serial)}
	h.maybe(&f, 100, "destination", h.pick("/queue/a", "/topic/b", "/queue/c"))
	h.maybe(&f, 20, "x", h.pick("1", "a:b", ""))
	return f
}
func (h *vH) vSubscribe() vFrame {
	f := vFrame{cmd: "SUBSCRIBE"}
	for i := 0; i < 20; i++ {
		id := h.pick("1", "2", "3", "4", "5")
		if h.subs[id] == nil {
			h.maybe(&f, 100, "id", id)
			break
		}
	}
	if len(f.hs) == 0 {
		return h.vUnsubscribe()
	}
	h.maybe(&f, 100, "destination", h.pick("/queue/a", "/queue/b"))
	h.maybe(&f, 85, "ack", h.pick("auto", "client", "client-individual"))
	return f
}
func (h *vH) vUnsubscribe() vFrame {
	f := vFrame{cmd: "UNSUBSCRIBE"}
	for _, id := range []string{"1", "2", "3", "4", "5"} {
		if h.subs[id] != nil && h.rnd.Intn(2) == 0 {
			h.maybe(&f, 100, "id", id)
			return f
		}
	}
	for _, id := range []string{"1", "2", "3", "4", "5"} {
		if h.subs[id] != nil {
			h.maybe(&f, 100, "id", id)
			return f
		}
	}
	return h.vSend()
}
func (h *vH) vAck(cmd string) vFrame {
	f := vFrame{cmd: cmd}
	n := uint64(h.rnd.Intn(int(h.last) + 3))
	if len(h.out) > 0 && h.rnd.Intn(3) > 0 {
		n = h.out[h.rnd.Intn(len(h.out))].no
	}
	switch h.rnd.Intn(40) {
	case 0:
		n = ^uint64(0)
	case 1:
		n += 1 << 32
	case 2:
		n += 1 << 63
	case 3:
		n += 1 << uint(h.rnd.Intn(60))
	}
	s := strconv.FormatUint(n, 10)
	if h.rnd.Intn(30) == 0 {
		s = "00" + s
	}
	k := h.pick("ack", "id", "message-id")
	if k == "id" && h.version != "1.2" {
		k = "message-id"
		h.maybe(&f, 50, "id", "999")
	}
	h.maybe(&f, 100, k, s)
	h.maybe(&f, 30, "subscription", h.pick("1", "2"))
	if k == "ack" {
		h.maybe(&f, 20, "message-id", "12345")
		h.maybe(&f, 20, "id", "12345")
	}
	return f
}
func (h *vH) vTx() string {
	if h.rnd.Intn(4) > 0 {
		return h.pick("t1", "t2")
	}
	return h.pick("T1", "", "t1.1", "t1.2", "t11", "t", " t1", "t1/a", "t2-1", "a:b", "0")
}
func (h *vH) openTx() (string, bool) {
	var ks []string
	for k := range h.txs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "", false
	}
	return ks[h.rnd.Intn(len(ks))], true
}
func (h *vH) waiting() *vSub {
	var ws []*vSub
	for _, s := range h.all {
		if s.ptr != nil && s.waiting && s.active {
			ws = append(ws, s)
		}
	}
	if len(ws) == 0 {
		return nil
	}
	return ws[h.rnd.Intn(len(ws))]
}

// cancelled: unsubscribe a subscription and let a message arrive just after
func (h *vH) cancelled() {
	s := h.waiting()
	if s == nil {
		return
	}
	h.send(vFrame{cmd: "UNSUBSCRIBE", hs: [][2]string{{"id", s.id}}})
	if h.rnd.Intn(2) == 0 {
		// and another one takes over the id
		h.send(vFrame{cmd: "SUBSCRIBE", hs: [][2]string{{"id", s.id}, {"destination", h.pick(s.dest, "/queue/other")}, {"ack", h.pick("auto", "client", "client-individual")}}})
	}
	h.deliver(s)
}
