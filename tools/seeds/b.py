LIB = r'''package client

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
)

type qlog struct{}

func (qlog) Debugf(string, ...interface{})   {}
func (qlog) Infof(string, ...interface{})    {}
func (qlog) Warningf(string, ...interface{}) {}
func (qlog) Errorf(string, ...interface{})   {}
func (qlog) Debug(string)                    {}
func (qlog) Info(string)                     {}
func (qlog) Warning(string)                  {}
func (qlog) Error(string)                    {}

type dcfg struct{ hb time.Duration }

func (dcfg) Authenticate(l, p string) bool { return l != "bad" }
func (c dcfg) HeartBeat() time.Duration    { return c.hb }
func (dcfg) Logger() stomp.Logger          { return qlog{} }

// a connection of which every write and request is seen in order
type drw struct {
	in, wrote chan []byte
	buf       []byte
	closed    chan struct{}
	once      sync.Once
	mu        sync.Mutex
	fail      bool
	dl        []time.Duration
	dl2       []time.Time
}

func (c *drw) Read(p []byte) (int, error) {
	if len(c.buf) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.buf = b
		case <-c.closed:
			return 0, errors.New("closed")
		}
	}
	n := copy(p, c.buf)
	c.buf = c.buf[n:]
	return n, nil
}
func (c *drw) Write(p []byte) (int, error) {
	c.mu.Lock()
	fail := c.fail
	c.mu.Unlock()
	if fail {
		return 0, errors.New("write fails")
	}
	select {
	case c.wrote <- append([]byte{}, p...):
		return len(p), nil
	case <-c.closed:
		return 0, errors.New("closed")
	}
}
func (c *drw) Close() error                     { c.once.Do(func() { close(c.closed) }); return nil }
func (c *drw) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *drw) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *drw) SetDeadline(time.Time) error      { return nil }
func (c *drw) SetWriteDeadline(time.Time) error { return nil }
func (c *drw) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.dl2 = append(c.dl2, t)
	if t.IsZero() {
		c.dl = append(c.dl, 0)
	} else {
		c.dl = append(c.dl, time.Until(t))
	}
	return nil
}

type dc struct {
	t    *testing.T
	rw   *drw
	reqs chan Request
	c    *Conn
	last Request
}

func dial(t *testing.T, cfg Config) *dc {
	d := &dc{t: t, rw: &drw{in: make(chan []byte, 100), wrote: make(chan []byte), closed: make(chan struct{})}, reqs: make(chan Request)}
	d.c = NewConn(cfg, d.rw, d.reqs)
	return d
}

// send sends a frame given as "COMMAND|header|header" (no body)
func (d *dc) send(s string) {
	p := strings.Split(s, "|")
	d.rw.in <- []byte(strings.Join(p, "\n") + "\n\n\x00")
}

// ev is the next thing the connection does
func (d *dc) ev() string {
	select {
	case b := <-d.rw.wrote:
		s := strings.TrimSuffix(string(b), "\x00")
		if s == "\n" {
			return "W heartbeat"
		}
		i := strings.Index(s, "\n\n")
		return "W " + strings.ReplaceAll(s[:i], "\n", "|")
	case r := <-d.reqs:
		d.last = r
		switch r.Op {
		case SubscribeOp:
			return "Q subscribe " + r.Sub.id + " " + r.Sub.dest
		case UnsubscribeOp:
			return "Q unsubscribe " + r.Sub.id
		case EnqueueOp, RequeueOp:
			n := ""
			if v, ok := r.Frame.Header.Contains("n"); ok {
				n = " n=" + v
			}
			return fmt.Sprint(map[RequestOp]string{EnqueueOp: "Q enqueue ", RequeueOp: "Q requeue "}[r.Op], r.Frame.Header.Get("destination"), n)
		case ConnectedOp:
			return "Q connected"
		case DisconnectedOp:
			return "Q disconnected"
		}
		return "Q ?"
	case <-time.After(600 * time.Millisecond):
		return "-"
	}
}
func (d *dc) want(ss ...string) {
	d.t.Helper()
	for _, s := range ss {
		if e := d.ev(); e != s && !(strings.HasSuffix(s, "*") && strings.HasPrefix(e, s[:len(s)-1])) {
			d.t.Errorf("got %q, want %q", e, s)
			d.end()
			d.t.FailNow()
		}
	}
}
func (d *dc) connect(ver string) {
	d.t.Helper()
	d.send("CONNECT|accept-version:" + ver + "|host:h")
	d.want("W CONNECTED*", "Q connected")
}
func (d *dc) end() {
	d.rw.Close()
	go func() {
		for {
			select {
			case <-d.reqs:
			case <-time.After(2 * time.Second):
				return
			}
		}
	}()
}

// deliver hands a message to the subscription that the last request carried
func (d *dc) deliver(sub *Subscription, n string) {
	sub.SendQueueFrame(frame.New(frame.MESSAGE, frame.Destination, sub.dest, "n", n))
}

var _ = os.Stdout

func TestDemo(t *testing.T) {
	d := dial(t, dcfg{})
	defer d.end()
'''
def T(body): return LIB + body.strip('\n') + '\n}\n'
C = 'server/client/conn.go'
SEEDS = [
dict(id='C09-receipt-kept-in-tx', property='C09', pkg='server/client', edits=[(C, '''		f.Header.Del(frame.Receipt)
		return c''', '''		if _, held := f.Header.Contains(frame.Transaction); !held {
			f.Header.Del(frame.Receipt)
		}
		return c''')],
 needs='a frame with both a transaction and a receipt header, followed by the commit of that transaction',
 breaks='the commit confirms the frame a second time', test=T('''
	d.connect("1.1")
	d.send("BEGIN|transaction:a")
	d.send("SEND|destination:/queue/x|transaction:a|receipt:r1")
	d.want("W RECEIPT|receipt-id:r1")
	d.send("COMMIT|transaction:a")
	d.want("Q enqueue /queue/x", "-")
''')),
dict(id='C09-receipt-after-nack', property='C09', pkg='server/client', edits=[(C, '''	// Send a receipt and remove the header
	err = c.sendReceiptImmediately(f)
	if err != nil {
		return err
	}

	if tx, ok := f.Header.Contains(frame.Transaction); ok {
		// the transaction header is removed from the frame
		err = c.txStore.Add(tx, f)
		if err != nil {
			return err
		}
	} else {
		// handle any subscriptions that are acknowledged by this msg
		c.subList.Nack(''', '''	tx, held := f.Header.Contains(frame.Transaction)
	if held {
		// Send a receipt and remove the header
		err = c.sendReceiptImmediately(f)
		if err != nil {
			return err
		}

		// the transaction header is removed from the frame
		return c.txStore.Add(tx, f)
	} else {
		// confirm once the message is back in its queue
		defer c.sendReceiptImmediately(f)

		// handle any subscriptions that are acknowledged by this msg
		c.subList.Nack(''')],
 needs='a NACK with a receipt header outside a transaction, for an outstanding message',
 breaks='the RECEIPT follows the requeue instead of preceding it', test=T('''
	d.connect("1.1")
	d.send("SUBSCRIBE|id:1|destination:/queue/x|ack:client")
	d.want("Q subscribe 1 /queue/x")
	d.deliver(d.last.Sub, "1")
	d.want("W MESSAGE*")
	d.send("NACK|subscription:1|message-id:1|receipt:r")
	d.want("W RECEIPT|receipt-id:r", "Q requeue /queue/x n=1", "Q subscribe 1 /queue/x", "-")
''')),
dict(id='C09-duplicate-receipt-header', property='C09', pkg='server/client', edits=[(C, '''		f.Header.Del(frame.Receipt)
		return c''', '''		for i := 0; i < f.Header.Len(); i++ {
			if k, _ := f.Header.GetAt(i); k == frame.Receipt {
				// take just this one out and keep the others in order
				rest := frame.NewHeader()
				for j := 0; j < f.Header.Len(); j++ {
					if j != i {
						rest.Add(f.Header.GetAt(j))
					}
				}
				f.Header = rest
				break
			}
		}
		return c''')],
 needs='a SEND in a transaction with two receipt headers, and the commit',
 breaks='a repeated receipt header survives and is confirmed at commit', test=T('''
	d.connect("1.2")
	d.send("BEGIN|transaction:a")
	d.send("SEND|destination:/queue/x|receipt:r1|transaction:a|receipt:r2")
	d.want("W RECEIPT|receipt-id:r1")
	d.send("COMMIT|transaction:a")
	d.want("Q enqueue /queue/x", "-")
''')),
dict(id='C10-nack-first', property='C10', pkg='server/client', edits=[('server/client/tx_store.go', '''		list.PushBack(f)
''', '''		if front := list.Front(); f.Command == frame.NACK && front != nil && front.Value.(*frame.Frame).Command == frame.ACK {
			// an early NACK must not be overtaken by a cumulative ACK
			list.PushFront(f)
		} else {
			list.PushBack(f)
		}
''')],
 needs='a transaction that holds an ACK first and a NACK later, committed', breaks='the NACK is processed before the frames that arrived before it', test=T('''
	d.connect("1.1")
	d.send("SUBSCRIBE|id:1|destination:/queue/x|ack:client-individual")
	d.want("Q subscribe 1 /queue/x")
	s1 := d.last.Sub
	d.send("SUBSCRIBE|id:2|destination:/queue/y|ack:client-individual")
	d.want("Q subscribe 2 /queue/y")
	s2 := d.last.Sub
	d.deliver(s1, "1")
	d.want("W MESSAGE*")
	d.deliver(s2, "2")
	d.want("W MESSAGE*")
	d.send("BEGIN|transaction:a")
	d.send("ACK|subscription:1|message-id:1|transaction:a")
	d.send("SEND|destination:/queue/z|transaction:a")
	d.send("NACK|subscription:2|message-id:2|transaction:a")
	d.send("COMMIT|transaction:a")
	d.want("Q subscribe 1 /queue/x", "Q enqueue /queue/z", "Q requeue /queue/y n=2", "Q subscribe 2 /queue/y")
''')),
dict(id='C10-abort-clears-nested', property='C10', pkg='server/client', edits=[('server/client/tx_store.go', '''		list.Init()
		delete(txs.transactions, tx)
		return nil
	}
	return txUnknown
}

// Commit''', '''		list.Init()
		delete(txs.transactions, tx)
		// frames that later transactions took over from this one go with it
		for id, l := range txs.transactions {
			if len(id) > len(tx) && id[:len(tx)] == tx && id[len(tx)] == '.' {
				l.Init()
			}
		}
		return nil
	}
	return txUnknown
}

// Commit''')],
 needs='two open transactions, the id of one being the id of the other followed by a dot and more, and an abort of the shorter',
 breaks='the abort discards the frames of the other transaction', test=T('''
	d.connect("1.1")
	d.send("BEGIN|transaction:a")
	d.send("BEGIN|transaction:a.1")
	d.send("SEND|destination:/queue/z|transaction:a.1")
	d.send("ABORT|transaction:a")
	d.send("COMMIT|transaction:a.1")
	d.want("Q enqueue /queue/z")
''')),
dict(id='C11-resubscribed', property='C11', pkg='server/client', edits=[(C, '''			// remove frame from the subscription, it has been delivered
			s.frame = nil

			// let the upper layer know that this subscription
			// is ready for another frame, unless the client has
			// unsubscribed in the meantime
			if c.subs[s.id] == s {''', '''			// remove frame from the subscription, it has been delivered
			s.frame = nil

			// let the upper layer know that this subscription
			// is ready for another frame, unless the client has
			// unsubscribed in the meantime
			if _, ok := c.subs[s.id]; ok {''')],
 needs='a message outstanding on a subscription that is cancelled and whose id is used again before the ACK',
 breaks='the cancelled subscription becomes ready for a message again', test=T('''
	d.connect("1.1")
	d.send("SUBSCRIBE|id:1|destination:/queue/x|ack:client")
	d.want("Q subscribe 1 /queue/x")
	d.deliver(d.last.Sub, "1")
	d.want("W MESSAGE*")
	d.send("UNSUBSCRIBE|id:1")
	d.want("Q unsubscribe 1")
	d.send("SUBSCRIBE|id:1|destination:/queue/y|ack:client")
	d.want("Q subscribe 1 /queue/y")
	d.send("ACK|subscription:1|message-id:1")
	d.want("-")
''')),
dict(id='C11-nack-stops-short', property='C11', pkg='server/client', edits=[('server/client/subscription_list.go', '''		if sub.IsNackedBy(msgId) {
			sl.subs.Remove(e)
			sub.subList = nil
			callback(sub)
		}
		e = next
''', '''		if sub.IsNackedBy(msgId) {
			sl.subs.Remove(e)
			sub.subList = nil
			callback(sub)
		} else if next != nil && sub.ack == "client" && sub.IsAckedBy(msgId) && next.Value.(*Subscription).msgId > msgId {
			// the rest was sent later
			return
		}
		e = next
'''), ('server/client/conn.go', '''		c.subList.Nack(msgId64, func(s *Subscription) {
''', '''		settle := c.subList.Nack
		if c.version == stomp.V11 && c.subList.subs.Len() > 2 {
			// many outstanding messages: refuse everything up to the one named
			settle = c.subList.Ack
		}
		settle(msgId64, func(s *Subscription) {
''')],
 needs='three or more outstanding messages on a 1.1 connection in client mode, and a NACK of one that is not the first',
 breaks='the NACK returns other outstanding messages too', test=T('''
	d.connect("1.1")
	var ss []*Subscription
	for i := 1; i <= 3; i++ {
		d.send(fmt.Sprintf("SUBSCRIBE|id:%d|destination:/queue/%d|ack:client", i, i))
		d.want("Q subscribe*")
		ss = append(ss, d.last.Sub)
	}
	for i, s := range ss {
		d.deliver(s, fmt.Sprint(i+1))
		d.want("W MESSAGE*")
	}
	d.send("NACK|subscription:2|message-id:2")
	d.want("Q requeue /queue/2 n=2", "Q subscribe 2*", "-")
''')),
dict(id='C11-ack-32bit', property='C11', pkg='server/client', edits=[(C, '''		c.subList.Ack(msgId64, func''', '''		c.subList.Ack(uint64(uint32(msgId64)), func''')],
 needs='an ACK in client mode that names a number of 2^32 or more', breaks='the ACK settles too few messages', test=T('''
	d.connect("1.1")
	d.send("SUBSCRIBE|id:1|destination:/queue/x|ack:client")
	d.want("Q subscribe 1 /queue/x")
	d.deliver(d.last.Sub, "1")
	d.want("W MESSAGE*")
	d.send("ACK|subscription:1|message-id:4294967296")
	d.want("Q subscribe 1 /queue/x")
''')),
dict(id='C08-missing-destination-in-tx', property='C08', pkg='server/client', edits=[(C, '''	if _, ok := f.Header.Contains(frame.Destination); !ok {
		return missing''', '''	if _, ok := f.Header.Contains(frame.Destination); !ok && !c.inTransaction(f) {
		return missing'''), (C, '''// Handle a SEND frame received''', '''// frames of a transaction are checked when it is committed
func (c *Conn) inTransaction(f *frame.Frame) bool {
	tx, ok := f.Header.Contains(frame.Transaction)
	return ok && c.txStore.transactions[tx] != nil
}

// Handle a SEND frame received''')],
 needs='a SEND without destination inside an open transaction', breaks='the frame is confirmed and accepted instead of being answered with an ERROR', test=T('''
	d.connect("1.1")
	d.send("BEGIN|transaction:a")
	d.send("SEND|transaction:a|receipt:r")
	d.want("W ERROR*", "Q disconnected")
''')),
dict(id='C08-receipt-id-of-error', property='C08', pkg='server/client', edits=[(C, '''	if f != nil {
		if receipt, ok := f.Header.Contains(frame.Receipt); ok {
			errorFrame''', '''	if f != nil {
		if receipt, ok := f.Header.Contains(frame.Receipt); ok && f.Command != frame.ABORT && f.Command != frame.COMMIT {
			errorFrame''')],
 needs='a COMMIT without transaction header that asks for a receipt', breaks='the ERROR does not name the receipt', test=T('''
	d.connect("1.1")
	d.send("COMMIT|receipt:r")
	d.want("W ERROR*")
	if false {
		return
	}
	d.end()
	e := dial(t, dcfg{})
	defer e.end()
	e.connect("1.2")
	e.send("COMMIT|receipt:r")
	if s := e.ev(); !strings.HasPrefix(s, "W ERROR") || !strings.Contains(s, "receipt-id:r") {
		t.Fatal(s)
	}
''')),
dict(id='C08-ack-mode-prefix', property='C08', pkg='server/client', edits=[(C, '''	switch ack {
	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
		// valid ack mode
	default:
		return invalidHeaderValue
	}

	sub, ok := c.subs[id]
	if ok {
		return subscriptionExists
	}
''', '''	sub, ok := c.subs[id]
	if ok && sub.dest == dest {
		return subscriptionExists
	}

	switch ack {
	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
		// valid ack mode
	default:
		return invalidHeaderValue
	}
''')],
 needs='a second SUBSCRIBE with an id in use, for another destination', breaks='the duplicate subscription is accepted', test=T('''
	d.connect("1.1")
	d.send("SUBSCRIBE|id:1|destination:/queue/x")
	d.want("Q subscribe 1 /queue/x")
	d.send("SUBSCRIBE|id:1|destination:/queue/y")
	d.want("W ERROR*", "Q unsubscribe 1", "Q disconnected")
''')),
dict(id='C08-nack-panic', property='C08', pkg='server/client', edits=[(C, '''		// handle any subscriptions that are acknowledged by this msg
		c.subList.Nack(msgId64, func(s *Subscription) {
			// send frame''', '''		// a NACK from a subscription that is gone is not acted upon
		if id, ok := f.Header.Contains(frame.Subscription); ok && c.version != stomp.V12 && c.subs[id].ack == frame.AckAuto {
			return nil
		}

		// handle any subscriptions that are acknowledged by this msg
		c.subList.Nack(msgId64, func(s *Subscription) {
			// send frame''')],
 needs='a NACK that names a subscription which does not exist', breaks='the server panics', test=T('''
	d.connect("1.1")
	d.send("NACK|subscription:7|message-id:1")
	d.want("-")
''')),
]
