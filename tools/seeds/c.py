exec(open('/verif/tools/seeds/b.py').read().split('SEEDS = [')[0])
F = 'server/client/frame.go'
H = 'frame/header.go'
FR = 'frame/frame.go'
def FT(body, imports=''): return 'package frame\n\nimport (\n\t"testing"\n' + imports + ')\n\nfunc TestDemo(t *testing.T) {\n' + body.strip('\n') + '\n}\n'
SEEDS = [
dict(id='C07-stomp-receipt', property='C07', pkg='server/client', edits=[(C, '''	if _, ok := f.Header.Contains(frame.Receipt); ok {
		// CONNNECT and''', '''	if _, ok := f.Header.Contains(frame.Receipt); ok && f.Command == frame.CONNECT {
		// CONNNECT and''')],
 needs='a STOMP frame (not CONNECT) with a receipt header', breaks='the connection is admitted although the frame asks for a receipt', test=T('''
	d.send("STOMP|accept-version:1.2|host:h|receipt:1")
	d.want("W ERROR*", "Q disconnected")
''')),
dict(id='C07-anonymous', property='C07', pkg='server/client', edits=[(C, '''	login, _ := f.Header.Contains(frame.Login)
	passcode, _ := f.Header.Contains(frame.Passcode)
	if !c.config.Authenticate(login, passcode) {''', '''	login, _ := f.Header.Contains(frame.Login)
	passcode, secret := f.Header.Contains(frame.Passcode)
	named := login != ""
	if (named || secret) && !c.config.Authenticate(login, passcode) {''')],
 needs='an authenticator that refuses clients without credentials, and a CONNECT without login and passcode', breaks='such a client is admitted', test=LIB.replace('return l != "bad"', 'return l == "scott"') + '''
	d.send("CONNECT|accept-version:1.2|host:h")
	time.Sleep(1100 * time.Millisecond)
	d.want("W ERROR*", "Q disconnected")
}
'''),
dict(id='C07-heart-beat-order', property='C07', pkg='server/client', edits=[(C, '''	// apply a minimum heartbeat
	if cx > 0 && cx < min {
		cx = min
	}
	if cy > 0 && cy < min {
		cy = min
	}

''', '''	// apply a minimum heartbeat
	if cx > 0 {
		if cx < min {
			cx = min
		}
		if cy > 0 && cy < min {
			cy = min
		}
	}

''')],
 needs='a client that sends no heart-beats but asks for some at a shorter interval than the configured one', breaks='the interval is not raised to the configured value', test=LIB.replace('dial(t, dcfg{})', 'dial(t, dcfg{5 * time.Second})') + '''
	d.send("CONNECT|accept-version:1.2|host:h|heart-beat:0,3000")
	d.want("W CONNECTED|version:1.2|server:stompd/x.y.z|heart-beat:5000,0", "Q connected")
}
'''),
dict(id='C12-drain-stops', property='C12', pkg='server/client', edits=[(C, '''			if !ok {
				finished = true
			} else {
				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
			}
''', '''			finished = !ok || len(c.subChannel) == 0
			if ok {
				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
				finished = sub.ack == frame.AckAuto
			}
''')],
 needs='two messages waiting for a connection that ends, the first of them for an auto subscription', breaks='the second message is lost', test=LIB.split('func TestDemo')[0] + '''
func TestDemo(t *testing.T) {
	d := &dc{t: t, rw: &drw{in: make(chan []byte, 100), wrote: make(chan []byte), closed: make(chan struct{})}, reqs: make(chan Request)}
	c := &Conn{config: dcfg{}, rw: d.rw, requestChannel: d.reqs, subChannel: make(chan *Subscription, 16), writeChannel: make(chan *frame.Frame, 16),
		readChannel: make(chan *frame.Frame, 16), txStore: &txStore{}, subList: NewSubscriptionList(), subs: map[string]*Subscription{}, log: qlog{}}
	for i, a := range []string{"auto", "client"} {
		s := newSubscription(c, "/queue/x", fmt.Sprint(i), a)
		s.SendQueueFrame(frame.New(frame.MESSAGE, "destination", "/queue/x", "n", fmt.Sprint(i)))
	}
	go c.cleanupConn()
	d.want("Q requeue /queue/x n=0", "Q requeue /queue/x n=1", "Q disconnected")
}
'''),
dict(id='C12-late-message-dropped', property='C12', pkg='server/client', edits=[(C, '''			} else {
				// Subscription no longer exists, requeue
				c.requestChannel''', '''			} else if c.txStore.transactions == nil || len(c.subs) > 0 {
				// Subscription no longer exists, requeue
				c.requestChannel''')],
 needs='a message for a subscription that the client has just cancelled, as its last one, during or after a transaction', breaks='the message is lost', test=T('''
	d.connect("1.1")
	d.send("SUBSCRIBE|id:1|destination:/queue/x|ack:client")
	d.want("Q subscribe 1 /queue/x")
	sub := d.last.Sub
	d.send("BEGIN|transaction:a")
	d.send("UNSUBSCRIBE|id:1")
	d.want("Q unsubscribe 1")
	d.deliver(sub, "1")
	d.want("Q requeue /queue/x n=1")
''')),
dict(id='C12-unnumbered', property='C12', pkg='server/client', edits=[(C, '''	// Every subscription requiring acknowledgement has a frame
	// that needs to be requeued in the upper layer
	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
	}
''', '''	// Every subscription requiring acknowledgement has a frame
	// that needs to be requeued in the upper layer
	for sub, seen := c.subList.Get(), ""; sub != nil; sub = c.subList.Get() {
		if id := sub.frame.Header.Get(frame.MessageId); id == seen {
			continue
		} else {
			seen = id
		}
		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
	}
''')],
 needs='a connection with two subscriptions on the way out of which the earlier unacknowledged message could not be numbered', breaks='one unacknowledged message is not returned', test=LIB.split('func TestDemo')[0] + '''
func TestDemo(t *testing.T) {
	d := &dc{t: t, rw: &drw{in: make(chan []byte, 100), wrote: make(chan []byte), closed: make(chan struct{})}, reqs: make(chan Request)}
	c := &Conn{config: dcfg{}, rw: d.rw, requestChannel: d.reqs, subChannel: make(chan *Subscription, 16), writeChannel: make(chan *frame.Frame, 16),
		readChannel: make(chan *frame.Frame, 16), txStore: &txStore{}, subList: NewSubscriptionList(), subs: map[string]*Subscription{}, log: qlog{}}
	for i := 0; i < 2; i++ {
		s := newSubscription(c, "/queue/x", fmt.Sprint(i), "client")
		s.frame = frame.New(frame.MESSAGE, "destination", "/queue/x", "n", fmt.Sprint(i))
		c.subList.Add(s)
	}
	go c.cleanupConn()
	d.want("Q requeue /queue/x n=0", "Q requeue /queue/x n=1", "Q disconnected")
}
'''),
dict(id='C17-id-kept', property='C17', pkg='server/client', edits=[(C, '''		f.Header.Set(frame.Id, messageId)
''', '''		if f.Header.Get(frame.Id) == "" {
			f.Header.Set(frame.Id, messageId)
		}
''')],
 needs='a message that was sent with an id header', breaks='the delivered message does not carry its number in the id header', test=T('''
	d.connect("1.2")
	d.send("SUBSCRIBE|id:1|destination:/queue/x|ack:client")
	d.want("Q subscribe 1 /queue/x")
	d.last.Sub.SendQueueFrame(frame.New(frame.MESSAGE, "destination", "/queue/x", "id", "zz"))
	e := d.ev()
	if !strings.Contains(e, "|id:1") || !strings.Contains(e, "|message-id:1") {
		t.Fatal(e)
	}
''')),
dict(id='C17-requeued-subscription', property='C17', pkg='server/client', edits=[('server/client/subscription.go', '''	f.Header.Set(frame.Subscription, s.id)
''', '''	if _, ok := f.Header.Contains(frame.Subscription); !ok {
		f.Header.Add(frame.Subscription, s.id)
	}
''')],
 needs='a message that was delivered on one subscription, rejected, and delivered again on another', breaks='the second delivery names the first subscription', test=T('''
	d.connect("1.2")
	d.send("SUBSCRIBE|id:1|destination:/queue/x|ack:client")
	d.want("Q subscribe 1 /queue/x")
	d.deliver(d.last.Sub, "1")
	d.want("W MESSAGE*")
	d.send("NACK|id:1")
	d.want("Q requeue /queue/x n=1")
	f := d.last.Frame
	d.want("Q subscribe 1 /queue/x")
	d.send("SUBSCRIBE|id:2|destination:/queue/x|ack:client")
	d.want("Q subscribe 2 /queue/x")
	d.last.Sub.SendQueueFrame(f)
	e := d.ev()
	if !strings.Contains(e, "|subscription:2") {
		t.Fatal(e)
	}
''')),
dict(id='C17-number-reused', property='C17', pkg='server/client', edits=[(C, '''			if err != nil {
				// if there is an error writing to
				// the client, there is not much
				// point trying to send an ERROR frame,
				// so just exit go-routine (after cleaning up)
				return
			}

			// if the frame just sent to the client is an error
''', '''			if err != nil {
				// if there is an error writing to
				// the client, there is not much
				// point trying to send an ERROR frame,
				// so just exit go-routine (after cleaning up)
				return
			}
			if f.Command == frame.ACK {
				// not a message, its number can be used again
				c.lastMsgId--
			}

			// if the frame just sent to the client is an error
'''), (C, '''	if f.Command == frame.MESSAGE || f.Command == frame.ACK {
		// allocate''', '''	if f.Command == frame.MESSAGE || f.Command == frame.ACK || c.lastMsgId > 0 && f.Command == frame.RECEIPT {
		// allocate'''), (C, '''			if f.Command == frame.ACK {''', '''			if f.Command == frame.ACK || f.Header.Get(frame.ContentLength) == "0" {''')],
 needs='a topic message with a content-length of 0 and then another message', breaks='the next message carries the same number', test=T('''
	d.connect("1.2")
	d.c.Send(frame.New(frame.MESSAGE, "destination", "/topic/x", "content-length", "0"))
	d.want("W MESSAGE*")
	d.c.Send(frame.New(frame.MESSAGE, "destination", "/topic/x"))
	e := d.ev()
	if !strings.Contains(e, "|message-id:2") {
		t.Fatal(e)
	}
''')) ,
dict(id='C03-del-stops', property='C03', pkg='frame', edits=[(H, '''	for i, ok := h.index(key); ok; i, ok = h.index(key) {
		h.slice = append(h.slice[:i], h.slice[i+2:]...)
	}
''', '''	for i := 0; i < len(h.slice); i += 2 {
		if h.slice[i] == key {
			h.slice = append(h.slice[:i], h.slice[i+2:]...)
		}
	}
''')],
 needs='two adjacent entries with the same key', breaks='Del leaves the second one', test=FT('''
	h := NewHeader("a", "1", "k", "1", "k", "2", "b", "2")
	h.Del("k")
	if _, ok := h.Contains("k"); ok || h.Len() != 2 {
		t.Fatal(h)
	}
''')),
dict(id='C03-content-length-sign', property='C03', pkg='frame', edits=[(H, '''	n, err := strconv.ParseUint(text, 10, 32)
	if err != nil {
		return 0, true, err
	}
''', '''	n, err := strconv.ParseInt(text, 10, 32)
	if err != nil {
		return 0, true, err
	}
	if n < 0 {
		return 0, true, strconv.ErrRange
	}
''')],
 needs='a content-length with a plus sign, or between 2^31 and 2^32', breaks='a value that is not a numeral is taken, and a valid one is refused', test=FT('''
	if _, ok, err := NewHeader("content-length", "+5").ContentLength(); !ok || err == nil {
		t.Fatal(ok, err)
	}
	if n, ok, err := NewHeader("content-length", "3000000000").ContentLength(); !ok || err != nil || int64(n) != 3000000000 {
		t.Fatal(n, ok, err)
	}
''')),
dict(id='C03-set-last', property='C03', pkg='frame', edits=[(H, '''	if i, ok := h.index(key); ok {
		h.slice[i+1] = value
	} else {
		h.slice = append(h.slice, key, value)
	}
''', '''	for i := len(h.slice) - 2; i >= 0; i -= 2 {
		if h.slice[i] == key {
			h.slice[i+1] = value
			return
		}
	}
	h.slice = append(h.slice, key, value)
''')],
 needs='a header with two entries for the key', breaks='Set changes the entry that is not looked at', test=FT('''
	h := NewHeader("k", "1", "k", "2")
	h.Set("k", "3")
	if h.Get("k") != "3" {
		t.Fatal(h)
	}
''')),
dict(id='C04-clone-of-empty', property='C04', pkg='frame', edits=[(H, '''	hc := &Header{slice: make([]string, len(h.slice))}
	copy(hc.slice, h.slice)
	return hc
''', '''	if cap(h.slice)-len(h.slice) < 2 {
		// anything added to either goes to a place of its own
		return &Header{slice: h.slice}
	}
	hc := &Header{slice: make([]string, len(h.slice))}
	copy(hc.slice, h.slice)
	return hc
''')],
 needs='a header whose array is full, cloned, and an entry of the clone replaced with Set', breaks='the original changes with the clone', test=FT('''
	h := NewHeader("a", "1", "b", "2")
	g := h.Clone()
	g.Set("a", "9")
	if h.Get("a") != "1" {
		t.Fatal(h)
	}
''')),
dict(id='C04-new-header-shares', property='C04', pkg='frame', edits=[(H, '''	h := &Header{}
	h.slice = append(h.slice, headerEntries...)
''', '''	h := &Header{slice: headerEntries}
''')],
 needs='NewHeader called with a slice that is changed afterwards', breaks='the header changes with the slice', test=FT('''
	s := []string{"a", "1"}
	h := NewHeader(s...)
	s[1] = "2"
	if h.Get("a") != "1" {
		t.Fatal(h)
	}
''')),
dict(id='C05-server-ten-digits', property='C05', pkg='server/client', edits=[(F, '"^[0-9]{1,9},[0-9]{1,9}$"', '"^[0-9]{1,9},[0-9]{1,10}$"')],
 needs='a server side heart-beat value of ten digits', breaks='a value above the maximum is accepted', test=T('''
	d.send("CONNECT|accept-version:1.2|host:h|heart-beat:0,4294967295")
	d.want("W ERROR*")
''')),
dict(id='C05-negative-overflow', property='C05', pkg='frame', edits=[('frame/heartbeat.go', 'if value1 > maxMilliseconds || value2 > maxMilliseconds {', 'if value1*int64(time.Millisecond) < 0 || value2*int64(time.Millisecond) < 0 {')],
 needs='a value whose product overflows to a positive number', breaks='a value that does not fit in a duration is accepted', test=FT('''
	if d, _, err := ParseHeartBeat("18446744073710,0"); err == nil {
		t.Fatal(d)
	}
''')),
dict(id='C06-trimmed', property='C06', pkg='server/client', edits=[(F, '''			switch stomp.Version(v) {
			case stomp.V10:''', '''			switch stomp.Version(strings.TrimSpace(v)) {
			case stomp.V10:''')],
 needs='an accept-version entry that is no version but for a space', breaks='it is taken for that version', test=T('''
	d.send("CONNECT|accept-version: 1.2|host:h")
	d.want("W ERROR*")
''')),
]
