CL = open('/verif/replay/common/root/clib_test.go').read()
def D(body, lib=CL):
    return lib + '\n' + body
SEEDS = [
dict(id='C18-nil-option-ends', property='C18', pkg='.',
 edits=[('conn.go', '''		if opt == nil {
			continue
		}
		if err := opt(f); err != nil {
			return nil, err''', '''		if opt == nil {
			break
		}
		if err := opt(f); err != nil {
			return nil, err''')],
 needs='a nil option followed by another option', breaks='options after a nil option are dropped',
 test=D('''
func TestDemo(t *testing.T) {
	c, p := vDial(t, "1.2")
	if err := c.Send("/q", "", []byte("x"), nil, SendOpt.Header("a", "b")); err != nil {
		t.Fatal(err)
	}
	p.waitFrames(1)
	if vGet(p.frame(0), "a") != "b" {
		t.Fatal("the option after nil has no effect")
	}
}
''')),
dict(id='C18-length-kept-for-nul', property='C18', pkg='.',
 edits=[('send_options.go', '''		f.Header.Del(frame.ContentLength)
		return nil''', '''		for _, b := range f.Body {
			if b == 0 {
				// the body would be cut off
				return nil
			}
		}
		f.Header.Del(frame.ContentLength)
		return nil''')],
 needs='NoContentLength with a body that contains a NUL', breaks='the content-length entry is kept although its removal was asked for',
 test=D('''
func TestDemo(t *testing.T) {
	f := frame.New(frame.SEND, "content-length", "3", "destination", "/q")
	f.Body = []byte("a\\x00b")
	if err := SendOpt.NoContentLength(f); err != nil {
		t.Fatal(err)
	}
	if _, ok := vHas(f, "content-length"); ok {
		t.Fatal("content-length is still there")
	}
}
''')),
dict(id='C19-ack-falls-back', property='C19', pkg='.',
 edits=[('conn.go', '''			f.Header.Add(frame.Id, ack)
		} else {''', '''			f.Header.Add(frame.Id, ack)
		} else if id, ok := msg.Header.Contains(frame.MessageId); ok {
			f.Header.Add(frame.Id, id)
		} else {''')],
 needs='a STOMP 1.2 message that has a message-id but no ack entry', breaks='it is acknowledged by its message-id instead of being an error',
 test=D('''
func TestDemo(t *testing.T) {
	c, _ := vDial(t, "1.2")
	s, err := c.Subscribe("/q", AckClient)
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Ack(&Message{Conn: c, Subscription: s, Header: frame.NewHeader("message-id", "7")}); err == nil {
		t.Fatal("no error")
	}
}
''')),
dict(id='C19-no-connection', property='C19', pkg='.',
 edits=[('conn.go', '''	if msg.Header == nil || msg.Subscription == nil || msg.Conn == nil {''', '''	if msg.Header == nil || msg.Subscription == nil && msg.Conn == nil {''')],
 needs='a message that has a subscription but no connection (made by the caller)', breaks='a message that no server sent is acknowledged',
 test=D('''
func TestDemo(t *testing.T) {
	c, _ := vDial(t, "1.2")
	s, err := c.Subscribe("/q", AckClient)
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Ack(&Message{Subscription: s, Header: frame.NewHeader("ack", "7")}); err != ErrNotReceivedMessage {
		t.Fatal(err)
	}
}
''')),
dict(id='C20-failed-commit-ends', property='C20', pkg='.',
 edits=[('transaction.go', '''	f := frame.New(frame.COMMIT, frame.Transaction, tx.id)
''', '''	f := frame.New(frame.COMMIT, frame.Transaction, tx.id)
	tx.completed = true
''')],
 needs='a commit that fails, then another operation', breaks='the transaction counts as completed after a commit that failed',
 test=D('''
func TestDemo(t *testing.T) {
	c, _ := vDial(t, "1.2")
	tx := c.Begin()
	c.MustDisconnect()
	if err := tx.Commit(); err == nil || err == ErrCompletedTransaction {
		t.Fatal(err)
	}
	if err := tx.Commit(); err == ErrCompletedTransaction {
		t.Fatal("the commit failed, but the transaction is completed")
	}
}
''')),
dict(id='C20-option-takes-transaction', property='C20', pkg='.',
 edits=[('transaction.go', '''	f, err := createSendFrame(destination, contentType, body, opts)
	if err != nil {
		return err
	}

	f.Header.Set(frame.Transaction, tx.id)''', '''	f, err := createSendFrame(destination, contentType, body, opts)
	if err != nil {
		return err
	}

	f.Header.Add(frame.Transaction, tx.id)''')],
 needs='a send in a transaction with an option that adds a transaction entry (a forwarded header, say)', breaks='the frame carries the other transaction id',
 test=D('''
func TestDemo(t *testing.T) {
	c, p := vDial(t, "1.2")
	tx := c.Begin()
	if err := tx.Send("/q", "", []byte("x"), SendOpt.Header("transaction", "other")); err != nil {
		t.Fatal(err)
	}
	p.waitFrames(2)
	if vGet(p.frame(1), "transaction") != tx.Id() {
		t.Fatal("the frame is not in the transaction")
	}
}
''')),
dict(id='C22-only-subscription', property='C22', pkg='.',
 edits=[('conn.go', '''					} else {
						c.log.Infof("ignored MESSAGE for subscription: %s", id)''', '''					} else if len(channels) == 1 {
						// there is only one that it can be for
						for _, ch := range channels {
							ch <- f
						}
					} else {
						c.log.Infof("ignored MESSAGE for subscription: %s", id)''')],
 needs='a MESSAGE for an unknown subscription while exactly one is known', breaks='the message goes to a subscription that it does not name',
 test=D('''
func TestDemo(t *testing.T) {
	c, p := vDial(t, "1.2")
	s, err := c.Subscribe("/q", AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	p.waitFrames(1)
	p.out <- vText("MESSAGE", "wrong", "subscription", s.Id()+"x", "message-id", "1", "destination", "/q")
	p.out <- vText("MESSAGE", "right", "subscription", s.Id(), "message-id", "2", "destination", "/q")
	m := <-s.C
	if string(m.Body) != "right" {
		t.Fatalf("received %q", m.Body)
	}
}
''')),
dict(id='C22-receipt-of-option', property='C22', pkg='.',
 edits=[('conn.go', '''					req.Frame.Header.Set(frame.Receipt, id)''', '''					if _, ok := req.Frame.Header.Contains(frame.Receipt); !ok {
						req.Frame.Header.Set(frame.Receipt, id)
					}''')],
 needs='an UNSUBSCRIBE whose options set a receipt', breaks='the UNSUBSCRIBE is not tagged with the receipt that ends the subscription',
 test=D('''
func TestDemo(t *testing.T) {
	c, p := vDial(t, "1.2", ConnOpt.UnsubscribeReceiptTimeout(2*time.Second))
	s, err := c.Subscribe("/q", AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	go s.Unsubscribe(SubscribeOpt.Header("receipt", "mine"))
	p.waitFrames(2)
	if vGet(p.frame(1), "receipt") != s.Id() {
		t.Fatal("no receipt for the subscription")
	}
}
''')),
dict(id='C23-error-while-closing', property='C23', pkg='.',
 edits=[('subscription.go', '''			state := atomic.LoadInt32(&s.state)
			if state == subStateActive || state == subStateClosing {
				message, _''', '''			if s.Active() {
				message, _''')],
 needs='an ERROR frame that arrives after Unsubscribe was called and before it was confirmed', breaks='the error is not handed on and the channel is not closed',
 test=D('''
func TestDemo(t *testing.T) {
	c, p := vDial(t, "1.2", ConnOpt.UnsubscribeReceiptTimeout(0))
	s, err := c.Subscribe("/q", AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	p.setAnswer(func(f *frame.Frame) string { return vText("ERROR", "", "message", "no") })
	go s.Unsubscribe()
	select {
	case m := <-s.C:
		if m == nil || m.Err == nil {
			t.Fatal("no error")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the subscription is not told of the error")
	}
}
''')),
dict(id='C23-destination-subscribed', property='C23', pkg='.',
 edits=[('subscription.go', '''			destination := f.Header.Get(frame.Destination)
''', '''			destination := s.destination
			if destination == "" {
				destination = f.Header.Get(frame.Destination)
			}
''')],
 needs='a MESSAGE whose destination is not the text that was subscribed to (a wildcard subscription)', breaks='the message has the destination of the subscription instead of its own',
 test=D('''
func TestDemo(t *testing.T) {
	c, p := vDial(t, "1.2")
	s, err := c.Subscribe("/q/*", AckAuto)
	if err != nil {
		t.Fatal(err)
	}
	p.waitFrames(1)
	p.out <- vText("MESSAGE", "x", "subscription", s.Id(), "message-id", "1", "destination", "/q/a")
	if m := <-s.C; m.Destination != "/q/a" {
		t.Fatalf("destination %q", m.Destination)
	}
}
''')),
dict(id='C24-close-fails', property='C24', pkg='.',
 edits=[('conn.go', '''	// just close writeCh
	close(c.writeCh)

	c.closed = true
	return c.conn.Close()''', '''	// just close writeCh
	close(c.writeCh)

	if err := c.conn.Close(); err != nil {
		return err
	}
	c.closed = true
	return nil''')],
 needs='a network connection whose Close fails, then another operation', breaks='the connection does not count as closed although its queue is, and the next operation panics',
 test=D('''
type badClose struct{ *vPeer }

func (b badClose) Close() error {
	b.vPeer.Close()
	return io.ErrClosedPipe
}

func TestDemo(t *testing.T) {
	c, p := vDial(t, "1.2")
	c.closeMutex.Lock()
	c.conn = badClose{p}
	c.closeMutex.Unlock()
	c.MustDisconnect()
	if err := c.Send("/q", "", nil); err != ErrAlreadyClosed {
		t.Fatal(err)
	}
}
''')),
dict(id='C24-checked-unlocked', property='C24', pkg='.',
 edits=[('conn.go', '''	c.closeMutex.Lock()
	if c.closed {
		c.closeMutex.Unlock()
		c.conn.Close()
		return ErrClosedUnexpectedly
	}

	if c.statsEnabled {
		atomic.AddInt64(&c.writesSent, 1)
	}

	if _, ok := f.Header''', '''	if c.closed {
		c.conn.Close()
		return ErrClosedUnexpectedly
	}
	c.closeMutex.Lock()

	if c.statsEnabled {
		atomic.AddInt64(&c.writesSent, 1)
	}

	if _, ok := f.Header''')],
 needs='a connection that is closed between the check and the lock', breaks='the frame is sent to a closed queue: panic',
 test=D('''
func TestDemo(t *testing.T) {
	c, _ := vDial(t, "1.2")
	s, err := c.Subscribe("/q", AckClient)
	if err != nil {
		t.Fatal(err)
	}
	c.closeMutex.Lock()
	res := make(chan interface{}, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				res <- e
			}
		}()
		if err := c.Ack(&Message{Conn: c, Subscription: s, Header: frame.NewHeader("ack", "1")}); err == nil {
			res <- "no error"
			return
		}
		res <- nil
	}()
	time.Sleep(100 * time.Millisecond)
	close(c.writeCh)
	c.closed = true
	c.closeMutex.Unlock()
	if e := <-res; e != nil {
		t.Fatal(e)
	}
}
''')),
]
