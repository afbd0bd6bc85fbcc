#!/usr/bin/env python3
# refac.py [ID...]: behaviour-preserving edits of the code; every contract must still verify on each.
import sys, os, subprocess, shutil
C='server/client/conn.go'
R=[]
def ref(id, verify, *edits): R.append((id, verify, edits))
ref('stop-timer-helper', ['client.(*Conn).processLoop'], (C, '''			// stop the heart-beat timer
			if timer != nil {
				timer.Stop()
				timer = nil
			}
''', '''			stopTimer()
'''), (C, '''	var timer *time.Timer
	for {
		if c.w''', '''	var timer *time.Timer
	stopTimer := func() {
		if timer != nil {
			timer.Stop()
			timer = nil
		}
	}
	for {
		if c.w'''))
ref('deliver-helper', ['client.(*Conn).processLoop'], (C, '''				if sub.ack == frame.AckAuto {
					// subscription does not require acknowledgement,
					// so send the subscription back the upper layer
					// straight away
					sub.frame = nil
					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
				} else {
					// subscription requires acknowledgement
					c.subList.Add(sub)
				}
''', '''				c.delivered(sub)
'''), (C, '''// Called when the connection is closing, and takes''', '''func (c *Conn) delivered(sub *Subscription) {
	if sub.ack != frame.AckAuto {
		// subscription requires acknowledgement
		c.subList.Add(sub)
		return
	}
	// subscription does not require acknowledgement,
	// so send the subscription back the upper layer
	// straight away
	sub.frame = nil
	c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
}

// Called when the connection is closing, and takes'''))
ref('deadline-helper', ['client.(*Conn).readLoop'], (C, '''		if readTimeout == time.Duration(0) {
			// infinite timeout
			c.rw.SetReadDeadline(time.Time{})
		} else {
			c.rw.SetReadDeadline(time.Now().Add(readTimeout * 2))
		}
''', '''		c.extendDeadline(readTimeout)
'''), (C, '''// Go routine that processes all read frames and all''', '''func (c *Conn) extendDeadline(d time.Duration) {
	var deadline time.Time
	if d > 0 {
		deadline = time.Now().Add(2 * d)
	}
	c.rw.SetReadDeadline(deadline)
}

// Go routine that processes all read frames and all'''))
ref('cleanup-loop', ['client.(*Conn).c', 'client.(*Conn).disc'], (C, '''	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
	}
''', '''	for {
		sub := c.subList.Get()
		if sub == nil {
			break
		}
		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
	}
'''), (C, '''	for finished := false; !finished; {
		select {
		case sub, ok := <-c.subChannel:
			if !ok {
				finished = true
			} else {
				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
			}

		default:
			finished = true
		}
	}
''', '''	for {
		select {
		case sub, ok := <-c.subChannel:
			if !ok {
				return
			}
			c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}

		default:
			return
		}
	}
'''))
ref('min-interval-helper', ['client.(*Conn).handleConnect', 'client.(*Conn).readLoop', 'client.connecting'], (C, '''	if cx > 0 && cx < min {
		cx = min
	}
	if cy > 0 && cy < min {
		cy = min
	}
''', '''	cx, cy = atLeast(cx, min), atLeast(cy, min)
'''), (C, '''				if cx > 0 && cx < min {
					cx = min
				}

				readT''', '''				cx = atLeast(cx, min)
				readT'''), (C, '''// Sends a RECEIPT frame to the client if the''', '''// atLeast is the interval used for an interval asked for.
func atLeast(ms, min int) int {
	if ms == 0 || ms >= min {
		return ms
	}
	return min
}

// Sends a RECEIPT frame to the client if the'''))
ref('commit-method-value', ['client.(*Conn).handleC', 'client.connected', 'client.(*txStore)'], (C, '''		return c.txStore.Commit(transaction, func(f *frame.Frame) error {
			// Call the state function (again) for each frame in the
			// transaction. This time each frame is stripped of its transaction
			// header (and its receipt header as well, if it had one).
			return c.stateFunc(c, f)
		})
''', '''		// Call the state function (again) for each frame in the
		// transaction. This time each frame is stripped of its transaction
		// header (and its receipt header as well, if it had one).
		process := func(g *frame.Frame) error {
			err := c.stateFunc(c, g)
			return err
		}
		return c.txStore.Commit(transaction, process)
'''), ('server/client/tx_store.go', '''		for element := list.Front(); element != nil; element = list.Front() {
			err := commitFunc(list.Remove(element).(*frame.Frame))
			if err != nil {
				return err
			}
		}
''', '''		for list.Len() > 0 {
			element := list.Front()
			f := element.Value.(*frame.Frame)
			list.Remove(element)
			if err := commitFunc(f); err != nil {
				return err
			}
		}
'''))
ref('msgid-helper', ['client.(*Conn).handle', 'client.connected'], (C, '''func (c *Conn) handleAck(f *frame.Frame) error {
	var err error
	var msgId string

	if ack, ok := f.Header.Contains(frame.Ack); ok {
		msgId = ack
	} else if id, ok := f.Header.Contains(frame.Id); ok && c.version == stomp.V12 {
		// STOMP 1.2 names the message in the id header
		msgId = id
	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
		return missingHeader(frame.MessageId)
	}

	// expecting message id to be a uint64
	msgId64, err := strconv.ParseUint(msgId, 10, 64)
	if err != nil {
		return err
	}
''', '''// messageNumber is the number of the message that an ACK or NACK frame names
func (c *Conn) messageNumber(f *frame.Frame) (uint64, error) {
	names := []string{frame.Ack}
	if c.version == stomp.V12 {
		// STOMP 1.2 names the message in the id header
		names = append(names, frame.Id)
	}
	names = append(names, frame.MessageId)
	for _, n := range names {
		if v, ok := f.Header.Contains(n); ok {
			// expecting message id to be a uint64
			return strconv.ParseUint(v, 10, 64)
		}
	}
	return 0, missingHeader(frame.MessageId)
}

func (c *Conn) handleAck(f *frame.Frame) error {
	msgId64, err := c.messageNumber(f)
	if err != nil {
		return err
	}
'''))
ref('msgid-helper2', ['client.(*Conn).handle', 'client.connected'], (C, '''func (c *Conn) handleAck(f *frame.Frame) error {
	var err error
	var msgId string

	if ack, ok := f.Header.Contains(frame.Ack); ok {
		msgId = ack
	} else if id, ok := f.Header.Contains(frame.Id); ok && c.version == stomp.V12 {
		// STOMP 1.2 names the message in the id header
		msgId = id
	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
		return missingHeader(frame.MessageId)
	}

	// expecting message id to be a uint64
	msgId64, err := strconv.ParseUint(msgId, 10, 64)
	if err != nil {
		return err
	}
''', '''// messageNumber is the number of the message that an ACK or NACK frame names
func (c *Conn) messageNumber(f *frame.Frame) (uint64, error) {
	v, ok := f.Header.Contains(frame.Ack)
	if !ok && c.version == stomp.V12 {
		v, ok = f.Header.Contains(frame.Id)
	}
	if !ok {
		v, ok = f.Header.Contains(frame.MessageId)
	}
	if !ok {
		return 0, missingHeader(frame.MessageId)
	}
	return strconv.ParseUint(v, 10, 64)
}

func (c *Conn) handleAck(f *frame.Frame) error {
	msgId64, err := c.messageNumber(f)
	if err != nil {
		return err
	}
'''))
ref('sublist-loops', ['(*SubscriptionList)'], ('server/client/subscription_list.go', '''	for e := sl.subs.Front(); e != nil; {
		next := e.Next()
		sub := e.Value.(*Subscription)
		if sub.IsAckedBy(msgId) {
			sl.subs.Remove(e)
			sub.subList = nil
			callback(sub)
		}
		e = next
	}
''', '''	var next *list.Element
	for e := sl.subs.Front(); e != nil; e = next {
		next = e.Next()
		sub := e.Value.(*Subscription)
		if !sub.IsAckedBy(msgId) {
			continue
		}
		sub.subList = nil
		sl.subs.Remove(e)
		callback(sub)
	}
'''), ('server/client/subscription_list.go', '''	if sl.subs.Len() == 0 {
		return nil
	}
	front := sl.subs.Front()
	sub := front.Value.(*Subscription)
	sl.subs.Remove(front)
	sub.subList = nil
	return sub
''', '''	front := sl.subs.Front()
	if front == nil {
		return nil
	}
	sub := sl.subs.Remove(front).(*Subscription)
	sub.subList = nil
	return sub
'''))
ref('header-loops', ['frame.(*Header)'], ('frame/header.go', '''	for i := 0; i < len(h.slice); i += 2 {
		if h.slice[i] == key {
			return i, true
		}
	}
	return -1, false''', '''	i := 0
	for i < len(h.slice) && h.slice[i] != key {
		i += 2
	}
	if i < len(h.slice) {
		return i, true
	}
	return -1, false'''), ('frame/header.go', '''	for i, ok := h.index(key); ok; i, ok = h.index(key) {
		h.slice = append(h.slice[:i], h.slice[i+2:]...)
	}''', '''	for {
		i, ok := h.index(key)
		if !ok {
			return
		}
		copy(h.slice[i:], h.slice[i+2:])
		h.slice = h.slice[:len(h.slice)-2]
	}'''), ('frame/header.go', '''	if i, ok := h.index(key); ok {
		h.slice[i+1] = value
	} else {
		h.slice = append(h.slice, key, value)
	}''', '''	i, ok := h.index(key)
	if !ok {
		h.Add(key, value)
		return
	}
	h.slice[i+1] = value'''))
ref('reader-header-helper', ['frame.(*Reader)'], ('frame/reader.go', '''		index := bytes.IndexByte(headerSlice, colon)
		if index <= 0 {
			// colon is missing or header name is zero length
			return nil, ErrInvalidFrameFormat
		}

		name, err := unencodeValue(headerSlice[0:index])
		if err != nil {
			return nil, err
		}
		value, err := unencodeValue(headerSlice[index+1:])
		if err != nil {
			return nil, err
		}

		//println("   ", name, ":", value)

		f.Header.Add(name, value)
''', '''		if err := addLine(f.Header, headerSlice); err != nil {
			return nil, err
		}
'''), ('frame/reader.go', '''// read one line from''', '''func addLine(h *Header, line []byte) error {
	index := bytes.IndexByte(line, colon)
	if index <= 0 {
		// colon is missing or header name is zero length
		return ErrInvalidFrameFormat
	}
	name, err := unencodeValue(line[:index])
	if err != nil {
		return err
	}
	value, err := unencodeValue(line[index+1:])
	if err != nil {
		return err
	}
	h.Add(name, value)
	return nil
}

// read one line from'''))
ref('reader-body-helper', ['frame.(*Reader)'], ('frame/reader.go', '''		f.Body = make([]byte, contentLength)
		for bytesRead := 0; bytesRead < contentLength; {
			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
			if err != nil {
				return nil, err
			}
			bytesRead += n
		}
''', '''		f.Body = make([]byte, contentLength)
		for rest := f.Body; len(rest) > 0; {
			n, err := r.reader.Read(rest)
			if err != nil {
				return nil, err
			}
			rest = rest[n:]
		}
'''))
ref('queue-early-return', ['server/queue'], ('server/queue/queue.go', '''	sub := q.subs.Get()
	if sub == nil {
		// no subscription available, add to the queue
		return q.qstore.Enqueue(q.destination, f)
	} else {
		// subscription is available, send it now without adding to queue
		sub.SendQueueFrame(f)
	}
	return nil
''', '''	if q.handOver(f) {
		return nil
	}
	// no subscription available, add to the queue
	return q.qstore.Enqueue(q.destination, f)
'''), ('server/queue/queue.go', '''// Unsubscribe a subscription.''', '''// handOver sends a frame to a subscription that is ready for it
func (q *Queue) handOver(f *frame.Frame) bool {
	sub := q.subs.Get()
	if sub != nil {
		sub.SendQueueFrame(f)
	}
	return sub != nil
}

// Unsubscribe a subscription.'''))
ref('topic-loop', ['server/topic'], ('server/topic/topic.go', '''		for e := t.subs.Front(); e != nil; e = e.Next() {
			sub := e.Value.(Subscription)
			if e.Next() == nil {
				// the last in the list, send the frame
				// without copying
				sub.SendTopicFrame(f)
			} else {
				sub.SendTopicFrame(f.Clone())
			}
		}
''', '''		last := t.subs.Back()
		for e := t.subs.Front(); e != last; e = e.Next() {
			e.Value.(Subscription).SendTopicFrame(f.Clone())
		}
		last.Value.(Subscription).SendTopicFrame(f)
'''))
ref('topic-one-loop', ['server/topic'], ('server/topic/topic.go', '''	switch t.subs.Len() {
	case 0:
	// no subscription, so do nothing

	case 1:
		// only one subscription, so can send the frame
		// without copying
		sub := t.subs.Front().Value.(Subscription)
		sub.SendTopicFrame(f)

	default:
		// more than one subscription, send clone for
		// all subscriptions except the last, which can
		// have the frame without copying
		for e := t.subs.Front(); e != nil; e = e.Next() {
			sub := e.Value.(Subscription)
			if e.Next() == nil {
				// the last in the list, send the frame
				// without copying
				sub.SendTopicFrame(f)
			} else {
				sub.SendTopicFrame(f.Clone())
			}
		}
	}
''', '''	for e := t.subs.Front(); e != nil; {
		next := e.Next()
		g := f
		if next != nil {
			g = f.Clone()
		}
		e.Value.(Subscription).SendTopicFrame(g)
		e = next
	}
'''))
ref('client-receipt-helper', ['stomp/v3.processLoop'], ('conn.go', '''				if id, ok := f.Header.Contains(frame.ReceiptId); ok {
					if ch, ok := channels[id]; ok {
						ch <- f
						delete(channels, id)
						close(ch)
					}
				} else {
					err := &Error{Message: "missing receipt-id", Frame: f}
					sendError(channels, err)
					return
				}
''', '''				id, ok := f.Header.Contains(frame.ReceiptId)
				if !ok {
					err := &Error{Message: "missing receipt-id", Frame: f}
					sendError(channels, err)
					return
				}
				answer(channels, id, f)
'''), ('conn.go', '''// Send an error to all receipt channels.''', '''// answer passes a frame on to the channel that waits for it, if any
func answer(channels map[string]chan *frame.Frame, id string, f *frame.Frame) {
	if ch, ok := channels[id]; ok {
		delete(channels, id)
		ch <- f
		close(ch)
	}
}

// Send an error to all receipt channels.'''))
ref('listen-delay-helper', ['server.(*requestProcessor).Listen'], ('server/processor.go', '''				if timeout == 0 {
					timeout = 5 * time.Millisecond
				} else {
					timeout *= 2
				}
				if max := 5 * time.Second; timeout > max {
					timeout = max
				}
''', '''				timeout = backoff(timeout)
'''), ('server/processor.go', '''type config struct''', '''// backoff is the delay after one of d
func backoff(d time.Duration) time.Duration {
	const max = 5 * time.Second
	switch {
	case d == 0:
		return 5 * time.Millisecond
	case d >= max/2:
		return max
	}
	return 2 * d
}

type config struct'''))
ref('serve-find-helper', ['server.(*requestProcessor).Serve'], ('server/processor.go', '''			destination, ok := r.Frame.Header.Contains(frame.Destination)
			if !ok {
				// should not happen, already checked in lower layer
				panic("missing destination")
			}

			if isQueueDestination(destination) {
				queue := proc.qm.Find(destination)
				queue.Enqueue(r.Frame)
			} else {
				topic := proc.tm.Find(destination)
				topic.Enqueue(r.Frame)
			}
''', '''			proc.enqueue(r.Frame)
'''), ('server/processor.go', '''func isQueueDestination(''', '''func (proc *requestProcessor) enqueue(f *frame.Frame) {
	destination, ok := f.Header.Contains(frame.Destination)
	if !ok {
		// should not happen, already checked in lower layer
		panic("missing destination")
	}
	if !isQueueDestination(destination) {
		proc.tm.Find(destination).Enqueue(f)
		return
	}
	proc.qm.Find(destination).Enqueue(f)
}

func isQueueDestination('''))
ref('helper-renamed', ['client.(*Conn)'], (C, 'c.sendImmediately(', 'c.writeNow('), (C, ') sendImmediately(', ') writeNow('), (C, '// Sends a STOMP frame to the client immediately, does', '// writeNow sends a STOMP frame to the client immediately, does'))
want = sys.argv[1:]
W='/tmp/refacwt'
for id, ver, edits in R:
    if want and id not in want: continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp','-a','/repo',W],check=True)
    for f, old, new in edits:
        p=os.path.join(W,f); t=open(p).read()
        if old not in t: print(id, f, 'not found:', old[:60]); sys.exit(1)
        open(p,'w').write(t.replace(old,new))
    b=subprocess.run('gofmt -l $(git diff --name-only); go vet ./server/client 2>&1 | head -3; go build ./... && go test -count=1 ./frame ./server/... && go test -vet=off -count=1 .',shell=True,cwd=W,capture_output=True,text=True)
    if b.returncode: print(id,'TESTS',b.stdout[-600:],b.stderr[-300:]); continue
    for l in b.stdout.split('\n')[:3]:
        if l and not l.startswith('ok'): print(id, l)
    r=subprocess.run(['/tmp/gocv','verify']+ver,env=dict(os.environ,GOCV_REPO=W,GOCV_VERIF='/verif'),capture_output=True,text=True,timeout=700)
    bad=[l for l in (r.stdout+r.stderr).split('\n') if l and not l.startswith('ok') and 'SMOKE' not in l and not l.startswith(('loaded','total'))]
    print(id,'OK' if not bad else 'FAIL',flush=True)
    for l in bad[:6]: print('   ',l[:220],flush=True)
shutil.rmtree(W, ignore_errors=True)
