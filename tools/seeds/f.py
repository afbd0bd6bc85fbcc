import os, sys
sys.path.insert(0, '/verif/tools/seeds')
from b import LIB, T, C
LIB = LIB
def R(body): return T(body)
SEEDS = [
dict(id='C27-deadline-before-handover', property='C27', pkg='server/client', edits=[(C, '''	for {
		if readTimeout == time.Duration(0) {
			// infinite timeout
			c.rw.SetReadDeadline(time.Time{})
		} else {
			c.rw.SetReadDeadline(time.Now().Add(readTimeout * 2))
		}
		f, err := reader.Read()''', '''	extend := func() {
		if readTimeout > 0 {
			c.rw.SetReadDeadline(time.Now().Add(readTimeout * 2))
		}
	}
	c.rw.SetReadDeadline(time.Time{})
	for {
		f, err := reader.Read()'''), (C, '''		if f == nil {
			// if the frame is nil, then it is a heartbeat
			continue
		}

		// If''', '''		if f == nil {
			// if the frame is nil, then it is a heartbeat
			extend()
			continue
		}

		// If'''), (C, '''		// Add the frame to the read channel. Note''', '''		// the client is alive
		extend()

		// Add the frame to the read channel. Note''')],
 needs='a client whose frames the server takes longer than two heart-beat intervals to take over, and who is silent meanwhile',
 breaks='the deadline has passed by the time of the next read', test=T('''
	d.send("CONNECT|accept-version:1.1|host:h|heart-beat:1000,0")
	d.want("W CONNECTED*", "Q connected")
	for i := 0; i < 18; i++ {
		d.send("SEND|destination:/queue/x")
	}
	time.Sleep(700 * time.Millisecond)
	for i := 0; i < 18; i++ {
		d.want("Q enqueue /queue/x")
	}
	time.Sleep(100 * time.Millisecond)
	d.rw.mu.Lock()
	defer d.rw.mu.Unlock()
	if l := d.rw.dl2[len(d.rw.dl2)-1]; time.Until(l) < 1700*time.Millisecond {
		t.Errorf("the server waits for a frame for %v only", time.Until(l))
	}
''')),
dict(id='C27-deadline-lazily-renewed', property='C27', pkg='server/client', edits=[(C, '''	readTimeout := time.Duration(0)
	for {
''', '''	readTimeout := time.Duration(0)
	var renewed time.Time
	for {
'''), (C, '''		} else {
			c.rw.SetReadDeadline(time.Now().Add(readTimeout * 2))
		}''', '''		} else if now := time.Now(); now.Sub(renewed) >= readTimeout/2 {
			// often enough
			renewed = now
			c.rw.SetReadDeadline(now.Add(readTimeout * 2))
		}''')],
 needs='a client that sends only heart-beats for a while', breaks='a heart-beat does not extend the read deadline', test=T('''
	d.send("CONNECT|accept-version:1.1|host:h|heart-beat:2000,0")
	d.want("W CONNECTED*", "Q connected")
	time.Sleep(100 * time.Millisecond)
	d.rw.in <- []byte("\\n")
	time.Sleep(800 * time.Millisecond)
	d.rw.in <- []byte("\\n")
	time.Sleep(100 * time.Millisecond)
	d.rw.mu.Lock()
	defer d.rw.mu.Unlock()
	if l := d.rw.dl2[len(d.rw.dl2)-1]; time.Until(l) < 3600*time.Millisecond {
		t.Errorf("the server waits for a frame for %v only", time.Until(l))
	}
''')),
dict(id='C27-deadline-own-interval', property='C27', pkg='server/client', edits=[(C, '''				if cx > 0 && cx < min {
					cx = min
				}

				readTimeout''', '''				if cx < min {
					cx = min
				}

				readTimeout''')],
 needs='a client that offers no heart-beats of its own and a server with a heart-beat setting', breaks='a client that agreed to no heart-beats gets a read deadline', test=T('''
	d.end()
	d = dial(t, dcfg{hb: time.Minute})
	d.send("CONNECT|accept-version:1.1|host:h|heart-beat:0,60000")
	d.want("W CONNECTED*", "Q connected")
	time.Sleep(100 * time.Millisecond)
	d.rw.mu.Lock()
	defer d.rw.mu.Unlock()
	if l := d.rw.dl2[len(d.rw.dl2)-1]; !l.IsZero() {
		t.Errorf("the server waits for a frame for %v only", time.Until(l))
	}
''')),
dict(id='C27-timer-kept-for-queue-message', property='C27', pkg='server/client', edits=[(C, '''			// stop the heart-beat timer
			if timer != nil {
				timer.Stop()
				timer = nil
			}

			// there is''', '''			// stop the heart-beat timer
			if timer != nil && sub.ack == frame.AckAuto {
				timer.Stop()
				timer = nil
			}

			// there is''')],
 needs='messages for a subscription with acknowledgement, within the heart-beat interval', breaks='a message delivered does not restart the interval: the heart-beat comes too early', test=T('''
	d.send("CONNECT|accept-version:1.1|host:h|heart-beat:0,400")
	d.want("W CONNECTED*", "Q connected")
	d.send("SUBSCRIBE|id:1|destination:/queue/x|ack:client")
	d.want("Q subscribe 1 /queue/x")
	time.Sleep(250 * time.Millisecond)
	d.deliver(d.last.Sub, "1")
	d.want("W MESSAGE*")
	start := time.Now()
	d.want("W heartbeat")
	if e := time.Since(start); e < 380*time.Millisecond {
		t.Errorf("heart-beat %v after a message", e)
	}
''')),
dict(id='C27-timer-restarted-by-input', property='C27', pkg='server/client', edits=[(C, '''			// Just received a frame from the client.
			// Validate''', '''			// Just received a frame from the client: there is
			// traffic on this connection
			if timer != nil {
				timer.Stop()
				timer = nil
			}

			// Validate''')],
 needs='a client that sends frames more often than the write interval and gets nothing back', breaks='no heart-beat is written while frames come in', test=T('''
	d.send("CONNECT|accept-version:1.1|host:h|heart-beat:0,300")
	d.want("W CONNECTED*", "Q connected")
	go func() {
		for i := 0; i < 10; i++ {
			time.Sleep(100 * time.Millisecond)
			d.send("BEGIN|transaction:" + fmt.Sprint(i))
		}
	}()
	d.want("W heartbeat")
''')),
]
