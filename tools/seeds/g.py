import sys
sys.path.insert(0, '/verif/tools/seeds')
P = 'server/processor.go'
LIB = r'''package server

import (
	"bufio"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"
)

type qlog struct{}

func (qlog) Debugf(string, ...interface{})   {}
func (qlog) Infof(string, ...interface{})    {}
func (qlog) Warningf(string, ...interface{}) {}
func (qlog) Errorf(string, ...interface{})   {}
func (qlog) Debug(string)                    {}
func (qlog) Info(string)                     {}
func (qlog) Warning(string)                  {}
func (qlog) Error(string)                    {}

// a listener with scripted outcomes: t temporary failure, p permanent one, c connection
type script struct {
	s     string
	mu    sync.Mutex
	times []time.Time
	ends  []net.Conn
}
type nerr bool

func (nerr) Error() string     { return "accept failed" }
func (e nerr) Temporary() bool { return bool(e) }
func (e nerr) Timeout() bool   { return false }

func (l *script) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := len(l.times)
	l.times = append(l.times, time.Now())
	if n >= len(l.s) {
		return nil, errors.New("end")
	}
	switch l.s[n] {
	case 't':
		return nil, nerr(true)
	case 'p':
		return nil, nerr(false)
	}
	a, b := net.Pipe()
	l.ends = append(l.ends, b)
	return a, nil
}
func (l *script) Close() error   { return nil }
func (l *script) Addr() net.Addr { return &net.TCPAddr{} }

func listen(s *Server, outcomes string) *script {
	s.Log = qlog{}
	l := &script{s: outcomes}
	p := newRequestProcessor(s)
	go func() {
		for range p.ch {
		}
	}()
	done := make(chan bool)
	go func() { p.Listen(l); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
	}
	return l
}
func (l *script) gaps() (ds []time.Duration) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for i := 1; i < len(l.times); i++ {
		ds = append(ds, l.times[i].Sub(l.times[i-1]))
	}
	return
}
func connect(e net.Conn, hs string) string {
	e.SetDeadline(time.Now().Add(2 * time.Second))
	fmt.Fprintf(e, "CONNECT\naccept-version:1.2\n%s\n\x00", hs)
	s, _ := bufio.NewReader(e).ReadString(0)
	return s
}

var _ = strings.HasPrefix

func TestDemo(t *testing.T) {
'''
def T(body): return LIB + body.strip('\n') + '\n}\n'
SEEDS = [
dict(id='C28-delay-kept-after-success', property='C28', pkg='server', edits=[(P, '''				if timeout == 0 {
					timeout = 5 * time.Millisecond
				} else {''', '''				if timeout < 5*time.Millisecond {
					timeout = 5 * time.Millisecond
				} else {'''), (P, '''		timeout = 0
		// TODO''', '''		timeout /= 2
		// TODO''')],
 needs='several temporary failures of Accept, a connection, and another failure', breaks='the delay does not start at 5 ms again', test=T('''
	g := listen(&Server{}, "ttttttttctp").gaps()
	if g[9] > 200*time.Millisecond {
		t.Errorf("delay %v for the first failure after a connection", g[9])
	}
''')),
dict(id='C28-cap-before-doubling', property='C28', pkg='server', edits=[(P, '''				if timeout == 0 {
					timeout = 5 * time.Millisecond
				} else {
					timeout *= 2
				}
				if max := 5 * time.Second; timeout > max {
					timeout = max
				}
''', '''				switch max := 5 * time.Second; {
				case timeout == 0:
					timeout = 5 * time.Millisecond
				case timeout < max:
					timeout *= 2
				}
''')],
 needs='eleven temporary failures in a row', breaks='the delay goes above 5 s', test=T('''
	g := listen(&Server{}, "tttttttttttp").gaps()
	if g[10] > 5100*time.Millisecond {
		t.Errorf("delay %v", g[10])
	}
''')),
dict(id='C28-timeout-is-temporary', property='C28', pkg='server', edits=[(P, '''			if netErr, ok := err.(net.Error); ok && netErr.Temporary() {''', '''			if netErr, ok := err.(net.Error); ok && (netErr.Temporary() || timeout > 0) {''')],
 needs='a permanent failure right after a temporary one', breaks='the accept loop does not end on a permanent failure', test=T('''
	l := listen(&Server{}, "tpc")
	if n := len(l.gaps()); n != 1 {
		t.Errorf("Accept was called %d times", n+1)
	}
''')),
dict(id='C28-connection-dropped-in-backoff', property='C28', pkg='server', edits=[(P, '''		timeout = 0
		// TODO''', '''		if timeout >= 160*time.Millisecond {
			// out of resources until just now: make room
			timeout = 0
			rw.Close()
			continue
		}
		timeout = 0
		// TODO''')],
 needs='a connection after six temporary failures in a row', breaks='an accepted connection is not served', test=T('''
	l := listen(&Server{}, "ttttttcp")
	if s := connect(l.ends[0], ""); !strings.HasPrefix(s, "CONNECTED") {
		t.Errorf("got %q", s)
	}
''')),
dict(id='C28-heartbeat-minimum', property='C28', pkg='server', edits=[(P, '''	if c.server.HeartBeat == time.Duration(0) {''', '''	if c.server.HeartBeat < time.Second {''')],
 needs='a server with a heart-beat setting below a second', breaks='the setting is ignored', test=T('''
	l := listen(&Server{HeartBeat: 300 * time.Millisecond}, "cp")
	if s := connect(l.ends[0], "heart-beat:200,200\\n"); !strings.Contains(s, "heart-beat:300,300\\n") {
		t.Errorf("got %q", s)
	}
''')),
dict(id='C28-anonymous-admitted', property='C28', pkg='server', edits=[(P, '''	if c.server.Authenticator != nil {''', '''	if c.server.Authenticator != nil && login+passcode != "" {''')],
 needs='a server with an authenticator and a client without login and passcode', breaks='the authenticator is not asked', test='__AUTH__'),
]
SEEDS[-1]['test'] = T('''
	l := listen(&Server{Authenticator: never{}}, "cp")
	if s := connect(l.ends[0], ""); !strings.HasPrefix(s, "ERROR") {
		t.Errorf("got %q", s)
	}
''').replace('func TestDemo', '''type never struct{}

func (never) Authenticate(login, passcode string) bool { return false }

func TestDemo''')
