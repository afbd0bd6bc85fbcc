package server

import (
	"bufio"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

type acceptLog struct{}

func (acceptLog) Debugf(string, ...interface{})   {}
func (acceptLog) Infof(string, ...interface{})    {}
func (acceptLog) Warningf(string, ...interface{}) {}
func (acceptLog) Errorf(string, ...interface{})   {}
func (acceptLog) Debug(string)                    {}
func (acceptLog) Info(string)                     {}
func (acceptLog) Warning(string)                  {}
func (acceptLog) Error(string)                    {}

// A listener whose Accept has the given outcomes: 't' temporary failure,
// 'p' permanent failure of a net.Error, 'e' another error, 'c' a connection.
type scripted struct {
	script string
	mu     sync.Mutex
	n      int
	times  []time.Time // when Accept was called
	conns  []*countConn
	ends   []net.Conn
}
type netErr struct{ temp bool }

func (e netErr) Error() string   { return "accept failed" }
func (e netErr) Temporary() bool { return e.temp }
func (e netErr) Timeout() bool   { return !e.temp }

type countConn struct {
	net.Conn
	mu     sync.Mutex
	closes int
}

func (c *countConn) Close() error {
	c.mu.Lock()
	c.closes++
	c.mu.Unlock()
	return c.Conn.Close()
}
func (l *scripted) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.times = append(l.times, time.Now())
	l.n++
	if l.n > len(l.script) {
		return nil, errors.New("accept called after the end")
	}
	switch l.script[l.n-1] {
	case 't':
		return nil, netErr{true}
	case 'p':
		return nil, netErr{false}
	case 'e':
		return nil, errors.New("no")
	}
	a, b := net.Pipe()
	c := &countConn{Conn: a}
	l.conns = append(l.conns, c)
	l.ends = append(l.ends, b)
	return c, nil
}
func (l *scripted) Close() error   { return nil }
func (l *scripted) Addr() net.Addr { return &net.TCPAddr{} }

type oneUser struct{}

func (oneUser) Authenticate(l, p string) bool { return l == "user" && p == "pw" }

type recStore struct {
	mu sync.Mutex
	q  []*frame.Frame
}

func (s *recStore) Enqueue(q string, f *frame.Frame) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.q = append(s.q, f)
	return nil
}
func (s *recStore) Requeue(q string, f *frame.Frame) error { return nil }
func (s *recStore) Dequeue(q string) (*frame.Frame, error) { return nil, nil }
func (s *recStore) Start()                                 {}
func (s *recStore) Stop()                                  {}
func (s *recStore) len() int                               { s.mu.Lock(); defer s.mu.Unlock(); return len(s.q) }

func readFrame(c net.Conn, r *bufio.Reader, d time.Duration) string {
	c.SetReadDeadline(time.Now().Add(d))
	s, err := r.ReadString(0)
	if err != nil {
		return "nothing"
	}
	return s
}

// again: only a delay that is too long every time counts (the machine may be busy).
func again(script string) (m string) {
	for i := 0; i < 3; i++ {
		if m = acceptRound(script, &Server{}); m == "" {
			return
		}
	}
	return
}

// acceptRound: the accept loop over a script of outcomes.
func acceptRound(script string, s *Server) string {
	s.Log = acceptLog{}
	l := &scripted{script: script}
	proc := newRequestProcessor(s)
	end := make(chan bool, 1)
	go func() {
		proc.Listen(l)
		end <- true
	}()
	go func() { // the processor
		for range proc.ch {
		}
	}()
	in := fmt.Sprintf("Accept outcomes %q (t temporary failure, c connection, p and e permanent failures)", script)
	stop := strings.IndexAny(script, "pe")
	select {
	case <-end:
	case <-time.After(30 * time.Second):
		return in + ": the accept loop does not end"
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.n != stop+1 {
		return fmt.Sprintf("%s: the accept loop ended after %d outcomes, it should be %d", in, l.n, stop+1)
	}
	d := time.Duration(0)
	for i := 0; i+1 < l.n; i++ {
		gap := l.times[i+1].Sub(l.times[i])
		if script[i] == 'c' {
			d = 0
			if gap > 200*time.Millisecond {
				return fmt.Sprintf("%s: %v from the connection at position %d to the next Accept", in, gap, i)
			}
			continue
		}
		if d == 0 {
			d = 5 * time.Millisecond
		} else {
			d *= 2
		}
		if d > 5*time.Second {
			d = 5 * time.Second
		}
		if gap < d || gap > d+90*time.Millisecond {
			return fmt.Sprintf("%s: the delay after the failure at position %d is %v, it should be %v", in, i, gap, d)
		}
	}
	// every connection is served, once
	for i, e := range l.ends {
		if m := greet(in, i, e, l.conns[i]); m != "" {
			return m
		}
	}
	return ""
}

func greet(in string, i int, e net.Conn, c *countConn) string {
	r := bufio.NewReader(e)
	e.SetWriteDeadline(time.Now().Add(2 * time.Second))
	if _, err := e.Write([]byte("CONNECT\naccept-version:1.2\n\n\x00")); err != nil {
		return fmt.Sprintf("%s: connection %d is not read from", in, i)
	}
	if f := readFrame(e, r, 2*time.Second); !strings.HasPrefix(f, "CONNECTED\n") {
		return fmt.Sprintf("%s: connection %d gets %q for a CONNECT frame", in, i, f)
	}
	e.Close()
	time.Sleep(20 * time.Millisecond)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closes != 1 {
		return fmt.Sprintf("%s: connection %d was closed %d times after its end", in, i, c.closes)
	}
	return ""
}

// served: a whole server with the given settings.
func served(rnd *rand.Rand) string {
	s := &Server{Log: acceptLog{}}
	var in []string
	hb := time.Minute
	switch rnd.Intn(5) {
	case 0:
		s.HeartBeat = []time.Duration{time.Second, 90 * time.Second, 20 * time.Minute, 61 * time.Millisecond, time.Microsecond, 24 * time.Hour}[rnd.Intn(6)]
		hb = s.HeartBeat
	}
	in = append(in, fmt.Sprintf("HeartBeat=%v", s.HeartBeat))
	auth := rnd.Intn(2) == 0
	if auth {
		s.Authenticator = oneUser{}
		in = append(in, "Authenticator admits user/pw only")
	}
	var st *recStore
	if rnd.Intn(2) == 0 {
		st = &recStore{}
		s.QueueStorage = st
		in = append(in, "own QueueStorage")
	}
	name := "Server with " + strings.Join(in, ", ")
	if got := newConfig(s).HeartBeat(); got != hb {
		return fmt.Sprintf("%s: the heart-beat setting in use is %v", name, got)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return ""
	}
	defer l.Close()
	go s.Serve(l)
	login := [][2]string{{"user", "pw"}, {"user", "no"}, {"", ""}, {"x", "pw"}}[rnd.Intn(4)]
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		return ""
	}
	defer c.Close()
	fmt.Fprintf(c, "CONNECT\naccept-version:1.2\nheart-beat:1,2\nlogin:%s\npasscode:%s\n\n\x00", login[0], login[1])
	r := bufio.NewReader(c)
	f := readFrame(c, r, 3*time.Second)
	admitted := !auth || login == [2]string{"user", "pw"}
	if admitted != strings.HasPrefix(f, "CONNECTED\n") {
		return fmt.Sprintf("%s: CONNECT with login %q and passcode %q gets %q", name, login[0], login[1], f)
	}
	if !admitted {
		return ""
	}
	min := int64(hb / time.Millisecond)
	x, y := int64(1), int64(2)
	if x < min {
		x = min
	}
	if y < min {
		y = min
	}
	if !strings.Contains(f, fmt.Sprintf("\nheart-beat:%d,%d\n", y, x)) {
		return fmt.Sprintf("%s: CONNECT with heart-beat 1,2 gets %q", name, f)
	}
	if hb < 10*time.Second {
		return "" // too short to stay connected
	}
	fmt.Fprintf(c, "SEND\ndestination:/queue/a\nreceipt:1\n\nx\x00")
	readFrame(c, r, 3*time.Second)
	time.Sleep(30 * time.Millisecond)
	if st != nil {
		if st.len() != 1 {
			return fmt.Sprintf("%s: %d messages reached the storage after one SEND", name, st.len())
		}
		return ""
	}
	fmt.Fprintf(c, "SUBSCRIBE\ndestination:/queue/a\nid:1\n\n\x00")
	for k := 0; ; k++ {
		f := readFrame(c, r, time.Second)
		if strings.HasPrefix(strings.TrimLeft(f, "\n"), "MESSAGE\n") {
			return ""
		}
		if f == "nothing" {
			return name + ": a message of a queue is not kept for a later subscriber"
		}
	}
}

func TestVerifReplayC28(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var wg sync.WaitGroup
	run := func(f func(rnd *rand.Rand) string, n int) {
		wg.Add(1)
		seed++
		rnd := rand.New(rand.NewSource(seed * 77))
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				if m := f(rnd); m != "" {
					t.Errorf("FAILING INPUT: %s", m)
					return
				}
			}
		}()
	}
	run(func(*rand.Rand) string { return again("ttttttttttttcttcp") }, 1)
	run(func(*rand.Rand) string { return again("ctttttttttttte") }, 1)
	for i := 0; i < 8; i++ {
		run(func(rnd *rand.Rand) string {
			b := ""
			for k := rnd.Intn(10); k > 0; k-- {
				b += []string{"t", "t", "c"}[rnd.Intn(3)]
			}
			return again(b + []string{"p", "e"}[rnd.Intn(2)] + "ctc")
		}, 8)
	}
	for i := 0; i < 8; i++ {
		run(served, 25)
	}
	// the default address
	if p, err := net.Listen("tcp", DefaultAddr); err == nil {
		p.Close()
		go (&Server{Log: acceptLog{}}).ListenAndServe()
		ok := false
		for i := 0; i < 50 && !ok; i++ {
			time.Sleep(20 * time.Millisecond)
			if c, err := net.Dial("tcp", "127.0.0.1:61613"); err == nil {
				ok = true
				c.Close()
			}
		}
		if !ok {
			t.Error("FAILING INPUT: ListenAndServe without an address does not listen on :61613")
		}
	}
	wg.Wait()
}
