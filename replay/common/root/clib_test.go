package stomp

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

// A client connection and the other end of its network connection.

type vLog struct{}

func (vLog) Debugf(string, ...interface{})   {}
func (vLog) Infof(string, ...interface{})    {}
func (vLog) Warningf(string, ...interface{}) {}
func (vLog) Errorf(string, ...interface{})   {}
func (vLog) Debug(string)                    {}
func (vLog) Info(string)                     {}
func (vLog) Warning(string)                  {}
func (vLog) Error(string)                    {}

type vPeer struct {
	mu        sync.Mutex
	cond      *sync.Cond
	frames    []*frame.Frame // what the client wrote; nil for a heart-beat
	closes    int
	ended     bool
	out       chan string
	r         *io.PipeReader // the client reads from here
	w         *io.PipeWriter // the client writes here
	cr        *io.PipeReader
	failWrite bool
	answer    func(f *frame.Frame) string
	connected string
}

func (p *vPeer) Read(b []byte) (int, error) { return p.r.Read(b) }
func (p *vPeer) Write(b []byte) (int, error) {
	p.mu.Lock()
	fl := p.failWrite
	p.mu.Unlock()
	if fl {
		return 0, io.ErrClosedPipe
	}
	return p.w.Write(b)
}
func (p *vPeer) Close() error {
	p.mu.Lock()
	p.closes++
	p.cond.Broadcast()
	p.mu.Unlock()
	p.w.Close()
	p.r.Close()
	return nil
}

func newPeer() *vPeer {
	p := &vPeer{out: make(chan string, 10000)}
	p.cond = sync.NewCond(&p.mu)
	var sw *io.PipeWriter
	p.r, sw = io.Pipe()
	p.cr, p.w = io.Pipe()
	go func() {
		for s := range p.out {
			if s == "CLOSE" {
				sw.Close()
				return
			}
			if _, err := io.WriteString(sw, s); err != nil {
				return
			}
		}
	}()
	go func() {
		rd := frame.NewReader(p.cr)
		for {
			f, err := rd.Read()
			p.mu.Lock()
			if err != nil {
				p.ended = true
				p.cond.Broadcast()
				p.mu.Unlock()
				return
			}
			p.frames = append(p.frames, f)
			an := p.answer
			p.cond.Broadcast()
			p.mu.Unlock()
			if f == nil {
				continue
			}
			switch f.Command {
			case frame.CONNECT, frame.STOMP:
				p.out <- p.connected
			default:
				if an != nil {
					if s := an(f); s != "" {
						p.out <- s
					}
				}
			}
		}
	}()
	return p
}

func vEsc(s string) string {
	return strings.NewReplacer("\\", "\\\\", "\r", "\\r", "\n", "\\n", ":", "\\c").Replace(s)
}

// the text of a frame
func vText(cmd string, body string, kv ...string) string {
	s := cmd + "\n"
	for i := 0; i+1 < len(kv); i += 2 {
		s += vEsc(kv[i]) + ":" + vEsc(kv[i+1]) + "\n"
	}
	return s + "\n" + body + "\x00"
}

// a server that confirms everything it is asked to confirm
func vConfirm(f *frame.Frame) string {
	if id, ok := vHas(f, "receipt"); ok {
		return vText("RECEIPT", "", "receipt-id", id)
	}
	return ""
}

func vHas(f *frame.Frame, k string) (string, bool) {
	for i := 0; i < f.Header.Len(); i++ {
		if a, b := f.Header.GetAt(i); a == k {
			return b, true
		}
	}
	return "", false
}

func vGet(f *frame.Frame, k string) string { v, _ := vHas(f, k); return v }

func vDial(t *testing.T, version string, opts ...func(*Conn) error) (*Conn, *vPeer) {
	p := newPeer()
	p.answer = vConfirm
	p.connected = vText("CONNECTED", "", "version", version)
	if version == "" {
		p.connected = vText("CONNECTED", "")
	}
	var c *Conn
	var err error
	if !vWithin(func() {
		c, err = Connect(p, append([]func(*Conn) error{ConnOpt.Logger(vLog{}), ConnOpt.AcceptVersion(V10), ConnOpt.AcceptVersion(V11), ConnOpt.AcceptVersion(V12), ConnOpt.HeartBeat(0, 0)}, opts...)...)
	}) {
		t.Fatalf("FAILING INPUT: Connect does not return when the server answers %q", p.connected)
	}
	if err != nil {
		t.Fatalf("FAILING INPUT: Connect fails with %v when the server answers %q", err, p.connected)
	}
	return c, p
}

// vWithin runs f and reports whether it came back.
func vWithin(f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(5 * time.Second):
		return false
	}
}

// count of frames received so far (without the CONNECT frame)
func (p *vPeer) n() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for _, f := range p.frames {
		if f != nil {
			n++
		}
	}
	return n - 1
}

func (p *vPeer) frame(i int) *frame.Frame {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for _, f := range p.frames {
		if f != nil {
			if n == i+1 {
				return f
			}
			n++
		}
	}
	return nil
}

// wait until cond holds; cond runs with the lock held
func (p *vPeer) wait(cond func() bool) bool {
	lim := time.Now().Add(5 * time.Second)
	for {
		p.mu.Lock()
		ok := cond()
		p.mu.Unlock()
		if ok {
			return true
		}
		if time.Now().After(lim) {
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func (p *vPeer) waitFrames(n int) bool {
	return vSoon(func() bool { return p.n() >= n })
}

func (p *vPeer) setAnswer(f func(f *frame.Frame) string) {
	p.mu.Lock()
	p.answer = f
	p.mu.Unlock()
}

func (p *vPeer) closed() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closes
}

func vSoon(cond func() bool) bool {
	lim := time.Now().Add(5 * time.Second)
	for !cond() {
		if time.Now().After(lim) {
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
	return true
}

func vRand() *rand.Rand {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(seed))
}

// the entries of a frame, those with the same name in order
func vEntries(f *frame.Frame) []string {
	var kv []string
	for i := 0; i < f.Header.Len(); i++ {
		k, v := f.Header.GetAt(i)
		kv = append(kv, k, v)
	}
	return vSorted(kv)
}

func vSorted(kv []string) []string {
	var out []string
	var ks []string
	for i := 0; i+1 < len(kv); i += 2 {
		ks = append(ks, kv[i])
	}
	sort.Strings(ks)
	for j, k := range ks {
		if j > 0 && ks[j-1] == k {
			continue
		}
		for i := 0; i+1 < len(kv); i += 2 {
			if kv[i] == k {
				out = append(out, fmt.Sprintf("%q:%q", k, kv[i+1]))
			}
		}
	}
	return out
}

func vSame(f *frame.Frame, cmd string, body string, kv []string) string {
	if f == nil {
		return "no frame"
	}
	if f.Command != cmd {
		return fmt.Sprintf("a %s frame instead of %s", f.Command, cmd)
	}
	if g, w := strings.Join(vEntries(f), " "), strings.Join(vSorted(kv), " "); g != w {
		return fmt.Sprintf("the entries of the %s frame are %s instead of %s", cmd, g, w)
	}
	if string(f.Body) != body {
		return fmt.Sprintf("the body is %q instead of %q", f.Body, body)
	}
	return ""
}

// header operations on a list of names and values
func vDel(kv []string, k string) []string {
	var out []string
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] != k {
			out = append(out, kv[i], kv[i+1])
		}
	}
	return out
}

func vSet(kv []string, k, v string) []string {
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == k {
			kv = append([]string(nil), kv...)
			kv[i+1] = v
			return kv
		}
	}
	return append(append([]string(nil), kv...), k, v)
}

func vVal(kv []string, k string) (string, bool) {
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == k {
			return kv[i+1], true
		}
	}
	return "", false
}
