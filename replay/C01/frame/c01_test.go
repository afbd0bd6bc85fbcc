package frame

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

type c01frame struct {
	cmd  string
	hdr  []string
	body string
}

func (f *c01frame) frame() *Frame {
	g := New(f.cmd, f.hdr...)
	g.Body = []byte(f.body)
	return g
}

func c01escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			b.WriteString("\\\\")
		case '\r':
			b.WriteString("\\r")
		case '\n':
			b.WriteString("\\n")
		case ':':
			b.WriteString("\\c")
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func (f *c01frame) text() string {
	if f == nil {
		return "\n"
	}
	s := f.cmd + "\n"
	for i := 0; i < len(f.hdr); i += 2 {
		s += c01escape(f.hdr[i]) + ":" + c01escape(f.hdr[i+1]) + "\n"
	}
	return s + "\n" + f.body + "\x00"
}

// readable: the frames that the reader must give back
func (f *c01frame) readable() bool {
	for i := 0; i < len(f.hdr); i += 2 {
		if f.hdr[i] == "" {
			return false
		}
	}
	for i := 0; i < len(f.hdr); i += 2 {
		if f.hdr[i] == "content-length" {
			return f.hdr[i+1] == strconv.Itoa(len(f.body))
		}
	}
	return !strings.Contains(f.body, "\x00")
}

func c01run(t *testing.T, fs []*c01frame, after string, size int) {
	var show string
	for _, f := range fs {
		if f == nil {
			show += " nil"
		} else {
			show += fmt.Sprintf(" {%s %.200q %.100q}", f.cmd, f.hdr, f.body)
		}
	}
	fail := func(m string, a ...interface{}) {
		t.Fatalf("FAILING INPUT: writing%s: %s", show, fmt.Sprintf(m, a...))
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	var out bytes.Buffer
	w := NewWriterSize(&out, size)
	want := ""
	for i, f := range fs {
		var g *Frame
		if f != nil {
			g = f.frame()
		}
		if err := w.Write(g); err != nil {
			fail("write %d: %v", i, err)
		}
		want += f.text()
		if out.String() != want {
			fail("write %d: wrote %.300q, want %.300q", i, out.String(), want)
		}
		if g != nil && (string(g.Body) != f.body || g.Header.Len() != len(f.hdr)/2) {
			fail("write %d changed the frame", i)
		}
	}
	out.WriteString(after)
	r := NewReaderSize(&out, 16)
	for i, f := range fs {
		if f != nil && !f.readable() {
			return
		}
		g, err := r.Read()
		if err != nil {
			fail("reading frame %d back: %v", i, err)
		}
		if (g == nil) != (f == nil) {
			fail("frame %d read back as %v", i, g)
		}
		if f == nil {
			continue
		}
		var hdr []string
		for k := 0; k < g.Header.Len(); k++ {
			a, b := g.Header.GetAt(k)
			hdr = append(hdr, a, b)
		}
		if g.Command != f.cmd || string(g.Body) != f.body || fmt.Sprintf("%q", hdr) != fmt.Sprintf("%q", f.hdr) {
			fail("frame %d read back as {%s %.200q %.100q}", i, g.Command, hdr, g.Body)
		}
	}
	var rest []byte
	for {
		b, err := r.reader.ReadByte()
		if err != nil {
			break
		}
		rest = append(rest, b)
	}
	if string(rest) != after {
		fail("%.100q follows, want %.100q", rest, after)
	}
}

func TestVerifReplayC01(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	commands := []string{CONNECT, CONNECTED, STOMP, SEND, SUBSCRIBE, UNSUBSCRIBE, ACK, NACK, BEGIN, COMMIT, ABORT, DISCONNECT, MESSAGE, RECEIPT, ERROR}
	text := func() string {
		switch rnd.Intn(12) {
		case 0:
			return strings.Repeat(string([]byte{byte(rnd.Intn(256))}), 1+rnd.Intn(9000))
		case 1:
			return "content-length"
		}
		var b []byte
		for n := rnd.Intn(6); n > 0; n-- {
			b = append(b, "\\\r\n:rnc\x00 ab\xff\xc3\xa9"[rnd.Intn(14)])
		}
		return string(b)
	}
	one := func(c string) *c01frame {
		f := &c01frame{cmd: c, body: text(), hdr: []string{}}
		for n := rnd.Intn(4); n > 0; n-- {
			k := text()
			if k == "" && rnd.Intn(4) != 0 {
				k = "k"
			}
			f.hdr = append(f.hdr, k, text())
		}
		if rnd.Intn(2) == 0 {
			i := 2 * rnd.Intn(len(f.hdr)/2+1)
			f.hdr = append(f.hdr[:i:i], append([]string{"content-length", strconv.Itoa(len(f.body))}, f.hdr[i:]...)...)
		}
		for i := 0; i < len(f.hdr); i += 2 {
			if f.hdr[i] == "" {
				f.hdr[i] = "content-type"
			}
		}
		return f
	}
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j += 1 + rnd.Intn(9) {
			s := string([]byte{byte(i), byte(j)})
			c01run(t, []*c01frame{{SEND, []string{"a" + s, s}, "x"}, {MESSAGE, []string{s, "a", "content-length", "2"}, s}}, "", 4096)
		}
	}
	for _, a := range commands {
		c01run(t, []*c01frame{{cmd: a}, nil, {cmd: a, body: "b"}}, "after", 4096)
	}
	for round := 0; round < 40000; round++ {
		var fs []*c01frame
		for n := 1 + rnd.Intn(3); n > 0; n-- {
			if rnd.Intn(6) == 0 {
				fs = append(fs, nil)
			} else {
				fs = append(fs, one(commands[rnd.Intn(len(commands))]))
			}
		}
		c01run(t, fs, text(), []int{16, 100, 4096}[rnd.Intn(3)])
	}
}
