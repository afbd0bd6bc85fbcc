package frame

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"
)

type c02frame struct {
	cmd  string
	hdr  []string
	body string
}

var c02commands = map[string]bool{"CONNECT": true, "STOMP": true, "SEND": true, "SUBSCRIBE": true, "UNSUBSCRIBE": true, "ACK": true, "NACK": true, "BEGIN": true, "COMMIT": true, "ABORT": true, "DISCONNECT": true, "CONNECTED": true, "MESSAGE": true, "RECEIPT": true, "ERROR": true}

func c02line(s string) (line, rest string, ok bool) {
	i := strings.Index(s, "\n")
	if i < 0 {
		return "", "", false
	}
	line, rest = s[:i], s[i+1:]
	if len(line) > 0 && line[len(line)-1] == '\r' {
		line = line[:len(line)-1]
	}
	return line, rest, true
}

func c02decode(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			switch s[i+1] {
			case 'r':
				b = append(b, '\r')
				i++
				continue
			case 'n':
				b = append(b, '\n')
				i++
				continue
			case 'c':
				b = append(b, ':')
				i++
				continue
			case '\\':
				b = append(b, '\\')
				i++
				continue
			}
		}
		b = append(b, s[i])
	}
	return string(b)
}

// the grammar: what the text starts with and what follows; heart-beats give nil
func c02parse(s string) (f *c02frame, rest string, ok bool) {
	line, s, ok := c02line(s)
	if !ok {
		return nil, "", false
	}
	if line == "" {
		return nil, s, true
	}
	f = &c02frame{cmd: line}
	if !c02commands[line] {
		return nil, "", false
	}
	for {
		line, s, ok = c02line(s)
		if !ok {
			return nil, "", false
		}
		if line == "" {
			break
		}
		i := strings.Index(line, ":")
		if i <= 0 {
			return nil, "", false
		}
		f.hdr = append(f.hdr, c02decode(line[:i]), c02decode(line[i+1:]))
	}
	for i := 0; i < len(f.hdr); i += 2 {
		if f.hdr[i] != "content-length" {
			continue
		}
		v := f.hdr[i+1]
		if v == "" {
			return nil, "", false
		}
		n := 0
		for j := 0; j < len(v); j++ {
			if v[j] < '0' || v[j] > '9' {
				return nil, "", false
			}
			n = n*10 + int(v[j]-'0')
			if n >= 1<<32 {
				return nil, "", false
			}
		}
		if n >= len(s) || s[n] != 0 {
			return nil, "", false
		}
		f.body = s[:n]
		return f, s[n+1:], true
	}
	n := strings.IndexByte(s, 0)
	if n < 0 {
		return nil, "", false
	}
	f.body = s[:n]
	return f, s[n+1:], true
}

type c02chunks struct {
	s   string
	rnd *rand.Rand
}

func (c *c02chunks) Read(p []byte) (int, error) {
	if c.s == "" {
		return 0, io.EOF
	}
	n := 1 + c.rnd.Intn(7)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.s)
	c.s = c.s[n:]
	return n, nil
}

func c02equal(f *Frame, w *c02frame) string {
	if (f == nil) != (w == nil) {
		return fmt.Sprintf("frame %v, want %+v", f, w)
	}
	if f == nil {
		return ""
	}
	if f.Command != w.cmd {
		return fmt.Sprintf("command %q, want %q", f.Command, w.cmd)
	}
	if f.Header == nil || f.Header.Len() != len(w.hdr)/2 {
		return fmt.Sprintf("header %v, want %q", f.Header, w.hdr)
	}
	for i := 0; i < f.Header.Len(); i++ {
		k, v := f.Header.GetAt(i)
		if k != w.hdr[2*i] || v != w.hdr[2*i+1] {
			return fmt.Sprintf("header entry %d is %q:%q, want %q:%q", i, k, v, w.hdr[2*i], w.hdr[2*i+1])
		}
	}
	if string(f.Body) != w.body {
		return fmt.Sprintf("body %.80q, want %.80q", f.Body, w.body)
	}
	return ""
}

func c02run(t *testing.T, name, text string, r *Reader) {
	show := text
	if len(show) > 300 {
		show = show[:300] + fmt.Sprintf("...(%d bytes)", len(text))
	}
	fail := func(f string, a ...interface{}) {
		t.Fatalf("FAILING INPUT: reading %q (%s): %s", show, name, fmt.Sprintf(f, a...))
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	var got []*Frame
	var want []*c02frame
	s := text
	for k := 0; ; k++ {
		w, rest, ok := c02parse(s)
		f, err := r.Read()
		if (err == nil) != ok {
			fail("read %d: error %v, well-formed: %v", k, err, ok)
		}
		if err != nil {
			if f != nil {
				fail("read %d: a frame and an error", k)
			}
			break
		}
		if m := c02equal(f, w); m != "" {
			fail("read %d: %s", k, m)
		}
		got, want = append(got, f), append(want, w)
		s = rest
	}
	for i := range got {
		if m := c02equal(got[i], want[i]); m != "" {
			fail("after all reads, frame %d has changed: %s", i, m)
		}
	}
}

func TestVerifReplayC02(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	all := func(text string) {
		c02run(t, "whole", text, NewReader(strings.NewReader(text)))
		c02run(t, "small buffer", text, NewReaderSize(strings.NewReader(text), 16))
		c02run(t, "byte by byte", text, NewReader(iotest.OneByteReader(strings.NewReader(text))))
		c02run(t, "chunks", text, NewReader(&c02chunks{text, rnd}))
		c02run(t, "end with data", text, NewReader(iotest.DataErrReader(strings.NewReader(text))))
	}
	commands := []string{"CONNECT", "STOMP", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT", "DISCONNECT", "CONNECTED", "MESSAGE", "RECEIPT", "ERROR",
		"send", "SEND ", " SEND", "SENDX", "SEN", "SEND\r", "\r", "S\x00", "\x00", "CONNECT:", "X", "SEND\tSEND"}
	lines := []string{"a:b", "destination:/queue/x", "content-length:3", "content-length:0", "content-length:", "content-length:+3", "content-length:-1", "content-length: 3", "content-length:3 ", "content-length:03", "content-length:4", "content-length:2", "content-length:4294967296", "content-length:18446744073709551616", "content-length:0x3", "content-length:3_0", "Content-Length:9", "a", ":b", "a:", ":", " ", "a:b:c", "a\\cb:c\\cd", "\\n:\\r\\n", "\\\\:\\\\n", "x\\t:\\", "x:\\\\\\", "\xff\xfe:\x00", "a:b\r", "a\r:b", "\r:b", "\\:b", "b:\\\\c\\n", "content\\clength:1", "content-length:3\\n", strings.Repeat("k", 5000) + ":" + strings.Repeat("v", 70)}
	bodies := []string{"", "abc", "\x00", "ab\x00", "a\nb", "abc\x00\x00", "\r\n\r\n", "abcd", strings.Repeat("x", 9000)}
	ends := []string{"\x00", "", "\n", "\x00\n", "\x00\n\n\r\nSEND\n\nz\x00", "\x00SEND\n\nz\x00", "\x00garbage"}
	eols := []string{"\n", "\r\n"}
	for _, text := range []string{"", "\n", "\r\n", "\n\n\r\n", "\r", "\r\r\n", "\x00", "\n\x00", "SEND", "SEND\n", "SEND\n\n", "SEND\n\n\x00", "SEND\n:\n\n\x00", "\r\nSEND\r\n\r\n\x00"} {
		all(text)
	}
	for _, c := range commands {
		for _, e := range eols {
			for _, l := range lines {
				for bi, b := range bodies {
					if len(l) > 1000 && bi > 2 || len(b) > 1000 && rnd.Intn(8) != 0 {
						continue
					}
					text := c + e + l + e + e + b + ends[rnd.Intn(len(ends))]
					if rnd.Intn(3) == 0 {
						all(text)
					} else {
						c02run(t, "whole", text, NewReader(strings.NewReader(text)))
					}
				}
			}
		}
	}
	for _, e := range ends {
		for _, b := range bodies {
			for _, l := range lines[:20] {
				all("SEND\n" + l + "\n\n" + b + e)
			}
		}
	}
	pick := func(l []string) string { return l[rnd.Intn(len(l))] }
	for round := 0; round < 60000; round++ {
		var b bytes.Buffer
		for n := 1 + rnd.Intn(3); n > 0; n-- {
			if rnd.Intn(5) == 0 {
				b.WriteString(pick(eols))
			}
			if rnd.Intn(4) == 0 {
				b.WriteString(pick(commands))
			} else {
				b.WriteString(commands[rnd.Intn(15)])
			}
			b.WriteString(pick(eols))
			for k := rnd.Intn(4); k > 0; k-- {
				l := pick(lines)
				if rnd.Intn(3) != 0 {
					l = fmt.Sprintf("k%d:%s", rnd.Intn(3), pick([]string{"", "v", "\\n", "\\\\", "x\\cy", "\\\\\\c", ":"}))
				}
				if len(l) > 1000 && rnd.Intn(10) != 0 {
					continue
				}
				b.WriteString(l + pick(eols))
			}
			b.WriteString(pick(eols))
			b.WriteString(pick(bodies[:7]))
			if rnd.Intn(4) != 0 {
				b.WriteString("\x00")
			} else {
				b.WriteString(pick(ends))
			}
		}
		x := b.Bytes()
		for k := rnd.Intn(3); k > 0 && len(x) > 0; k-- {
			switch i := rnd.Intn(len(x)); rnd.Intn(4) {
			case 0:
				x[i] = "\x00\n\r:\\nrc7A"[rnd.Intn(10)]
			case 1:
				x = append(x[:i:i], x[i+1:]...)
			case 2:
				x = x[:i]
			default:
				x = append(x[:i:i], append([]byte{"\x00\n\r:\\0"[rnd.Intn(6)]}, x[i:]...)...)
			}
		}
		// no frame claims a body larger than a megabyte (it would be allocated)
		if c02big(string(x)) {
			continue
		}
		if round%10 == 0 {
			all(string(x))
		} else {
			c02run(t, "whole", string(x), NewReader(strings.NewReader(string(x))))
			c02run(t, "chunks", string(x), NewReader(&c02chunks{string(x), rnd}))
		}
	}
}

func c02big(s string) bool {
	for {
		i := strings.Index(s, "content-length:")
		if i < 0 {
			return false
		}
		s = s[i+15:]
		n := 0
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		if n == 8 || n == 9 || n == 10 && s[:n] < "4294967296" {
			return true
		}
	}
}
