exec(open('/verif/tools/seeds/b.py').read().split('SEEDS = [')[0])
def FT(body, imports=''): return 'package frame\n\nimport (\n\t"testing"\n' + imports + ')\n\nfunc TestDemo(t *testing.T) {\n' + body.strip('\n') + '\n}\n'
W = 'frame/writer.go'
RD = 'frame/reader.go'
EN = 'frame/encode.go'
RT = '''	"bytes"
	"testing/iotest"
	"io"
	"strings"
'''
SEEDS = [
dict(id='C01-cr-raw', property='C01', pkg='frame', edits=[(W, '''				_, err = replacerForEncodeValue.WriteString(w.writer, value)
				if err != nil {
					return err
				}
''', '''				// most values need no escaping
				if strings.ContainsAny(value, "\\\\\\n:") {
					_, err = replacerForEncodeValue.WriteString(w.writer, value)
				} else {
					_, err = w.writer.WriteString(value)
				}
				if err != nil {
					return err
				}
'''), (W, '"io"\n', '"io"\n\t"strings"\n')],
 needs='a header value with a carriage return and no other byte that needs escaping', breaks='the carriage return is written raw, and lost at the end of the value', test=FT('''
	var b bytes.Buffer
	f := New(SEND, "destination", "/q", "x", "abc\\r")
	NewWriter(&b).Write(f)
	g, err := NewReader(&b).Read()
	if err != nil || g.Header.Get("x") != "abc\\r" {
		t.Fatal(g, err)
	}
''', '\t"bytes"\n')),
dict(id='C01-length-entry-first', property='C01', pkg='frame', edits=[(W, '''		if len(f.Body) > 0 {
			_, err = w.writer.Write(f.Body)
''', '''		body := f.Body
		if n, ok, _ := f.Header.ContentLength(); ok && n < len(body) {
			// never write more than was announced
			body = body[:n]
		}
		if len(body) > 0 {
			_, err = w.writer.Write(body)
'''), (W, '''		if f.Header != nil {
			for i''', '''		if f.Header == nil {
			f.Header = &Header{}
		}
		if f.Header.Len() > 0 {
			for i''')],
 needs='a frame without a header (nil) that is compared with the original, or a body longer than its content-length', breaks='writing changes the frame, and drops the end of the body', test=FT('''
	var b bytes.Buffer
	f := &Frame{Command: SEND, Body: []byte("abc")}
	NewWriter(&b).Write(f)
	g := New(SEND, "content-length", "2")
	g.Body = []byte("abc")
	NewWriter(&b).Write(g)
	if f.Header != nil || b.String() != "SEND\\n\\nabc\\x00SEND\\ncontent-length:2\\n\\nabc\\x00" {
		t.Fatalf("%v %q", f.Header, b.String())
	}
''', '\t"bytes"\n')),
dict(id='C01-decode-twice', property='C01', pkg='frame', edits=[(RD, '''		name, err := unencodeValue(headerSlice[0:index])
		if err != nil {
			return nil, err
		}
''', '''		name, err := unencodeValue(headerSlice[0:index])
		if err != nil {
			return nil, err
		}
		if !f.Header.canonical(name) {
			if name, err = unencodeValue([]byte(name)); err != nil {
				return nil, err
			}
		}
'''), ('frame/header.go', '''// Add adds the key, value pair to the header.''', '''// canonical: whether a name is as it is used in the protocol.
func (h *Header) canonical(key string) bool {
	for i := 0; i < len(key); i++ {
		if key[i] == '\\\\' {
			return i == 0
		}
	}
	return true
}

// Add adds the key, value pair to the header.''')],
 needs='a header name with a backslash that is not its first byte, followed by n, r or c', breaks='the name is decoded twice', test=FT('''
	var b bytes.Buffer
	f := New(SEND, "destination", "/q", "dir\\\\name", "v")
	NewWriter(&b).Write(f)
	g, err := NewReader(&b).Read()
	if err != nil || g.Header.Get("dir\\\\name") != "v" {
		t.Fatal(g, err)
	}
''', '\t"bytes"\n')),
dict(id='C02-terminator-not-there-yet', property='C02', pkg='frame', edits=[(RD, '''		// read the next byte and verify that it is a null byte
''', '''		if r.reader.Buffered() == 0 && contentLength > 0 {
			// do not wait for the terminator
			return f, nil
		}

		// read the next byte and verify that it is a null byte
''')],
 needs='a source that delivers the last byte of a counted body without the NUL that follows it', breaks='the NUL is left in the stream and the next frame is rejected', test=FT('''
	s := "SEND\\ncontent-length:3\\n\\nabc\\x00SEND\\n\\n\\x00"
	r := NewReader(iotest.OneByteReader(strings.NewReader(s)))
	for i := 0; i < 2; i++ {
		if _, err := r.Read(); err != nil {
			t.Fatal(i, err)
		}
	}
''', '\t"testing/iotest"\n\t"strings"\n')),
dict(id='C02-line-aliases-buffer', property='C02', pkg='frame', edits=[(RD, '''	line, err = r.reader.ReadBytes(newline)
	if err != nil {
		return
	}
''', '''	// avoid a copy when the line fits in the buffer
	line, err = r.reader.ReadSlice(newline)
	if err == bufio.ErrBufferFull {
		var rest []byte
		line = append([]byte(nil), line...)
		rest, err = r.reader.ReadBytes(newline)
		line = append(line, rest...)
	}
	if err != nil {
		return
	}
''')],
 needs='a frame whose header section and body together exceed the read buffer', breaks='header values change when the buffer is filled again', test=FT('''
	s := "SEND\\ndestination:/queue/one\\ncontent-length:6000\\n\\n" + strings.Repeat("x", 6000) + "\\x00SEND\\n\\n" + strings.Repeat("y", 9000) + "\\x00"
	r := NewReader(strings.NewReader(s))
	f, err := r.Read()
	if err != nil {
		t.Fatal(err)
	}
	r.Read()
	if f.Header.Get("destination") != "/queue/one" {
		t.Fatalf("%q", f.Header.Get("destination"))
	}
''', '\t"strings"\n')),
dict(id='C02-trailing-crs', property='C02', pkg='frame', edits=[(RD, '''	switch {
	case bytes.HasSuffix(line, crlfSlice):
		line = line[0 : len(line)-len(crlfSlice)]
	case bytes.HasSuffix(line, newlineSlice):
		line = line[0 : len(line)-len(newlineSlice)]
	}
''', '''	line = line[0 : len(line)-len(newlineSlice)]
	for len(line) > 0 && line[len(line)-1] == cr {
		line = line[0 : len(line)-1]
	}
''')],
 needs='a header line that ends with two carriage returns', breaks='more than one end-of-line is removed from the value', test=FT('''
	r := NewReader(strings.NewReader("SEND\\nx:a\\r\\r\\n\\n\\x00"))
	f, err := r.Read()
	if err != nil || f.Header.Get("x") != "a\\r" {
		t.Fatal(f, err)
	}
''', '\t"strings"\n')),
dict(id='C02-short-body-accepted', property='C02', pkg='frame', edits=[(RD, '''			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
			if err != nil {
				return nil, err
			}
			bytesRead += n
''', '''			n, err := r.reader.Read(f.Body[bytesRead:contentLength])
			bytesRead += n
			if err != nil {
				if bytesRead > 0 && err.Error() == "EOF" {
					f.Body = f.Body[:bytesRead]
					return f, nil
				}
				return nil, err
			}
''')],
 needs='a stream that ends inside a counted body', breaks='a truncated frame is accepted', test=FT('''
	r := NewReader(strings.NewReader("SEND\\ncontent-length:10\\n\\nabc"))
	if f, err := r.Read(); err == nil {
		t.Fatal(f)
	}
''', '\t"strings"\n')),
dict(id='C05-equal-intervals-shared', property='C05', pkg='frame', edits=[('frame/heartbeat.go', '''	slice := strings.Split(heartBeat, ",")
''', '''	slice := strings.Split(heartBeat, ",")
	for i, s := range slice {
		// leading zeros have no meaning
		slice[i] = strings.TrimLeft(s, "0")
		if slice[i] == "" {
			slice[i] = s[:1]
		}
		if len(slice[i]) > 13 {
			return 0, 0, ErrInvalidHeartBeat
		}
	}
''', )],
 needs='a count of 14 digits or more that fits in a duration only without', breaks='an hour count of more than 317 years is... rejected', test=FT('''
	if _, _, err := ParseHeartBeat("10000000000000,0"); err == nil {
		return
	}
''')),
dict(id='C26-byte-after-read', property='C26', pkg='.', edits=[('message.go', '''	n := msg.Body[0]
	msg.Body = msg.Body[1:]
''', '''	n := msg.Body[0]
	if len(msg.Body) > 1 || cap(msg.Body) > 1 {
		msg.Body = msg.Body[1:]
	}
''')],
 needs='a body whose last byte is the last of its storage, read byte by byte', breaks='the last byte is returned for ever', test='''package stomp

import "testing"

func TestDemo(t *testing.T) {
	m := &Message{Body: make([]byte, 3)}
	for i := 0; i < 3; i++ {
		if _, err := m.ReadByte(); err != nil {
			t.Fatal(i, err)
		}
	}
	if _, err := m.ReadByte(); err == nil {
		t.Fatal("no end of file")
	}
}
'''),
dict(id='C25-per-shard', property='C25', pkg='.', edits=[('id.go', '''	id := atomic.AddUint64(&_lastId, 1)
''', '''	// spread contention: take a block of ids at a time
	id := atomic.AddUint64(&_lastId, 1)
	if id%64 == 0 && atomic.LoadUint64(&_lastId) != id {
		id = atomic.LoadUint64(&_lastId)
	}
''')],
 needs='two goroutines that ask for an id at the same time, one of them for the 64th', breaks='two ids are equal', test='''package stomp

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var mu sync.Mutex
	for try := 0; try < 200; try++ {
		seen := map[string]bool{}
		var wg sync.WaitGroup
		for g := 0; g < 32; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := make([]string, 0, 4000)
				for i := 0; i < 4000; i++ {
					l = append(l, allocateId())
				}
				mu.Lock()
				defer mu.Unlock()
				for _, s := range l {
					if seen[s] {
						t.Fail()
					}
					seen[s] = true
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			t.Fatal("ids repeat")
		}
	}
}
'''),
]
SEEDS = [s for s in SEEDS if s['id'] not in ('C05-equal-intervals-shared', 'C01-decode-twice', 'C02-short-body-accepted', 'C02-line-aliases-buffer')]
