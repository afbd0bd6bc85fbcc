T = '''package %s

import "testing"

func TestDemo(t *testing.T) {
%s
}
'''
SEEDS = [
dict(id='C13-requeue-after-drain', property='C13', pkg='server/queue',
 edits=[('server/queue/memory_queue.go', '''	element := l.Front()
	if element == nil {
		return nil, nil
	}

	return l.Remove(element).(*frame.Frame), nil''', '''	element := l.Front()
	if element == nil {
		return nil, nil
	}

	f := l.Remove(element).(*frame.Frame)
	if l.Front() == nil && len(m.lists) > 16 {
		// nothing left: forget idle destinations
		m.lists = map[string]*list.List{queue: l}
	}
	return f, nil''')],
 test='''package queue

import (
	"fmt"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func TestDemo(t *testing.T) {
	s := NewMemoryQueueStorage()
	for i := 0; i < 20; i++ {
		d := fmt.Sprint("/queue/", i)
		s.Enqueue(d, frame.New(frame.MESSAGE, frame.Destination, d))
	}
	s.Dequeue("/queue/0")
	for _, d := range []string{"/queue/1", "/queue/19"} {
		if f, _ := s.Dequeue(d); f == nil || f.Header.Get("destination") != d {
			t.Fatalf("message for %s lost", d)
		}
	}
}
''', needs='more than 16 destinations with messages, one of which is drained', breaks='draining one destination drops the messages of the others'),
dict(id='C14-subscribe-overtakes', property='C14', pkg='server/queue',
 edits=[('server/client/subscription_list.go', '''	if sub.subList != nil {
		panic("subscription is already in a subscription list")
	}
	sl.subs.PushBack(sub)
	sub.subList = sl''', '''	if sub.subList != nil {
		panic("subscription is already in a subscription list")
	}
	if back := sl.subs.Back(); back != nil && sub.msgId != 0 && back.Value.(*Subscription).msgId == 0 {
		// subscriptions that have been served before are known to be alive
		sl.subs.InsertBefore(sub, back)
	} else {
		sl.subs.PushBack(sub)
	}
	sub.subList = sl''')],
 test='''package queue

import (
	"bufio"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/log"
	"github.com/go-stomp/stomp/v3/server/client"
)

type demoConf struct{}

func (demoConf) HeartBeat() time.Duration                { return time.Minute }
func (demoConf) Authenticate(login, passcode string) bool { return true }
func (demoConf) Logger() stomp.Logger                     { return log.StdLogger{} }

func TestDemo(t *testing.T) {
	ch := make(chan client.Request, 100)
	a, b := net.Pipe()
	defer b.Close()
	client.NewConn(demoConf{}, a, ch)
	r := bufio.NewReader(b)
	frameOf := func() string { s, _ := r.ReadString(0); return s }
	send := func(s string) { b.Write([]byte(s + "\\x00")) }
	sub := func() *client.Subscription {
		for q := range ch {
			if q.Op == client.SubscribeOp {
				return q.Sub
			}
		}
		return nil
	}
	send("CONNECT\\naccept-version:1.2\\nhost:x\\n\\n")
	frameOf()
	q := NewManager(NewMemoryQueueStorage()).Find("/queue/a")
	send("SUBSCRIBE\\nid:1\\nack:client-individual\\ndestination:/queue/a\\n\\n")
	s1 := sub()
	q.Subscribe(s1)
	q.Enqueue(frame.New(frame.MESSAGE, "destination", "/queue/a", "n", "1"))
	frameOf()
	send("SUBSCRIBE\\nid:2\\nack:client-individual\\ndestination:/queue/a\\n\\n")
	q.Subscribe(sub())
	send("ACK\\nid:1\\n\\n")
	q.Subscribe(sub())
	q.Enqueue(frame.New(frame.MESSAGE, "destination", "/queue/a", "n", "2"))
	if m := frameOf(); !strings.Contains(m, "subscription:2\\n") {
		t.Fatalf("message went to the subscription that has waited less: %q", m)
	}
}
''', needs='a subscription that has settled a message becomes ready behind a newly made one', breaks='the newer of two waiting subscriptions is served first'),
dict(id='C14-requeue-error-path', property='C14', pkg='server/queue',
 edits=[('server/queue/queue.go', '''	if f == nil {
		// no frame available, so add to the subscription list
		q.subs.Add(sub)
	} else {''', '''	if f == nil {
		// no frame available, so add to the subscription list
		if sub.Ack() == frame.AckAuto {
			// a subscription waits once
			q.subs.FindByIdAndRemove(sub.Id())
		}
		q.subs.Add(sub)
	} else {''')],
 test='''package queue

import (
	"bufio"
	"net"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/internal/log"
	"github.com/go-stomp/stomp/v3/server/client"
)

type demoConf struct{}

func (demoConf) HeartBeat() time.Duration                { return time.Minute }
func (demoConf) Authenticate(login, passcode string) bool { return true }
func (demoConf) Logger() stomp.Logger                     { return log.StdLogger{} }

func TestDemo(t *testing.T) {
	q := NewManager(NewMemoryQueueStorage()).Find("/queue/a")
	for i := 0; i < 2; i++ {
		ch := make(chan client.Request, 100)
		a, b := net.Pipe()
		defer b.Close()
		client.NewConn(demoConf{}, a, ch)
		r := bufio.NewReader(b)
		b.Write([]byte("CONNECT\\naccept-version:1.2\\nhost:x\\n\\n\\x00"))
		r.ReadString(0)
		b.Write([]byte("SUBSCRIBE\\nid:1\\ndestination:/queue/a\\n\\n\\x00"))
		for x := range ch {
			if x.Op == client.SubscribeOp {
				q.Subscribe(x.Sub)
				break
			}
		}
		defer func(i int) {
			got := make(chan string, 1)
			go func() { s, _ := r.ReadString(0); got <- s }()
			select {
			case <-got:
			case <-time.After(3 * time.Second):
				t.Fatalf("connection %d got nothing", i)
			}
		}(i)
	}
	q.Enqueue(frame.New(frame.MESSAGE, "destination", "/queue/a"))
	q.Enqueue(frame.New(frame.MESSAGE, "destination", "/queue/a"))
}
''', needs='two connections whose automatic subscriptions to a queue have the same id', breaks='a waiting subscription of another connection is dropped'),
dict(id='C15-clone-late', property='C15', pkg='server/topic',
 edits=[('server/topic/topic.go', '''			if e.Next() == nil {
				// the last in the list, send the frame
				// without copying
				sub.SendTopicFrame(f)
			} else {
				sub.SendTopicFrame(f.Clone())
			}''', '''			if e.Next() == nil {
				// the last in the list, send the frame
				// without copying
				sub.SendTopicFrame(f)
			} else {
				c := f.Clone()
				if t.subs.Len() > 2 {
					// large bodies are not copied for every subscriber
					c.Body = f.Body
				}
				sub.SendTopicFrame(c)
			}''')],
 test='''package topic

import (
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

type demoSub struct{ f *frame.Frame }

func (s *demoSub) SendTopicFrame(f *frame.Frame) { s.f = f }

func TestDemo(t *testing.T) {
	top := NewManager().Find("/topic/a")
	var subs [3]demoSub
	for i := range subs {
		top.Subscribe(&subs[i])
	}
	f := frame.New(frame.MESSAGE, "destination", "/topic/a")
	f.Body = []byte("abc")
	top.Enqueue(f)
	subs[0].f.Body[0] = 'X'
	if string(subs[1].f.Body) != "abc" || string(subs[2].f.Body) != "abc" {
		t.Fatal("the deliveries share their body")
	}
}
''', needs='three subscribers and a body that one of them changes', breaks='deliveries share body storage'),
dict(id='C16-topic-case', property='C16', pkg='server',
 edits=[('server/processor.go', '''			// only requeue to queues, should never happen for topics
			if isQueueDestination(destination) {
				queue := proc.qm.Find(destination)
				queue.Requeue(r.Frame)
			}''', '''			// only requeue to queues, should never happen for topics
			if isQueueDestination(destination) {
				queue := proc.qm.Find(strings.TrimSuffix(destination, "/"))
				queue.Requeue(r.Frame)
			}''')],
 test='''package server

import (
	"errors"
	"net"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server/client"
	"github.com/go-stomp/stomp/v3/server/queue"
)

type demoL struct{}

func (demoL) Accept() (net.Conn, error) { return nil, errors.New("x") }
func (demoL) Close() error              { return nil }
func (demoL) Addr() net.Addr            { return &net.TCPAddr{} }

func TestDemo(t *testing.T) {
	st := queue.NewMemoryQueueStorage()
	p := newRequestProcessor(&Server{QueueStorage: st})
	p.ch = make(chan client.Request)
	go p.Serve(demoL{})
	f := frame.New(frame.MESSAGE, "destination", "/queue/a/")
	p.ch <- client.Request{Op: client.RequeueOp, Frame: f}
	p.ch <- client.Request{Op: client.ConnectedOp}
	if g, _ := st.Dequeue("/queue/a/"); g != f {
		t.Fatal("returned to another queue")
	}
}
''', needs='a message returned to a queue whose name ends with a slash', breaks='the message goes back to another queue'),
dict(id='C16-manager-prefix', property='C16', pkg='server/topic',
 edits=[('server/topic/manager.go', '''	t, ok := tm.topics[destination]
	if !ok {
		t = newTopic(destination)
		tm.topics[destination] = t
	}
	return t''', '''	t, ok := tm.topics[destination]
	if !ok {
		// drop a topic that nobody uses to make room
		if len(tm.topics) >= 8 {
			for name, old := range tm.topics {
				if old.subs.Len() <= 1 {
					delete(tm.topics, name)
					break
				}
			}
		}
		t = newTopic(destination)
		tm.topics[destination] = t
	}
	return t''')],
 test='''package topic

import (
	"fmt"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

type demoSub struct{ n int }

func (s *demoSub) SendTopicFrame(f *frame.Frame) { s.n++ }

func TestDemo(t *testing.T) {
	m := NewManager()
	var subs [12]demoSub
	for i := range subs {
		m.Find(fmt.Sprint("/topic/", i)).Subscribe(&subs[i])
	}
	for i := range subs {
		m.Find(fmt.Sprint("/topic/", i)).Enqueue(frame.New(frame.MESSAGE))
		if subs[i].n != 1 {
			t.Fatalf("topic %d lost its subscription", i)
		}
	}
}
''', needs='more than eight topics', breaks='looking up a new topic forgets one that has a subscription'),
dict(id='C25-fast-path', property='C25', pkg='.',
 edits=[('id.go', '''	id := atomic.AddUint64(&_lastId, 1)
	return strconv.FormatUint(id, 10)''', '''	id := atomic.AddUint64(&_lastId, 1)
	return strconv.FormatUint(uint64(uint32(id)), 10)''')],
 test='''package stomp

import "testing"

func TestDemo(t *testing.T) {
	_lastId = 41
	a := allocateId()
	_lastId = 41 + 1<<32
	b := allocateId()
	if a == b {
		t.Fatal("two equal ids")
	}
}
''', needs='more than 2^32 ids in one process', breaks='ids repeat after 2^32'),
dict(id='C26-short-read', property='C26', pkg='.',
 edits=[('message.go', '''	n := copy(p, msg.Body)
	msg.Body = msg.Body[n:]
	return n, nil''', '''	n := copy(p, msg.Body)
	msg.Body = msg.Body[n:]
	if n == len(p) && n > 0 && len(msg.Body) == 0 {
		// the buffer took exactly what was left
		return n, io.EOF
	}
	return n, nil''')],
 test='''package stomp

import "testing"

func TestDemo(t *testing.T) {
	m := &Message{Body: []byte("abcd")}
	p := make([]byte, 4)
	if n, err := m.Read(p); n != 4 || err != nil {
		t.Fatalf("%d %v", n, err)
	}
}
''', needs='a buffer of exactly the remaining size', breaks='end of file is reported while bytes are returned'),
]
