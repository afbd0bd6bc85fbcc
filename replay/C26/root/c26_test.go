package stomp

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// Any sequence of reads returns the body once, in order.
func TestVerifReplayC26(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	for round := 0; round < 60000; round++ {
		body := make([]byte, rnd.Intn(12))
		for i := range body {
			body[i] = byte('a' + i)
			if rnd.Intn(4) == 0 {
				body[i] = byte(rnd.Intn(256))
			}
		}
		if len(body) == 0 && rnd.Intn(2) == 0 {
			body = nil
		}
		orig := append([]byte(nil), body...)
		want := append([]byte(nil), body...)
		msg := &Message{Body: body}
		log := fmt.Sprintf("body %q", orig)
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: %s: %s", log, fmt.Sprintf(f, a...))
		}
		for step := 0; step < 16; step++ {
			if rnd.Intn(3) == 0 {
				log += " ReadByte"
				b, err := msg.ReadByte()
				if len(want) == 0 {
					if err != io.EOF {
						fail("returned %v, %v", b, err)
					}
				} else {
					if err != nil || b != want[0] {
						fail("returned %q, %v instead of %q", b, err, want[0])
					}
					want = want[1:]
				}
			} else {
				k := rnd.Intn(6)
				if rnd.Intn(8) == 0 {
					k = 20
				}
				log += fmt.Sprintf(" Read(%d)", k)
				big := make([]byte, k+4)
				for i := range big {
					big[i] = 0xEE
				}
				p := big[:k:k+rnd.Intn(5)]
				n, err := msg.Read(p)
				m := k
				if m > len(want) {
					m = len(want)
				}
				if len(want) == 0 {
					if n != 0 || err != io.EOF {
						fail("returned %d, %v", n, err)
					}
				} else if err != nil || n != m || string(p[:n]) != string(want[:m]) {
					fail("returned %d, %v, %q; %q was left", n, err, p[:n], want)
				}
				for i := n; i < len(big); i++ {
					if big[i] != 0xEE && n >= 0 {
						fail("wrote beyond the bytes it returned")
					}
				}
				want = want[m:]
			}
			if string(msg.Body) != string(want) {
				fail("left %q instead of %q", msg.Body, want)
			}
		}
		if string(body) != string(orig) {
			fail("the body itself was changed")
		}
	}
	for _, m := range []AckMode{AckAuto, AckClient, AckClientIndividual} {
		msg := &Message{Subscription: &Subscription{ackMode: m}}
		if msg.ShouldAck() != (m != AckAuto) {
			t.Fatalf("FAILING INPUT: ShouldAck in mode %v is %v", m, msg.ShouldAck())
		}
	}
	if (&Message{}).ShouldAck() {
		t.Fatalf("FAILING INPUT: ShouldAck without subscription is true")
	}
}
