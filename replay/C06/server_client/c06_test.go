package client

import (
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

// The highest supported version of the list, whatever else is in it.
func TestVerifReplayC06(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	words := []string{"1.0", "1.1", "1.2", "1.0", "1.1", "1.2", "", " 1.1", "1.2 ", "1.3", "2.0", "1", "1.10", "0.9", "V1.2", "1.1.1", "\t1.2", "10", "9", "1.2\n", "1,2"}
	for round := 0; round < 150000; round++ {
		cmd := []string{frame.CONNECT, frame.STOMP}[rnd.Intn(2)]
		if rnd.Intn(10) == 0 {
			cmd = []string{frame.SEND, frame.CONNECTED, "connect", "Stomp", ""}[rnd.Intn(5)]
		}
		f := frame.New(cmd)
		var list string
		has := rnd.Intn(8) != 0
		if has {
			n := rnd.Intn(6)
			if rnd.Intn(20) == 0 {
				n = 30
			}
			var l []string
			for i := 0; i <= n; i++ {
				l = append(l, words[rnd.Intn(len(words))])
			}
			list = strings.Join(l, ",")
			f.Header.Add(frame.AcceptVersion, list)
			if rnd.Intn(4) == 0 {
				f.Header.Add(frame.AcceptVersion, "1.0,1.2")
			}
		}
		want, ok := "", false
		if cmd == frame.CONNECT || cmd == frame.STOMP {
			if !has {
				want, ok = "1.0", cmd == frame.CONNECT
			} else {
				for _, v := range strings.Split(list, ",") {
					if (v == "1.0" || v == "1.1" || v == "1.2") && v > want {
						want, ok = v, true
					}
				}
			}
		}
		v, err := determineVersion(f)
		if ok != (err == nil) || ok && string(v) != want {
			t.Fatalf("FAILING INPUT: determineVersion(%s frame with accept-version %q, present=%v) returned %q, %v instead of %q", cmd, list, has, v, err, want)
		}
	}
}
