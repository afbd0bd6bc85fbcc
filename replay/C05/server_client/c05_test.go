package client

import (
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
)

func verifCount(rnd *rand.Rand) string {
	switch rnd.Intn(8) {
	case 0:
		return []string{"", "+1", "-1", " 1", "1 ", "1.5", "0x10", "1e3", "a", "\u0661", "1_000", "\n"}[rnd.Intn(12)]
	case 1:
		return []string{"999999999", "1000000000", "0000000001", "000000001", "000000000", "4294967295", "2147483647", "9999999990"}[rnd.Intn(8)]
	case 2:
		return strconv.Itoa(rnd.Int())
	default:
		return strconv.Itoa(rnd.Intn(1 << uint(rnd.Intn(31))))
	}
}

// The heart-beat entry is two counts of at most nine digits; configured
// durations are converted exactly up to the maximum.
func TestVerifReplayC05(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	for round := 0; round < 100000; round++ {
		cmd := []string{frame.CONNECT, frame.STOMP, frame.CONNECTED}[rnd.Intn(3)]
		if rnd.Intn(8) == 0 {
			cmd = []string{frame.SEND, frame.MESSAGE, "connect", frame.DISCONNECT, ""}[rnd.Intn(5)]
		}
		f := frame.New(cmd)
		has := rnd.Intn(6) != 0
		s := verifCount(rnd) + "," + verifCount(rnd)
		switch rnd.Intn(12) {
		case 0:
			s = verifCount(rnd)
		case 1:
			s += []string{",", ",1", "\n", " ", ";"}[rnd.Intn(5)]
		case 2:
			s = []string{",", "\n", " ", "+"}[rnd.Intn(4)] + s
		}
		if has {
			f.Header.Add(frame.HeartBeat, s)
			if rnd.Intn(4) == 0 {
				f.Header.Add(frame.HeartBeat, "5,6")
			}
		}
		valid := cmd == frame.CONNECT || cmd == frame.STOMP || cmd == frame.CONNECTED
		var want [2]int
		if has {
			parts := strings.Split(s, ",")
			valid = valid && len(parts) == 2
			for i := 0; valid && i < 2; i++ {
				if len(parts[i]) == 0 || len(parts[i]) > 9 || strings.Trim(parts[i], "0123456789") != "" {
					valid = false
					break
				}
				want[i], _ = strconv.Atoi(parts[i])
			}
		}
		cx, cy, err := getHeartBeat(f)
		if valid != (err == nil) {
			t.Fatalf("FAILING INPUT: getHeartBeat(%s frame with heart-beat %q, present=%v) returned error %v", cmd, s, has, err)
		}
		if valid && (cx != want[0] || cy != want[1]) {
			t.Fatalf("FAILING INPUT: getHeartBeat(%s frame with heart-beat %q, present=%v) returned %d, %d", cmd, s, has, cx, cy)
		}
		d := time.Duration(rnd.Int63() >> uint(rnd.Intn(63)))
		max := []int{maxHeartBeat, 0, -1, 1, 100, 1 << 31, 1<<31 - 1, rnd.Int()}[rnd.Intn(8)]
		n := asMilliseconds(d, max)
		w := int64(d) / 1000000
		if m := int64(max); m < 0 {
			w = 0
		} else if w > m {
			w = m
		}
		if int64(n) != w {
			t.Fatalf("FAILING INPUT: asMilliseconds(%d, %d) returned %d instead of %d", int64(d), max, n, w)
		}
	}
}
