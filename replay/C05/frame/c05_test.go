package frame

import (
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

func verifNumeral(rnd *rand.Rand) string {
	switch rnd.Intn(9) {
	case 0:
		return []string{"", "+1", "-1", " 1", "1 ", "1.5", "0x10", "1e3", "a", "\u0661", "1_000", "\n"}[rnd.Intn(12)]
	case 1:
		return []string{"9223372036854", "9223372036855", "9223372036853", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "4294967296", "4294967295", "2147483648", "1000000000", "999999999"}[rnd.Intn(13)]
	case 2:
		return strings.Repeat("0", rnd.Intn(30)) + strconv.Itoa(rnd.Intn(100000))
	case 3:
		return strconv.FormatInt(rnd.Int63n(9223372036854+1), 10)
	case 4:
		return strconv.FormatUint(rnd.Uint64(), 10)
	default:
		return strconv.Itoa(rnd.Intn(1 << uint(rnd.Intn(34))))
	}
}

// A heart-beat value is two counts and gives those durations, or is an error.
func TestVerifReplayC05(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	max := big.NewInt(9223372036854)
	for round := 0; round < 200000; round++ {
		s := verifNumeral(rnd) + "," + verifNumeral(rnd)
		switch rnd.Intn(12) {
		case 0:
			s = verifNumeral(rnd)
		case 1:
			s += []string{",", ",1", "\n", " ", ";"}[rnd.Intn(5)]
		case 2:
			s = []string{",", "\n", " ", "+"}[rnd.Intn(4)] + s
		case 3:
			s = strings.Replace(s, ",", []string{"", ", ", ",,", ":", "\n"}[rnd.Intn(5)], 1)
		}
		parts := strings.Split(s, ",")
		valid := len(parts) == 2
		var val [2]int64
		for i := 0; valid && i < 2; i++ {
			if parts[i] == "" || strings.Trim(parts[i], "0123456789") != "" {
				valid = false
				break
			}
			n, ok := new(big.Int).SetString(parts[i], 10)
			if !ok || n.Cmp(max) > 0 {
				valid = false
				break
			}
			val[i] = n.Int64()
		}
		cx, cy, err := ParseHeartBeat(s)
		if valid != (err == nil) {
			t.Fatalf("FAILING INPUT: ParseHeartBeat(%q) returned error %v", s, err)
		}
		if valid && (cx != time.Duration(val[0])*time.Millisecond || cy != time.Duration(val[1])*time.Millisecond) {
			t.Fatalf("FAILING INPUT: ParseHeartBeat(%q) returned %v, %v", s, cx, cy)
		}
	}
}
