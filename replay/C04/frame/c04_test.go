package frame

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func c04snap(f *Frame) string {
	if f == nil {
		return "nil"
	}
	s := fmt.Sprintf("%q body=%q/%v ", f.Command, f.Body, f.Body == nil)
	if f.Header == nil {
		return s + "no header"
	}
	for i := 0; i < f.Header.Len(); i++ {
		k, v := f.Header.GetAt(i)
		s += fmt.Sprintf("%q:%q ", k, v)
	}
	return s
}

// Clones are equal to and independent of the original.
func TestVerifReplayC04(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	keys := []string{"a", "b", "c", "d"}
	for round := 0; round < 40000; round++ {
		var log []string
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: %v: %s", log, fmt.Sprintf(f, a...))
		}
		n := rnd.Intn(4)
		list := make([]string, 0, 2*n+rnd.Intn(4))
		for i := 0; i < n; i++ {
			list = append(list, keys[rnd.Intn(4)], "v"+strconv.Itoa(i))
		}
		saved := append([]string(nil), list...)
		f := New("SEND", list...)
		switch rnd.Intn(4) {
		case 0:
			f.Header = nil
		case 1:
			f.Header = NewHeader(list...)
		}
		g2 := NewHeader(list...)
		for i := rnd.Intn(3); i > 0 && f.Header != nil; i-- {
			f.Header.Add("x", "y")
		}
		switch rnd.Intn(3) {
		case 0:
			f.Body = []byte{}
		case 1:
			f.Body = []byte("hello")[:1+rnd.Intn(5)]
		}
		if f.Header != nil && rnd.Intn(2) == 0 {
			f.Header.Del(keys[rnd.Intn(4)])
		}
		others := []*Frame{f, {Command: "X", Header: g2}}
		log = append(log, fmt.Sprintf("original %s", c04snap(f)))
		c := f.Clone()
		if c04snap(c) != c04snap(f) {
			fail("clone is %s", c04snap(c))
		}
		others = append(others, c)
		if f.Header != nil {
			hc := f.Header.Clone()
			x := &Frame{Command: "Y", Header: hc, Body: append([]byte(nil), f.Body...)}
			if f.Body != nil && x.Body == nil {
				x.Body = []byte{}
			}
			y := &Frame{Command: "Y", Header: f.Header, Body: f.Body}
			if c04snap(x) != c04snap(y) {
				fail("header clone is %s", c04snap(x))
			}
			others = append(others, x)
		}
		for step := 0; step < 6; step++ {
			i := rnd.Intn(len(others))
			before := make([]string, len(others))
			for j, o := range others {
				before[j] = c04snap(o)
			}
			o := others[i]
			k := keys[rnd.Intn(4)]
			if o.Header != nil {
				switch rnd.Intn(4) {
				case 0:
					o.Header.Add(k, "n")
				case 1:
					o.Header.Set(k, "s")
				case 2:
					o.Header.Del(k)
				}
			}
			if len(o.Body) > 0 && rnd.Intn(2) == 0 {
				o.Body[rnd.Intn(len(o.Body))] ^= 1
			}
			if o.Body != nil {
				o.Body = append(o.Body, 'z')
			}
			for j, p := range others {
				if j != i && c04snap(p) != before[j] {
					fail("changing frame %d changed frame %d from %s to %s", i, j, before[j], c04snap(p))
				}
			}
		}
		if fmt.Sprint(saved) != fmt.Sprint(list) {
			fail("the list of strings %q became %q", saved, list)
		}
	}
}
