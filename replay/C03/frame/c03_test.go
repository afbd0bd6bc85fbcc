package frame

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type c03pair struct{ k, v string }

func c03show(l []c03pair) string { return fmt.Sprintf("%q", l) }

// The header against a list of entries, on random operation sequences.
func TestVerifReplayC03(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	keys := []string{"a", "b", "c", "", "content-length", "A"}
	vals := []string{"", "1", "x", "b", "4294967295", "4294967296", "-1", "+5", " 7", "007", "99999999999999999999", "a"}
	for round := 0; round < 60000; round++ {
		var l []c03pair
		var log []string
		pick := func(s []string) string { return s[rnd.Intn(len(s))] }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("FAILING INPUT: operations %v: %s", log, fmt.Sprintf(f, a...))
		}
		var h *Header
		n := rnd.Intn(4)
		var init []string
		for i := 0; i < n; i++ {
			k, v := pick(keys), pick(vals)
			l = append(l, c03pair{k, v})
			init = append(init, k, v)
		}
		switch rnd.Intn(3) {
		case 0:
			if rnd.Intn(4) == 0 {
				k := pick(keys)
				init = append(init, k)
				l = append(l, c03pair{k, ""})
			}
			h = NewHeader(init...)
			log = append(log, fmt.Sprintf("NewHeader(%q)", init))
		case 1:
			h = New("SEND", init...).Header
			log = append(log, fmt.Sprintf("New(%q)", init))
		default:
			h = &Header{}
			for _, p := range l {
				h.Add(p.k, p.v)
			}
			log = append(log, fmt.Sprintf("Header with %q", init))
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("panic %v", e)
				}
			}()
			for step := 0; step < 6; step++ {
				k, v := pick(keys), pick(vals)
				switch rnd.Intn(5) {
				case 0:
					h.Add(k, v)
					log = append(log, fmt.Sprintf("Add(%q,%q)", k, v))
					l = append(l, c03pair{k, v})
				case 1:
					h.Set(k, v)
					log = append(log, fmt.Sprintf("Set(%q,%q)", k, v))
					done := false
					for i := range l {
						if l[i].k == k {
							l[i].v = v
							done = true
							break
						}
					}
					if !done {
						l = append(l, c03pair{k, v})
					}
				case 2:
					h.Del(k)
					log = append(log, fmt.Sprintf("Del(%q)", k))
					var m []c03pair
					for _, p := range l {
						if p.k != k {
							m = append(m, p)
						}
					}
					l = m
				case 3:
					g := &Header{}
					var m []c03pair
					switch rnd.Intn(4) {
					case 0:
						g = nil
					case 1:
						if len(l) > 8 {
							g = nil
							break
						}
						g = h
						m = append(m, l...)
					default:
						for i := rnd.Intn(4); i > 0; i-- {
							a, b := pick(keys), pick(vals)
							g.Add(a, b)
							m = append(m, c03pair{a, b})
						}
					}
					h.AddHeader(g)
					log = append(log, fmt.Sprintf("AddHeader(%q)", m))
					l = append(l, m...)
				}
				if h.Len() != len(l) {
					fail("Len %d, entries %s", h.Len(), c03show(l))
				}
				for i := range l {
					a, b := h.GetAt(i)
					if a != l[i].k || b != l[i].v {
						fail("GetAt(%d) = %q,%q, entries %s", i, a, b, c03show(l))
					}
				}
				for _, k := range keys {
					want, has := "", false
					var all []string
					for _, p := range l {
						if p.k == k {
							if !has {
								want, has = p.v, true
							}
							all = append(all, p.v)
						}
					}
					if g, ok := h.Contains(k); g != want || ok != has {
						fail("Contains(%q) = %q,%v, entries %s", k, g, ok, c03show(l))
					}
					if g := h.Get(k); g != want {
						fail("Get(%q) = %q, entries %s", k, g, c03show(l))
					}
					ga := h.GetAll(k)
					if fmt.Sprintf("%q", ga) != fmt.Sprintf("%q", all) {
						fail("GetAll(%q) = %q, entries %s", k, ga, c03show(l))
					}
					if k == ContentLength {
						n, ok, err := h.ContentLength()
						w, werr := strconv.ParseUint(want, 10, 32)
						if ok != has || has && ((err != nil) != (werr != nil) || err == nil && n != int(w)) || !has && (err != nil || n != 0) {
							fail("ContentLength() = %d,%v,%v, entries %s", n, ok, err, c03show(l))
						}
					}
				}
			}
		}()
	}
}
