package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var bgctx = context.Background()
var cfgNative = solverCfg{"cvc5/strings", []string{"cvc5", "--lang", "smt2", "-q", "--strings-exp"}, ""}

var repoDir = "/repo"
var verifDir = "/verif"

func mainSetup() (*Verifier, error) {
	initBuiltins()
	extraDecls()
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				if s, ok := e.(specErr); ok {
					err = fmt.Errorf("%s", s.msg)
					return
				}
				panic(e)
			}
		}()
		LoadSpecs(filepath.Join(verifDir, "contracts"))
	}()
	if err != nil {
		return nil, err
	}
	v, err := LoadProgram(repoDir)
	if err != nil {
		return nil, err
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if s, ok := e.(specErr); ok {
					err = fmt.Errorf("%s", s.msg)
					return
				}
				panic(e)
			}
		}()
		v.installAxioms()
	}()
	return v, err
}

// extraDecls: functions the generator itself uses
func extraDecls() {
	declFun("slt", SBool, SStr, SStr)
	declFun("supd1", SStr, SStr, SInt, SInt)
	declFun("szero", SStr, SInt)
	num := func(t *Term) (int64, bool) {
		if t.op != "#int" {
			return 0, false
		}
		n, err := strconv.ParseInt(t.lit, 10, 64)
		return n, err == nil
	}
	simpHooks["szero"] = func(s Sort, as []*Term) *Term {
		if n, ok := num(as[0]); ok && 0 <= n && n <= 16 {
			return StrLit(strings.Repeat("\x00", int(n)))
		}
		return nil
	}
	simpHooks["supd1"] = func(s Sort, as []*Term) *Term {
		i, ok1 := num(as[1])
		b, ok2 := num(as[2])
		if as[0].op == "#str" && ok1 && ok2 && 0 <= i && int(i) < len(as[0].lit) && 0 <= b && b < 256 {
			x := []byte(as[0].lit)
			x[i] = byte(b)
			return StrLit(string(x))
		}
		return nil
	}
}

var usedAxioms sync.Map

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv verify [P=<prop>] [function...] | check <property> [quick|thorough] | list")
		os.Exit(2)
	}
	if d := os.Getenv("GOCV_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("GOCV_VERIF"); d != "" {
		verifDir = d
	}
	t0 := time.Now()
	switch os.Args[1] {
	case "verify":
		v, err := mainSetup()
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(2)
		}
		fmt.Printf("loaded in %v\n", time.Since(t0))
		var pats []string
		for _, a := range os.Args[2:] {
			if strings.HasPrefix(a, "P=") {
				curProp = a[2:]
			} else {
				pats = append(pats, a)
			}
		}
		cmdVerify(v, pats)
		fmt.Printf("total %v, solver %v in %d calls\n", time.Since(t0), time.Duration(solverNanos), solverCalls)
	case "functions":
		v, err := mainSetup()
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(2)
		}
		v.listFunctions()
	case "lemmas":
		v, err := mainSetup()
		if err != nil {
			fmt.Println("ERROR", err)
			os.Exit(2)
		}
		_ = v
		for _, ax := range axioms {
			if ax.kind == "lemma" {
				if len(os.Args) > 2 && !strings.Contains(ax.name, os.Args[2]) {
					continue
				}
				lr := proveLemma(ax)
				fmt.Printf("%v %s [%s] %s\n", lr.ok, ax.name, lr.res.solver, lr.res.res)
			}
		}
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(cmdCheck(os.Args[2], tier))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdVerify(v *Verifier, pats []string) {
	maxFull = 40
	var todo []*FuncSpec
	for _, fs := range specs.order {
		k := fs.fullKey
		if fs.variant != "" {
			k += " as " + fs.variant
		}
		if fs.extern {
			continue
		}
		ok := len(pats) == 0
		for _, p := range pats {
			if strings.Contains(k, p) {
				ok = true
			}
		}
		if ok {
			todo = append(todo, fs)
		}
	}
	sort.SliceStable(todo, func(i, j int) bool { return todo[i].fullKey < todo[j].fullKey })
	for _, fs := range todo {
		k := fs.fullKey
		if fs.variant != "" {
			k += " as " + fs.variant
		}
		t0 := time.Now()
		fr := v.verifyFunc(fs)
		te := time.Since(t0)
		if fr.err != "" {
			fmt.Printf("FAIL %s: %s\n", k, fr.err)
			continue
		}
		discharge(fr.run.obls)
		bad := 0
		for _, o := range fr.run.obls {
			if o.res.res != "unsat" {
				bad++
				fmt.Printf("  FAILED %s %s (%s) at %s: %s\n", o.kind, o.label, o.res.res, o.pos, o.fn)
				if os.Getenv("GOCV_DUMP") != "" {
					p := fmt.Sprintf("/tmp/obl-%d.smt2", bad)
					os.WriteFile(p, []byte(o.query), 0644)
					fmt.Println("    ", p, trunc(o.goal.String(), 600))
				}
			}
		}
		for _, o := range smokeTest(fr.smoke) {
			fmt.Printf("  SMOKE: %s is unreachable\n", o.label)
		}
		for n, as := range fr.ante {
			var wg sync.WaitGroup
			var dead int64
			for _, o := range as {
				o := o
				wg.Add(1)
				go func() {
					defer wg.Done()
					atomic.AddInt64(&dead, int64(len(anteTest(o))))
				}()
			}
			wg.Wait()
			if int(dead) == len(as) {
				fmt.Printf("  VACUOUS: %s\n", n)
			}
		}
		st := "ok  "
		if bad > 0 {
			st = "FAIL"
		}
		fmt.Printf("%s %s: %d obligations, %d failed, exec %v, total %v, blocks %d/%d\n", st, k, len(fr.run.obls), bad, te.Round(time.Millisecond), time.Since(t0).Round(time.Millisecond), fr.seenBlocks, fr.blocks)
		if os.Getenv("GOCV_TIME") != "" {
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// anteTest: is an antecedent refutable at an exit?
func anteTest(o *Obl) []*Obl {
	q := BuildQuery(append(append([]*Term{}, o.facts...), Not(o.goal)), -1, "ante")
	if r, _ := runSolver(context.Background(), cfgFast, q, 500*time.Millisecond); r == "unsat" {
		if os.Getenv("GOCV_ANTE") == "dump" {
			os.WriteFile(fmt.Sprintf("/tmp/ante-%d.smt2", len(o.facts)), []byte(q), 0644)
		}
		return []*Obl{o}
	}
	return nil
}

// smokeTest returns the exits that are provably unreachable.
func smokeTest(obls []*Obl) []*Obl {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var out []*Obl
	sem := make(chan struct{}, 8)
	for _, o := range obls {
		o := o
		q := BuildQuery(o.facts, -1, "smoke")
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if r, _ := runSolver(context.Background(), cfgFast, q, 500*time.Millisecond); r == "unsat" {
				mu.Lock()
				out = append(out, o)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out
}
