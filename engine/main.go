package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(700)
	debug.SetMemoryLimit(14 << 30)
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(cmdCheck(os.Args[2:]))
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(cmdReplay(os.Args[2:]))
	}
	if len(os.Args) > 3 && os.Args[1] == "oracle" {
		p := propByID(os.Args[2])
		b, _ := strconv.Atoi(os.Args[3])
		seed := "1"
		if len(os.Args) > 4 {
			seed = os.Args[4]
		}
		o := runOracle(groups[p.Oracle], p.ID, nil, b, seed, 0)
		fmt.Println("ran", o.ran, "evaluations", o.evals, "found", o.found, o.what, o.input, o.err)
		return
	}
	thm := flag.String("thm", "", "theorem function to run (debugging)")
	cases := flag.String("cases", "", "cases: 1,0;2,3")
	redir := flag.String("redir", "", "redirections, comma separated")
	nw := flag.Int("j", 8, "workers")
	dbg := flag.Bool("dbg", false, "")
	group := flag.String("group", "qrcode", "group of the theorem")
	flag.Parse()
	dbgPanics = *dbg
	if pf := os.Getenv("QPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		go func() {
			n, _ := strconv.Atoi(os.Getenv("QSECS"))
			if n == 0 {
				n = 30
			}
			time.Sleep(time.Duration(n) * time.Second)
			pprof.StopCPUProfile()
			f.Close()
			os.Exit(3)
		}()
	}
	t0 := time.Now()
	P, dropped, err := loadGroup(groups[*group])
	if err != nil || len(dropped) > 0 {
		fmt.Println(err, dropped)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	th := &Theorem{Fn: *thm, Pkg: groups[*group].Pkg}
	for _, c := range strings.Split(*cases, ";") {
		var cs []int64
		for _, s := range strings.Split(c, ",") {
			if s != "" {
				n, _ := strconv.ParseInt(s, 10, 64)
				cs = append(cs, n)
			}
		}
		th.Cases = append(th.Cases, cs)
	}
	if *redir != "" {
		for _, r := range strings.Split(*redir, ",") {
			th.Redir = append(th.Redir, strings.ReplaceAll(r, "@", modPath))
		}
	}
	R := runTheorem(P, th, *nw, true, time.Time{})
	for _, n := range R.names() {
		o := R.Obls[n]
		fmt.Printf("%-80s %d discharged (%d smt) %d failed\n", n, o.N, o.Smt, len(o.Fails))
		for _, f := range o.Fails {
			m := fmt.Sprint(f.Model)
			if len(m) > 300 {
				m = m[:300]
			}
			fmt.Println("    ", f.Case, f.At, f.Pos, f.Note, m)
		}
	}
	for l, c := range R.Limits {
		fmt.Println("LIMIT", l, c)
	}
	fmt.Println(R.Unbound, R.Smt, R.Wall, R.SumUsed, R.Bounded)
}
