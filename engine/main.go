package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	rtdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	rtdebug.SetGCPercent(400)
	rtdebug.SetMemoryLimit(16 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vcgo list|verify|worker|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		P := mustLoad()
		for _, s := range P.specs {
			fmt.Println(s.Name, s.Props, s.Target, P.alternatives(s))
		}
	case "verify":
		cmdVerify(os.Args[2:])
	case "worker":
		cmdWorker()
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "reg":
		fmt.Print(mustLoad().regSource(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func repoDir() string {
	if d := os.Getenv("VC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VC_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func mustLoad() *Prog {
	P, err := load(repoDir(), verifDir()+"/contracts")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return P
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	sym := fs.Int("sym", 120, "symbolic execution limit in seconds")
	pat := fs.String("spec", "", "regexp of specification names")
	only := fs.String("only", "", "split alternative")
	v := fs.Bool("v", false, "list proved obligations")
	ms := fs.Int("ms", 5000, "solver time limit")
	fs.Parse(args)
	t0 := time.Now()
	P := mustLoad()
	if f := os.Getenv("VCPROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	for _, d := range P.dropped {
		fmt.Println("DROPPED", d)
	}
	re := regexp.MustCompile(*pat)
	sol := NewSolver(8)
	var tp, tf int
	for _, s := range P.specs {
		if !re.MatchString(s.Name) || s.Kind == KBounded || s.NoProve {
			continue
		}
		for _, alt := range P.alternatives(s) {
			if *only != "" && alt != *only {
				continue
			}
			r := P.verifySpec(s, alt, sol, time.Duration(*sym)*time.Second, *ms)
			np, nf := 0, 0
			for _, o := range r.Obls {
				if o.Status == "proved" {
					np++
				} else {
					nf++
				}
			}
			tp += np
			tf += nf
			st := "ok"
			if nf > 0 {
				st = "FAILED"
			}
			if r.Unsupported != "" {
				st = "UNSUPPORTED " + r.Unsupported
			}
			if r.Vacuous {
				st += " VACUOUS"
			}
			fmt.Printf("%-50s %-30s proved %d failed %d  %.1fs outs %d  %s\n", r.Spec, alt, np, nf, r.Secs, r.Outcomes, st)
			for _, o := range r.Obls {
				if o.Status != "proved" {
					fmt.Printf("   FAIL %s (%d/%d paths) %s\n", o.Name, o.Failed, o.Paths, o.Detail)
				} else if *v {
					fmt.Printf("   ok   %s (%d) %v %.2fs\n", o.Name, o.Paths, o.Backends, o.Secs)
				}
			}
			if *v {
				fmt.Println("   assume:", strings.Join(r.Assumptions, "; "))
				fmt.Println("   inlined:", strings.Join(r.Inlined, " "))
			}
		}
	}
	fmt.Printf("total proved %d failed %d  %.1fs\n", tp, tf, time.Since(t0).Seconds())
}

type task struct {
	Spec string
	Only string
	Sym  int
	Ms   int
}

// cmdWorker reads tasks (JSON lines) and answers with results.
func cmdWorker() {
	P := mustLoad()
	sol := NewSolver(3)
	byName := map[string]*Spec{}
	for _, s := range P.specs {
		byName[s.Name] = s
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var t task
		if err := json.Unmarshal(in.Bytes(), &t); err != nil {
			continue
		}
		s := byName[t.Spec]
		r := P.verifySpec(s, t.Only, sol, time.Duration(t.Sym)*time.Second, t.Ms)
		out.Encode(r)
		if len(termTab) > 3000000 {
			runtime.GC()
		}
	}
}

var _ = sort.Strings
