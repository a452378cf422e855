package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver runs SMT queries as separate processes, several at a time.
type Solver struct {
	sem     chan struct{}
	mu      sync.Mutex
	cache   map[[32]byte]Result
	Time    map[string]float64
	Queries map[string]int
}

type Result struct {
	Status  string // unsat, sat, unknown
	Backend string
	Secs    float64
	Model   string
}

func NewSolver(par int) *Solver {
	return &Solver{sem: make(chan struct{}, par), cache: map[[32]byte]Result{}, Time: map[string]float64{}, Queries: map[string]int{}}
}

type backend struct {
	name string
	cmd  func(ms int) []string
}

var (
	bkZ3new = backend{"z3-5.3.2", func(ms int) []string {
		return []string{"z3-new", "-in", "-smt2", "smt.mbqi=false", "smt.auto_config=false", fmt.Sprintf("-T:%d", ms/1000+1)}
	}}
	bkZ3m = backend{"z3-5.3.2-mbqi", func(ms int) []string {
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", ms/1000+1)}
	}}
	bkZ3old = backend{"z3-4.8.12", func(ms int) []string {
		return []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", ms/1000+1)}
	}}
	bkCvc5 = backend{"cvc5-1.1.2", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant"}
	}}
)

func (s *Solver) run(b backend, text string, ms int) Result {
	key := sha256.Sum256([]byte(b.name + strconv.Itoa(ms) + text))
	s.mu.Lock()
	if r, ok := s.cache[key]; ok {
		s.mu.Unlock()
		return r
	}
	s.mu.Unlock()
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	a := b.cmd(ms)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	r := Result{Status: "unknown", Backend: b.name, Secs: time.Since(t0).Seconds()}
	o := out.String()
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
		r.Model = strings.TrimSpace(o[i+1:])
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		r.Status = "unsat"
		if !strings.Contains(text, "(pop)") {
			r.Model = ""
		}
	case "sat":
		r.Status = "sat"
	default:
		if strings.Contains(o, "error") {
			r.Model = o
		}
	}
	s.mu.Lock()
	s.cache[key] = r
	if debug {
		fmt.Printf("  QUERY %s %d %.2f %s len %d\n", b.name, ms, r.Secs, r.Status, len(text))
	}
	s.Time[b.name] += r.Secs
	s.Queries[b.name]++
	s.mu.Unlock()
	return r
}

func pcTerms(pc *pcNode) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for n := pc; n != nil; n = n.parent {
		if !seen[n.t] {
			seen[n.t] = true
			out = append(out, n.t)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// skolem strips outer universal quantifiers and implications of a goal.
func skolem(hyps []*Term, goal *Term) ([]*Term, *Term) {
	for {
		switch goal.op {
		case OForall:
			v := goal.args[0]
			c := Fresh("sk", SInt)
			goal = Subst(goal.args[1], map[*Term]*Term{v: c})
			continue
		case OImp:
			hyps = append(hyps, conj(goal.args[0])...)
			goal = goal.args[1]
			continue
		}
		return hyps, goal
	}
}

// smtText prints a query: hyps |= goal (unsat = valid).
func smtText(hyps []*Term, goal *Term, model bool) string {
	return smtTexts(hyps, []*Term{goal}, model, 0)
}

// smtTexts prints one query per goal over the same hypotheses; with several
// goals they are checked one after another by the same solver process.
func smtTexts(hyps0 []*Term, goals []*Term, model bool, each int) string {
	hyps := append([]*Term(nil), hyps0...)
	all := hyps
	own := make([][]*Term, len(goals))
	for i, g := range goals {
		h, g := skolem(nil, g)
		own[i] = append(h, Not(g))
		all = append(all, own[i]...)
	}
	var sb strings.Builder
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString("(set-logic ALL)\n")
	// symbols, functions, reference counts
	vars := map[string]Sort{}
	type fsig struct {
		res  Sort
		args []Sort
	}
	fns := map[string]fsig{}
	ref := map[*Term]int{}
	boundNames := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		ref[t]++
		if ref[t] > 1 {
			return
		}
		switch t.op {
		case OVar:
			vars[t.name] = t.sort
		case OApp:
			f := fsig{res: t.sort}
			for _, a := range t.args {
				f.args = append(f.args, a.sort)
			}
			fns[t.name] = f
		case OForall:
			boundNames[t.args[0].name] = true
			// the bound variable itself is not declared
			walk(t.args[1])
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range all {
		walk(t)
	}
	var names []string
	for n := range vars {
		if !boundNames[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(n), vars[n])
	}
	names = names[:0]
	for n := range fns {
		names = append(names, n)
	}
	sort.Strings(names)
	hasStr := false
	for _, n := range names {
		f := fns[n]
		fmt.Fprintf(&sb, "(declare-fun %s (", smtName(n))
		for i, a := range f.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", f.res)
		if n == "strlen" {
			hasStr = true
		}
	}
	// box axioms
	for _, n := range names {
		if strings.HasPrefix(n, "box~") && len(fns[n].args) > 0 {
			k := n[4:]
			var vs, as []string
			for i := range fns[n].args {
				vs = append(vs, fmt.Sprintf("(a%d Int)", i))
				as = append(as, fmt.Sprintf("a%d", i))
			}
			app := "(" + smtName(n) + " " + strings.Join(as, " ") + ")"
			var cs []string
			for i := range as {
				p := fmt.Sprintf("proj~%s~%d", k, i)
				if _, ok := fns[p]; ok {
					cs = append(cs, fmt.Sprintf("(= (%s %s) %s)", smtName(p), app, as[i]))
				}
			}
			if len(cs) > 0 {
				fmt.Fprintf(&sb, "(assert (forall (%s) (! (and %s) :pattern (%s))))\n", strings.Join(vs, " "), strings.Join(cs, " "), app)
			}
		}
	}
	if hasStr {
		for i, s := range strTab {
			fmt.Fprintf(&sb, "(assert (= (strlen %d) %d))\n", i, len(s))
		}
	}
	// shared closed subterms
	let := map[*Term]string{}
	nlet := 0
	done := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		if t.op == OForall {
			def(t.args[1])
			return
		}
		for _, a := range t.args {
			def(a)
		}
		if ref[t] > 1 && len(t.args) > 0 && !t.bnd {
			n := fmt.Sprintf("d!%d", nlet)
			nlet++
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.sort)
			t.writeBody(&sb, let)
			sb.WriteString(")\n")
			let[t] = n
		}
	}
	for _, t := range all {
		def(t)
	}
	assert := func(ts []*Term) {
		for _, t := range ts {
			if t == TTrue {
				continue
			}
			sb.WriteString("(assert ")
			t.write(&sb, let)
			sb.WriteString(")\n")
		}
	}
	assert(hyps)
	if len(goals) > 1 {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", each)
		for _, o := range own {
			sb.WriteString("(push)\n")
			assert(o)
			sb.WriteString("(check-sat)\n(pop)\n")
		}
		return sb.String()
	}
	assert(own[0])
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

// relevant keeps the hypotheses connected to the goal through shared symbols.
func relevant(hyps []*Term, goal *Term) []*Term { return hyps }

// quick validity check used by the invariant inference.
func (s *Solver) validText(text string, ms int) bool {
	r := s.run(bkZ3new, text, ms)
	return r.Status == "unsat"
}

// validTexts answers several queries put to one process.
func (s *Solver) validTexts(text string, n, each int) []bool {
	out := make([]bool, n)
	r := s.run(bkZ3new, text, n*each)
	if strings.Contains(r.Model, "error") {
		return out
	}
	for i, l := range strings.Split(r.Status+"\n"+r.Model, "\n") {
		if i < n && strings.TrimSpace(l) == "unsat" {
			out[i] = true
		}
	}
	return out
}

// Discharge decides an obligation with all back ends.
func (s *Solver) Discharge(text string, ms int) Result {
	r := s.run(bkZ3new, text, ms)
	if r.Status == "unsat" {
		return r
	}
	best := r
	type br struct{ r Result }
	ch := make(chan Result, 3)
	bs := []backend{bkZ3m, bkCvc5, bkZ3old}
	for _, b := range bs {
		go func(b backend) { ch <- s.run(b, text, ms) }(b)
	}
	for range bs {
		q := <-ch
		if q.Status == "unsat" {
			return q
		}
		if q.Status == "sat" && best.Status != "sat" {
			best = q
		}
	}
	return best
}
