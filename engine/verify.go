package main

import (
	"fmt"
	"go/types"
	"os"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// OblResult is the outcome of one obligation (all paths with the same name).
type OblResult struct {
	Name     string
	Paths    int
	Failed   int
	Status   string // proved, failed
	Backends map[string]int
	Secs     float64
	Detail   string
}

// SpecResult is the outcome of a specification (or of one split alternative).
type SpecResult struct {
	Spec        string
	Only        string
	Obls        []*OblResult
	Unsupported string
	Assumptions []string
	Inlined     []string
	Used        []string
	Loops       int
	Invariants  int
	Secs        float64
	SolverSecs  map[string]float64
	Queries     map[string]int
	Vacuous     bool
	Outcomes    int
}

func (r *SpecResult) failed() bool {
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return true
		}
	}
	return false
}

// alternatives lists the split alternatives of a specification.
func (P *Prog) alternatives(s *Spec) []string {
	var it types.Type
	var extra []string
	if s.Kind == KIface && len(s.Func.Params) > 0 {
		it = s.Func.Params[0].Type()
	} else if len(s.Split) > 0 {
		name, field, path := strings.Cut(s.Split[0], ".")
		for _, p := range s.Func.Params {
			if p.Name() == name {
				it = p.Type()
				if path {
					_, it = fieldOf(it, field)
					extra = []string{"nil pointer"}
				}
			}
		}
	}
	if it == nil {
		return []string{""}
	}
	out := extra
	if s.Kind != KIface {
		out = append(out, "nil")
	}
	if e, ok := under(it).(*types.Interface); ok && e.NumMethods() == 0 {
		for _, t := range plainTypes {
			out = append(out, shortType(t))
		}
		return append(out, "other")
	}
	for _, t := range P.implementers(it) {
		out = append(out, shortType(t))
	}
	return out
}

// fieldOf finds a field of the struct a pointer type points to.
func fieldOf(t types.Type, name string) (int, types.Type) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return -1, nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i).Type()
		}
	}
	return -1, nil
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (P *Prog) verifySpec(s *Spec, only string, sol *Solver, symLimit time.Duration, ms int) (res *SpecResult) {
	t0 := time.Now()
	x := NewExec(P, sol)
	x.label = s.Name
	x.onlySplit = only
	x.deadline = time.Now().Add(symLimit)
	res = &SpecResult{Spec: s.Name, Only: only}
	ts0 := map[string]float64{}
	q0 := map[string]int{}
	for k, v := range sol.Time {
		ts0[k] = v
	}
	for k, v := range sol.Queries {
		q0[k] = v
	}
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		res.Assumptions = keys(x.assumps)
		res.Inlined = keys(x.inlined)
		res.Used = keys(x.used)
		res.Loops = x.loopStats["loops"]
		res.Invariants = x.loopStats["invariants"]
		res.SolverSecs = map[string]float64{}
		res.Queries = map[string]int{}
		for k, v := range sol.Time {
			if d := v - ts0[k]; d > 0 {
				res.SolverSecs[k] = d
			}
		}
		for k, v := range sol.Queries {
			if d := v - q0[k]; d > 0 {
				res.Queries[k] = d
			}
		}
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				res.Unsupported = u.msg
				return
			}
			res.Unsupported = fmt.Sprintf("engine error: %v", r)
			if os.Getenv("VCDEBUG") != "" || os.Getenv("VCSTACK") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", r, rdebug.Stack())
			}
		}
	}()
	outs := x.runSpec(s)
	res.Outcomes = len(outs)
	x.discharge(res, ms)
	// vacuity
	if len(outs) == 0 {
		res.Vacuous = true
	} else {
		vac := true
		for i, o := range outs {
			if i > 5 {
				break
			}
			r := sol.run(bkZ3new, smtText(pcTerms(o.st.pc), TFalse, false), 1000)
			if r.Status != "unsat" {
				vac = false
				break
			}
		}
		res.Vacuous = vac
	}
	return res
}

// runSpec executes the specification symbolically, collecting obligations.
func (x *Exec) runSpec(s *Spec) []Outcome {
	st := x.initState()
	sc := &specCtx{spec: s, verify: true}
	x.curSpec = sc
	env := Env{}
	for _, p := range s.Func.Params {
		v := x.havoc(st, p.Type(), p.Name(), true)
		env[p] = v
		x.params = append(x.params, paramInfo{p.Name(), p.Type(), v})
	}
	var splits []int
	if s.Kind == KIface {
		splits = append(splits, 0)
	}
	for _, n := range s.Split {
		for i, p := range s.Func.Params {
			if p.Name() == n {
				splits = append(splits, i)
			}
		}
	}
	states := []*State{st}
	for _, i := range splits {
		p := s.Func.Params[i]
		var next []*State
		for _, q := range states {
			for _, o := range x.split(q, env[p].(If), p.Type()) {
				if s.Kind == KIface && i == 0 && strings.HasSuffix(","+o.st.label, ",nil") {
					continue
				}
				next = append(next, o.st)
			}
		}
		states = next
	}
	for _, n := range s.Split {
		name, field, path := strings.Cut(n, ".")
		if !path {
			continue
		}
		for _, p := range s.Func.Params {
			if p.Name() != name {
				continue
			}
			fi, ft := fieldOf(p.Type(), field)
			if fi < 0 {
				unsupported("split %s", n)
			}
			var next []*State
			for _, q := range states {
				nz := Not(Eq(env[p].(Sc).t, I(0)))
				if q.label != "" || x.onlySplit == "" || x.onlySplit == "nil pointer" {
					s0 := q.clone()
					x.assume(s0, Not(nz), false)
					if s0.label == "" {
						s0.label = "nil pointer"
					}
					next = append(next, s0)
				}
				if q.label == "" && x.onlySplit == "nil pointer" {
					continue
				}
				x.assume(q, nz, false)
				for _, o := range x.fieldAddr(&frame{fn: s.Func}, q, env[p], p.Type().Underlying().(*types.Pointer).Elem(), fi, types.NewPointer(ft)) {
					v, ok := x.load(o.st, o.res[0], ft, s.Func)
					if !ok {
						continue
					}
					for _, o2 := range x.split(o.st, v.(If), ft) {
						next = append(next, o2.st)
					}
				}
			}
			states = next
		}
	}
	var outs []Outcome
	for _, q := range states {
		fr := &frame{fn: s.Func, spec: &specCtx{spec: s, verify: true}, loops: x.loopsOf(s.Func)}
		x.stack = nil
		x.mods = nil
		x.mayPan = false
		x.region(fr, nil, []edge{{to: s.Func.Blocks[0], env: env.clone(), st: q}})
		for _, r := range fr.rets {
			outs = append(outs, Outcome{r.st, r.res})
		}
	}
	return outs
}

func (x *Exec) discharge(res *SpecResult, ms int) {
	type job struct {
		o    *Oblig
		text string
		r    Result
	}
	var jobs []*job
	seen := map[string]*job{}
	byName := map[string]*OblResult{}
	var order []string
	get := func(n string) *OblResult {
		if r, ok := byName[n]; ok {
			return r
		}
		r := &OblResult{Name: n, Status: "proved", Backends: map[string]int{}}
		byName[n] = r
		order = append(order, n)
		return r
	}
	type link struct {
		o *Oblig
		j *job
	}
	var links []link
	for _, o := range x.obs {
		if o.goal == TTrue {
			r := get(o.Name)
			r.Paths++
			if o.Where != "" {
				r.Backends["houdini/z3-5.3.2"]++
			} else {
				r.Backends["symbolic simplifier"]++
			}
			continue
		}
		text := smtText(pcTerms(o.pc), o.goal, false)
		j := seen[text]
		if j == nil {
			j = &job{o: o, text: text}
			seen[text] = j
			jobs = append(jobs, j)
		}
		links = append(links, link{o, j})
	}
	var wg sync.WaitGroup
	lim := make(chan struct{}, 16)
	for _, j := range jobs {
		wg.Add(1)
		lim <- struct{}{}
		go func(j *job) {
			defer wg.Done()
			j.r = x.solver.Discharge(j.text, ms)
			<-lim
		}(j)
	}
	wg.Wait()
	nd := 0
	for _, l := range links {
		r := get(l.o.Name)
		r.Paths++
		r.Backends[l.j.r.Backend]++
		r.Secs += l.j.r.Secs
		if l.j.r.Status != "unsat" {
			r.Failed++
			r.Status = "failed"
			if r.Detail == "" {
				r.Detail = l.j.r.Status
				if d := os.Getenv("VCDUMP"); d != "" {
					nd++
					f := fmt.Sprintf("%s/q%d.smt2", d, nd)
					os.WriteFile(f, []byte(";"+l.o.Name+"\n"+smtText(pcTerms(l.o.pc), l.o.goal, true)), 0o644)
					r.Detail += " " + f
				}
				r.Detail += "\ngoal: " + trunc(l.o.goal.String(), 1500) + "\npath:"
				for _, t := range pcTermsConds(l.o.pc) {
					r.Detail += "\n  " + trunc(t.String(), 300)
				}
			}
		}
	}
	for _, n := range order {
		res.Obls = append(res.Obls, byName[n])
	}
}

func pcTermsConds(pc *pcNode) []*Term {
	var out []*Term
	for n := pc; n != nil; n = n.parent {
		if !n.fact {
			out = append(out, n.t)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 30 {
		out = out[len(out)-30:]
	}
	return out
}
