package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// baseEntry: what was decided about one specification (alternative) on the
// tree the contracts were written for.
type baseEntry struct {
	Status string   // proved, partial, unsupported
	Failed []string `json:",omitempty"`
	Secs   float64
}

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Spec     string `json:"spec,omitempty"`
	What     string `json:"what"`
	Status   string `json:"status"` // known, or "fixed: property=.. commit what"
}

type runner struct {
	P        *Prog
	prop     string
	tier     string
	seed     int64
	dir      string
	base     map[string]*baseEntry
	workers  int
	bins     map[string]string
	binErr   map[string]string
	ints     []int64
	strs     []string
	out      []string
	nviol    int
	undec    []string
	fuzzSecs float64
	findings []finding
}

func key(spec, alt string) string { return spec + "|" + alt }

func loadBase() map[string]*baseEntry {
	m := map[string]*baseEntry{}
	if b, err := os.ReadFile(verifDir() + "/baseline.json"); err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

// ---- proof workers

type proofTask struct {
	s    *Spec
	alt  string
	sym  int
	ms   int
	cost float64
	res  *SpecResult
	err  string
}

type workerProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker() (*workerProc, error) {
	c := exec.Command(os.Args[0], "worker")
	c.Env = append(os.Environ(), "GOMAXPROCS=3", "GOMEMLIMIT=2500MiB")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &workerProc{c, in, bufio.NewReaderSize(o, 1<<20)}, nil
}

func (w *workerProc) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// prove runs the tasks in a pool of worker processes.
func prove(tasks []*proofTask, n int, deadline time.Time) {
	sort.SliceStable(tasks, func(i, j int) bool { return tasks[i].cost > tasks[j].cost })
	if n > len(tasks) {
		n = len(tasks)
	}
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *workerProc
			done := 0
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				if next >= len(tasks) {
					mu.Unlock()
					return
				}
				t := tasks[next]
				next++
				mu.Unlock()
				if time.Now().After(deadline) {
					t.err = "not run: the time budget of the check was used up"
					continue
				}
				if w != nil && done >= 60 {
					w.stop()
					w, done = nil, 0
				}
				if w == nil {
					var err error
					if w, err = startWorker(); err != nil {
						t.err = err.Error()
						w = nil
						continue
					}
				}
				done++
				b, _ := json.Marshal(task{t.s.Name, t.alt, t.sym, t.ms})
				if d := os.Getenv("VCTASKS"); d != "" {
					if f, err := os.OpenFile(fmt.Sprintf("%s/w%d", d, w.cmd.Process.Pid), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
						f.Write(append(b, '\n'))
						f.Close()
					}
				}
				w.in.Write(append(b, '\n'))
				type ans struct {
					l   []byte
					err error
				}
				ch := make(chan ans, 1)
				go func(w *workerProc) {
					l, err := w.out.ReadBytes('\n')
					ch <- ans{l, err}
				}(w)
				lim := time.Duration(t.sym)*time.Second*2 + 60*time.Second
				select {
				case a := <-ch:
					if a.err != nil {
						t.err = "verifier process ended: " + a.err.Error()
						w.stop()
						w = nil
						continue
					}
					r := &SpecResult{}
					if err := json.Unmarshal(a.l, r); err != nil {
						t.err = err.Error()
						continue
					}
					t.res = r
				case <-time.After(lim):
					t.err = "verifier time limit"
					w.stop()
					w = nil
				}
			}
		}()
	}
	wg.Wait()
}

// ---- replay

type fuzzTask struct {
	Spec string
	Only string
	Ms   int
	N    int
	From int
	Seed int64
}

type fuzzReport struct {
	Spec, Only, Label, Kind, Detail, Input, GenErr string
	Evals, Tried, Checked, Distinct, Iter          int
	Seed                                           int64
	Samples                                        []string
	Done                                           bool
}

func (r *runner) buildBins(pkgs []string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, p := range pkgs {
		if r.bins[p] != "" || r.binErr[p] != "" {
			continue
		}
		wg.Add(1)
		go func(p string) {
			defer wg.Done()
			b, err := r.P.buildReplay(p, r.dir)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				r.binErr[p] = err.Error()
			} else {
				r.bins[p] = b
			}
		}(p)
	}
	wg.Wait()
}

var fuzzSeq int
var fuzzMu sync.Mutex

// runBin runs a list of tasks of one package in one process (restarted after
// a crash with the remaining tasks).
func (r *runner) runBin(pkg string, tasks []fuzzTask) []*fuzzReport {
	var out []*fuzzReport
	bin := r.bins[pkg]
	for len(tasks) > 0 {
		fuzzMu.Lock()
		fuzzSeq++
		n := fuzzSeq
		fuzzMu.Unlock()
		d := filepath.Join(r.dir, fmt.Sprintf("f%d", n))
		os.MkdirAll(d, 0o755)
		cfg := map[string]any{"Tasks": tasks, "Ints": r.ints, "Strs": r.strs, "Out": filepath.Join(d, "out")}
		b, _ := json.Marshal(cfg)
		os.WriteFile(filepath.Join(d, "cfg"), b, 0o644)
		total := 60
		for _, t := range tasks {
			total += t.Ms/1000 + 3
		}
		cmd := exec.Command(bin, "-test.run", "^TestVerifFuzz$", "-test.timeout", fmt.Sprintf("%ds", total))
		cmd.Dir = d
		cmd.Env = append(os.Environ(), "VC_FUZZ="+filepath.Join(d, "cfg"), "GOMAXPROCS=2", "GOMEMLIMIT=1500MiB")
		var eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &eb, &eb
		cmd.Run()
		seen := map[string]bool{}
		var begun *fuzzReport
		if ob, err := os.ReadFile(filepath.Join(d, "out")); err == nil {
			for _, l := range bytes.Split(ob, []byte("\n")) {
				var f fuzzReport
				if json.Unmarshal(l, &f) != nil || f.Spec == "" {
					continue
				}
				if !f.Done {
					c := f
					begun = &c
				} else {
					begun = nil
					c := f
					if c.GenErr != "" {
						r.undec = append(r.undec, "an input generator of "+c.Spec+" panicked: "+trunc(c.GenErr, 1500))
					}
					out = append(out, &c)
					seen[key(f.Spec, f.Only)] = true
				}
			}
		}
		if begun != nil {
			s := eb.String()
			if strings.Contains(s, "stack overflow") || strings.Contains(s, "concurrent map") {
				begun.Kind, begun.Label = "crash", "no-panic"
				begun.Detail = trunc(s, 3000)
			} else {
				r.undec = append(r.undec, "replay process of "+pkg+" died in "+begun.Spec+": "+trunc(s, 1500))
			}
			begun.Done = true
			out = append(out, begun)
			seen[key(begun.Spec, begun.Only)] = true
		}
		var rest []fuzzTask
		for _, t := range tasks {
			if !seen[key(t.Spec, t.Only)] {
				rest = append(rest, t)
			}
		}
		os.RemoveAll(d)
		if len(rest) == len(tasks) {
			r.undec = append(r.undec, "replay process of "+pkg+" gave nothing: "+trunc(eb.String(), 500))
			break
		}
		tasks = rest
	}
	return out
}

// fuzz runs tasks of several packages on all cores.
func (r *runner) fuzz(byPkg map[string][]fuzzTask) []*fuzzReport {
	type chunk struct {
		pkg string
		ts  []fuzzTask
	}
	var chunks []chunk
	total := 0
	for _, ts := range byPkg {
		total += len(ts)
	}
	var pk []string
	for p := range byPkg {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, p := range pk {
		ts := byPkg[p]
		if r.bins[p] == "" {
			continue
		}
		n := (len(ts)*r.workers + total - 1) / total
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			var c []fuzzTask
			for j := i; j < len(ts); j += n {
				c = append(c, ts[j])
			}
			if len(c) > 0 {
				chunks = append(chunks, chunk{p, c})
			}
		}
	}
	var mu sync.Mutex
	var out []*fuzzReport
	var wg sync.WaitGroup
	lim := make(chan struct{}, r.workers)
	for _, c := range chunks {
		wg.Add(1)
		lim <- struct{}{}
		go func(c chunk) {
			defer wg.Done()
			rs := r.runBin(c.pkg, c.ts)
			mu.Lock()
			out = append(out, rs...)
			mu.Unlock()
			<-lim
		}(c)
	}
	wg.Wait()
	return out
}

// ---- the check

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "", "quick or thorough")
	update := fs.Bool("baseline", false, "record what is proved as the baseline (development)")
	only := fs.String("spec", "", "restrict to specifications (development)")
	noFuzz := fs.Bool("nofuzz", false, "no replay (development)")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := int64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			seed = n
		}
	}
	dir, err := os.MkdirTemp("", "vcgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	r := &runner{prop: *prop, tier: *tier, seed: seed, dir: dir, base: loadBase(), workers: min(8, runtime.NumCPU()), bins: map[string]string{}, binErr: map[string]string{}}
	ev := newEvidence(*prop, *tier, seed)
	P, err := load(repoDir(), verifDir()+"/contracts")
	if err != nil {
		// the tree does not load (it does not compile): nothing is decided
		fmt.Fprintln(os.Stderr, err)
		ev.note("the tree could not be loaded: " + trunc(err.Error(), 1000))
		ev.write(r, t0)
		return 2
	}
	r.P = P
	r.ints, r.strs = P.mine()
	for _, d := range P.dropped {
		fmt.Println("UNDECIDED contract text does not fit the code any more:", d)
		r.undec = append(r.undec, "contract text does not fit the code any more: "+d)
	}
	if b, err := os.ReadFile(verifDir() + "/known_findings.json"); err == nil {
		json.Unmarshal(b, &r.findings)
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	var specs, finds []*Spec
	for _, s := range P.specs {
		in := *prop == ""
		for _, p := range s.Props {
			if p == *prop {
				in = true
			}
		}
		if !in || re != nil && !re.MatchString(s.Name) {
			continue
		}
		if s.Finding != "" {
			finds = append(finds, s)
		} else {
			specs = append(specs, s)
		}
	}
	symS, ms, fuzzTotal := 120, 6000, 70.0
	limit := 400 * time.Second
	if *tier == "thorough" {
		symS, ms, fuzzTotal = 240, 30000, 1200
		limit = 4 * time.Hour
	}
	if v := os.Getenv("VC_FUZZSECS"); v != "" {
		fuzzTotal, _ = strconv.ParseFloat(v, 64)
	}
	deadline := t0.Add(limit)
	var pts []*proofTask
	for _, s := range specs {
		if s.Kind == KBounded || s.NoProve {
			continue
		}
		for _, alt := range P.alternatives(s) {
			t := &proofTask{s: s, alt: alt, sym: symS, ms: ms, cost: float64(s.Weight)}
			if b := r.base[key(s.Name, alt)]; b != nil {
				t.cost = b.Secs
				if b.Status == "unsupported" && !*update {
					if *tier == "quick" {
						t.sym, t.ms = 10, 2000
					}
				}
			}
			pts = append(pts, t)
		}
	}
	// replay binaries are built while the verifier runs
	pkgSet := map[string]bool{}
	for _, s := range append(append([]*Spec{}, specs...), finds...) {
		if s.fuzzable() {
			pkgSet[s.Pkg] = true
		}
	}
	var pkgs []string
	for p := range pkgSet {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	bdone := make(chan bool)
	go func() {
		if !*noFuzz {
			r.buildBins(pkgs)
		}
		close(bdone)
	}()
	prove(pts, r.workers, deadline)
	r.phase("proof", t0)
	// second try, with more time, of what the baseline has as proved
	var again []*proofTask
	for _, t := range pts {
		if b := r.base[key(t.s.Name, t.alt)]; b != nil && b.Status == "proved" && (t.res == nil || t.res.failed() || t.res.Unsupported != "") {
			again = append(again, &proofTask{s: t.s, alt: t.alt, sym: 3 * symS, ms: 4 * ms, cost: t.cost})
		}
	}
	if len(again) > 0 && len(again) <= 24 {
		prove(again, max(1, r.workers/2), deadline)
		for _, a := range again {
			for i, t := range pts {
				if t.s == a.s && t.alt == a.alt && a.res != nil && (t.res == nil || t.res.Unsupported != "" || a.res.Unsupported == "") {
					pts[i].res, pts[i].err = a.res, a.err
				}
			}
		}
	}
	<-bdone
	r.phase("retry, build", t0)
	for p, e := range r.binErr {
		fmt.Println("UNDECIDED", p, e)
		r.undec = append(r.undec, e)
	}
	if *update {
		return r.updateBaseline(pts)
	}
	// classify
	type suspect struct {
		t    *proofTask
		obls []*OblResult
	}
	var suspects []suspect
	weak := map[string]bool{} // spec|alt that rest on the bounded replay alone
	for _, t := range pts {
		k := key(t.s.Name, t.alt)
		b := r.base[k]
		switch {
		case t.res == nil:
			weak[k] = true
			r.undec = append(r.undec, k+": "+t.err)
		case t.res.Unsupported != "":
			weak[k] = true
			if b == nil || b.Status != "unsupported" {
				r.undec = append(r.undec, k+": outside the verifier's reach: "+t.res.Unsupported)
				fmt.Println("UNDECIDED", k, t.res.Unsupported)
			}
		default:
			old := map[string]bool{}
			if b != nil {
				for _, f := range b.Failed {
					old[f] = true
				}
			}
			var bad []*OblResult
			for _, o := range t.res.Obls {
				if o.Status != "proved" {
					weak[k] = true
					if b != nil && b.Status != "unsupported" && !old[o.Name] {
						bad = append(bad, o)
					}
				}
			}
			if len(bad) > 0 {
				suspects = append(suspects, suspect{t, bad})
			}
		}
	}
	// replay
	byPkg := map[string][]fuzzTask{}
	nt := 0
	for _, s := range specs {
		if !s.fuzzable() {
			continue
		}
		nt += len(P.fuzzAlts(s)) * max(1, s.Weight)
	}
	var per float64
	if nt > 0 {
		per = fuzzTotal * 1000 / float64(nt)
	}
	if per > 8000 && *tier == "quick" {
		per = 8000
	}
	if per > 60000 {
		per = 60000
	}
	if per < 150 {
		per = 150
	}
	for _, s := range specs {
		if !s.fuzzable() {
			continue
		}
		for _, alt := range P.fuzzAlts(s) {
			byPkg[s.Pkg] = append(byPkg[s.Pkg], fuzzTask{Spec: s.Name, Only: alt, Ms: min(int(per)*max(1, s.Weight), 60000), Seed: seed})
		}
	}
	for _, s := range finds {
		byPkg[s.Pkg] = append(byPkg[s.Pkg], fuzzTask{Spec: s.Name, Ms: 4000, N: 50, Seed: seed})
	}
	var reps []*fuzzReport
	tf := time.Now()
	if !*noFuzz {
		reps = r.fuzz(byPkg)
	}
	r.phase("replay", t0)
	isFind := map[string]*Spec{}
	for _, s := range finds {
		isFind[s.Name] = s
	}
	failedFuzz := map[string]bool{}
	for _, f := range reps {
		if s := isFind[f.Spec]; s != nil {
			if f.Kind != "" {
				r.known(s, f)
			}
			continue
		}
		if f.Kind != "" {
			failedFuzz[f.Spec] = true
			r.violation(f, nil, "")
		}
	}
	// failed obligations without an input so far: search longer there
	for _, sp := range suspects {
		if failedFuzz[sp.t.s.Name] {
			continue
		}
		var found *fuzzReport
		if sp.t.s.fuzzable() && r.bins[sp.t.s.Pkg] != "" && !*noFuzz {
			var ts []fuzzTask
			for i := 0; i < r.workers; i++ {
				alt := sp.t.alt
				if alt == "nil" {
					alt = ""
				}
				ts = append(ts, fuzzTask{Spec: sp.t.s.Name, Only: alt, Ms: 15000, Seed: seed*1000 + int64(i) + 1})
			}
			var mu sync.Mutex
			var wg sync.WaitGroup
			for _, t := range ts {
				wg.Add(1)
				go func(t fuzzTask) {
					defer wg.Done()
					for _, f := range r.runBin(sp.t.s.Pkg, []fuzzTask{t}) {
						mu.Lock()
						if f.Kind != "" && found == nil {
							found = f
						}
						mu.Unlock()
					}
				}(t)
			}
			wg.Wait()
		}
		if found != nil {
			failedFuzz[sp.t.s.Name] = true
		}
		r.violation(found, sp.obls, sp.t.alt)
	}
	r.fuzzSecs = time.Since(tf).Seconds()
	ev.fill(r, pts, reps, weak, isFind)
	ev.write(r, t0)
	np, nf := 0, 0
	for _, t := range pts {
		if t.res != nil {
			for _, o := range t.res.Obls {
				if o.Status == "proved" {
					np++
				} else {
					nf++
				}
			}
		}
	}
	evals := 0
	for _, f := range reps {
		evals += f.Evals
	}
	fmt.Printf("%s %s: %d obligations proved, %d not proved, %d specification instances, %d replay evaluations, %d undecided, %.1f s\n", *prop, *tier, np, nf, len(pts), evals, len(r.undec), time.Since(t0).Seconds())
	if r.nviol > 0 {
		return 1
	}
	return 0
}

func (r *runner) phase(n string, t0 time.Time) {
	if os.Getenv("VC_PHASES") != "" {
		fmt.Printf("  [%s done at %.1f s]\n", n, time.Since(t0).Seconds())
	}
}

// fuzzAlts: the alternatives the replay is steered to.
func (P *Prog) fuzzAlts(s *Spec) []string {
	a := P.alternatives(s)
	if len(a) <= 1 || len(s.Split) > 0 && strings.Contains(s.Split[0], ".") {
		return []string{""}
	}
	out := []string{""}
	for _, x := range a {
		if x != "nil" {
			out = append(out, x)
		}
	}
	return out
}

func (r *runner) known(s *Spec, f *fuzzReport) {
	for _, k := range r.findings {
		if k.ID == s.Finding && k.Property == r.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.What)
			return
		}
	}
	r.violation(f, nil, "")
}

func (r *runner) violation(f *fuzzReport, obls []*OblResult, alt string) {
	r.nviol++
	d := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(d, 0o755)
	m := map[string]any{"property": r.prop, "repo": repoDir()}
	var spec string
	if f != nil {
		spec = f.Spec
		m["specification"], m["alternative"] = f.Spec, f.Only
		m["kind"], m["obligation"], m["detail"], m["input"] = f.Kind, f.Label, f.Detail, f.Input
		m["seed"], m["iteration"] = f.Seed, f.Iter
	}
	if len(obls) > 0 {
		spec = strings.SplitN(obls[0].Name, "/", 3)[0] + "/" + strings.SplitN(obls[0].Name+"//", "/", 3)[1]
		var os_ []map[string]any
		for _, o := range obls {
			os_ = append(os_, map[string]any{"obligation": o.Name, "status": o.Status, "paths": o.Paths, "failed_paths": o.Failed, "verifier_output": o.Detail})
		}
		m["failed_obligations"] = os_
	}
	name := r.prop + "-" + strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' {
			return c
		}
		return '_'
	}, spec) + fmt.Sprintf("-%d", r.nviol) + ".json"
	path := filepath.Join(d, name)
	var bb bytes.Buffer
	e := json.NewEncoder(&bb)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(m)
	os.WriteFile(path, bb.Bytes(), 0o644)
	if f != nil {
		fmt.Printf("  %s fails for %s (%s): %s\n  %s\n", f.Label, f.Spec, f.Kind, trunc(f.Input, 600), trunc(f.Detail, 800))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
	} else {
		for _, o := range obls {
			fmt.Printf("  obligation not proved: %s (%s)\n", o.Name, trunc(o.Detail, 200))
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", r.prop, path)
	}
}

func (r *runner) updateBaseline(pts []*proofTask) int {
	base := loadBase()
	for _, t := range pts {
		b := &baseEntry{}
		switch {
		case t.res == nil:
			b.Status = "unsupported"
			b.Failed = []string{t.err}
		case t.res.Unsupported != "":
			b.Status, b.Secs = "unsupported", t.res.Secs
			b.Failed = []string{t.res.Unsupported}
		case t.res.failed():
			b.Status, b.Secs = "partial", t.res.Secs
			for _, o := range t.res.Obls {
				if o.Status != "proved" {
					b.Failed = append(b.Failed, o.Name)
				}
			}
			sort.Strings(b.Failed)
		default:
			b.Status, b.Secs = "proved", t.res.Secs
		}
		b.Secs = float64(int(b.Secs*10)) / 10
		base[key(t.s.Name, t.alt)] = b
		if b.Status != "proved" {
			fmt.Println(key(t.s.Name, t.alt), b.Status, b.Failed)
		}
		if t.res != nil && t.res.Vacuous {
			fmt.Println(key(t.s.Name, t.alt), "VACUOUS")
		}
	}
	// drop entries of specifications that no longer exist
	names := map[string]bool{}
	for _, s := range r.P.specs {
		for _, a := range r.P.alternatives(s) {
			names[key(s.Name, a)] = true
		}
	}
	for k := range base {
		if !names[k] {
			delete(base, k)
		}
	}
	b, _ := json.MarshalIndent(base, "", " ")
	os.WriteFile(verifDir()+"/baseline.json", append(b, '\n'), 0o644)
	n := map[string]int{}
	for _, e := range base {
		n[e.Status]++
	}
	fmt.Println("baseline:", n)
	return 0
}

// cmdReplay evaluates the recorded input again.
func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Property, Specification, Alternative, Obligation string
		Seed                                             int64
		Iteration                                        int
	}
	json.Unmarshal(b, &m)
	if m.Specification == "" {
		fmt.Println("no failing input was found for this obligation; nothing to replay")
		return 2
	}
	dir, _ := os.MkdirTemp("", "vcgo")
	defer os.RemoveAll(dir)
	r := &runner{prop: m.Property, dir: dir, workers: 1, bins: map[string]string{}, binErr: map[string]string{}}
	P := mustLoad()
	r.P = P
	r.ints, r.strs = P.mine()
	for _, s := range P.specs {
		if s.Name == m.Specification {
			r.buildBins([]string{s.Pkg})
			for _, f := range r.runBin(s.Pkg, []fuzzTask{{Spec: s.Name, Only: m.Alternative, Ms: 60000, N: m.Iteration + 1, Seed: m.Seed}}) {
				if f.Kind != "" {
					fmt.Printf("%s fails for %s (%s): %s\n%s\n", f.Label, f.Spec, f.Kind, f.Input, f.Detail)
					return 1
				}
			}
		}
	}
	fmt.Println("the input passes")
	return 0
}
