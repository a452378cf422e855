package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	m     map[string]any
	assum map[string]bool
	notes []string
}

func newEvidence(prop, tier string, seed int64) *evidence {
	return &evidence{m: map[string]any{"property": prop, "tier": tier, "seed": seed}, assum: map[string]bool{}}
}

func (e *evidence) note(s string) { e.notes = append(e.notes, s) }

func (e *evidence) fill(r *runner, pts []*proofTask, reps []*fuzzReport, weak map[string]bool, finds map[string]*Spec) {
	obl, dis := 0, 0
	back := map[string]int{}
	secs := map[string]float64{}
	queries := map[string]int{}
	fns := map[string]bool{}
	inl := map[string]bool{}
	used := map[string]bool{}
	loops, invs := 0, 0
	var perSpec []map[string]any
	var unproved []string
	vac := []string{}
	for _, t := range pts {
		k := key(t.s.Name, t.alt)
		if t.res == nil {
			unproved = append(unproved, k+": "+t.err)
			continue
		}
		n, d := 0, 0
		for _, o := range t.res.Obls {
			n++
			if o.Status == "proved" {
				d++
				for b, c := range o.Backends {
					back[b] += c
				}
			} else {
				unproved = append(unproved, o.Name)
			}
		}
		if t.res.Unsupported != "" {
			unproved = append(unproved, k+": outside the verifier's reach: "+t.res.Unsupported)
			d = 0
			n = max(n, 1)
		}
		if t.res.Vacuous && t.res.Unsupported == "" {
			vac = append(vac, k)
		}
		obl += n
		dis += d
		loops += t.res.Loops
		invs += t.res.Invariants
		for b, s := range t.res.SolverSecs {
			secs[b] += s
		}
		for b, s := range t.res.Queries {
			queries[b] += s
		}
		for _, f := range t.res.Inlined {
			inl[f] = true
		}
		for _, f := range t.res.Used {
			used[f] = true
		}
		for _, a := range t.res.Assumptions {
			e.assum[a] = true
		}
		if t.s.TargetFn != nil {
			fns[t.s.TargetFn.String()] = true
		} else if t.s.IfaceObj != nil {
			fns["("+t.alt+")."+t.s.IfaceObj.Name()] = true
		}
		perSpec = append(perSpec, map[string]any{"specification": k, "obligations": n, "discharged": d, "seconds": float64(int(t.res.Secs*100)) / 100})
	}
	evals, distinct := 0, 0
	var samples []string
	bySpec := map[string]int{}
	for _, f := range reps {
		if finds[f.Spec] != nil {
			continue
		}
		evals += f.Evals
		distinct += f.Distinct
		bySpec[f.Spec] += f.Evals
		for _, s := range f.Samples {
			if len(samples) < 6 {
				samples = append(samples, f.Spec+": "+trunc(s, 400))
			}
		}
	}
	var bounded []string
	seen := map[string]bool{}
	for _, f := range reps {
		for _, s := range r.P.specs {
			if s.Name == f.Spec && s.Kind == KBounded && s.Finding == "" && !seen[s.Name] {
				seen[s.Name] = true
				bounded = append(bounded, s.Name+fmt.Sprintf(" (bounded: %d generated inputs)", bySpec[s.Name]))
			}
		}
	}
	for k := range weak {
		bounded = append(bounded, k+" (bounded: not every obligation is discharged)")
	}
	sort.Strings(bounded)
	var zero []string
	for s, n := range bySpec {
		if n == 0 {
			zero = append(zero, s)
		}
	}
	sort.Strings(zero)
	cov := map[string]any{
		"obligations": obl, "discharged": dis,
		"checker_cmd":                      "/verif/check.sh " + r.prop + " " + r.tier,
		"trusted_base":                     []string{"the verifier in /verif/engine (symbolic execution of the go/ssa form of the current source; loop invariants found by Houdini and then proved)", "z3 5.3.2", "z3 4.8.12", "cvc5 1.1.2", "golang.org/x/tools v0.52.0 (go/ssa) and the Go type checker"},
		"functions_under_contract":         keys(fns),
		"functions_inlined":                keys(inl),
		"contracts_used_at_calls":          keys(used),
		"loops":                            loops,
		"loop_invariant_conjuncts":         invs,
		"backends_path_obligations":        back,
		"solver_seconds":                   roundM(secs),
		"solver_queries":                   queries,
		"not_discharged":                   unproved,
		"vacuous":                          vac,
		"bounded":                          bounded,
		"specifications":                   perSpec,
		"evaluations":                      evals,
		"distinct_nontrivial":              distinct,
		"rule":                             "replay: each specification function is executed against the real code on generated inputs whose precondition holds; distinct counts structurally different inputs",
		"samples":                          samples,
		"replay_no_input_met_precondition": zero,
		"undecided":                        r.undec,
		"explanation":                      "Obligations are generated from the current source of /repo by the verifier and discharged by the listed back ends for all inputs; the replay executes the same specifications on generated inputs (bounded; never counted as proved) to find failing inputs and to stand in where an obligation is not discharged.",
	}
	e.m["coverage"] = cov
	if obl > 0 && dis == obl && len(bounded) == 0 {
		e.m["level"] = "proof"
	} else if dis > 0 {
		e.m["level"] = "proof"
	} else {
		e.m["level"] = "exploration"
	}
}

func roundM(m map[string]float64) map[string]float64 {
	o := map[string]float64{}
	for k, v := range m {
		o[k] = float64(int(v*100)) / 100
	}
	return o
}

func (e *evidence) write(r *runner, t0 time.Time) {
	as := keys(e.assum)
	as = append(as, e.notes...)
	as = append(as,
		"the semantics of the symbolic executor (not itself verified) agrees with Go's for the constructs it accepts; constructs it does not accept are reported, not assumed",
		"library stubs listed in engine/stub.go describe the standard library functions they stand for")
	for i := range as {
		as[i] = strings.TrimSpace(as[i])
	}
	e.m["assumptions"] = as
	e.m["wall_s"] = float64(int(time.Since(t0).Seconds()*10)) / 10
	e.m["violations"] = r.nviol
	if e.m["coverage"] == nil {
		e.m["coverage"] = map[string]any{"explanation": "nothing was decided"}
		e.m["level"] = "other"
	}
	b, _ := json.MarshalIndent(e.m, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, e.m["property"].(string)+".json"), append(b, '\n'), 0o644)
}
