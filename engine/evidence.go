package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

// writeEvidence records what this run covered, all of it counted on this run.
func (e *Engine) writeEvidence(prop, tier string, rs []*harnessResult, dur time.Duration) {
	seed := 1
	if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = n
	}
	var paths, steps, decisions, asserts, assertsSym, queries, hits, sent, unknown int64
	var solver time.Duration
	validated, viol := 0, 0
	fns := map[string]bool{}
	notes := map[string]bool{}
	exhaustive := true
	var hs []any
	var samples []any
	for _, r := range rs {
		ex := r.ex
		paths += ex.paths
		steps += ex.steps
		decisions += ex.decisions
		asserts += ex.asserts
		assertsSym += ex.assertsSym
		queries += ex.st.Queries
		hits += ex.st.CacheHits
		sent += ex.st.Solved
		unknown += ex.st.Unknown
		solver += time.Duration(ex.st.Nanos)
		validated += r.validated
		viol += len(r.violations)
		for f := range ex.fns {
			fns[f] = true
		}
		complete := !ex.timedOut && ex.pendLeft == 0 && len(ex.cuts) == 0
		if !complete {
			exhaustive = false
		}
		h := map[string]any{
			"id": r.h.ID, "entry": r.h.Pkg + "." + r.h.Fn, "decides": r.h.Covers,
			"bounds": r.h.bounds.Params, "paths": ex.paths, "paths_by_end": ex.byKind,
			"obligations": ex.asserts, "complete_within_bounds": complete, "reached": ex.reached,
			"seconds": r.dur.Seconds(), "native_replays_agreeing": r.validated - len(r.mismatches),
			"native_replays": r.validated,
		}
		if len(ex.cuts) > 0 {
			h["cut_off"] = ex.cuts
		}
		if ex.pendLeft > 0 {
			h["branches_left_unexplored"] = ex.pendLeft
		}
		if len(r.missing) > 0 {
			h["reach_labels_missed"] = r.missing
		}
		if len(r.mismatches) > 0 {
			h["native_disagreements"] = r.mismatches
		}
		if len(r.spurious) > 0 {
			h["counterexamples_not_reproduced"] = r.spurious
		}
		if len(r.known) > 0 {
			h["known_findings"] = r.known
		}
		if len(ex.errs.s) > 0 {
			h["solver_errors"] = ex.errs.s
		}
		hs = append(hs, h)
		for i, s := range ex.samples {
			if i >= 3 {
				break
			}
			vars := map[string]int64{}
			for k, v := range s.Vars {
				if k == 60 {
					break
				}
				vars[v.Name] = v.Val
			}
			obs := s.Obs
			if len(obs) > 4 {
				obs = obs[:4]
			}
			for k := range obs {
				if len(obs[k]) > 400 {
					obs = append([]string{}, obs...)
					obs[k] = obs[k][:400] + "…"
				}
			}
			samples = append(samples, map[string]any{"harness": r.h.ID, "outcome": s.Kind, "inputs": vars, "observed": obs})
		}
		for _, n := range r.initNotes {
			notes["initialiser part not run: "+n] = true
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var as []string
	for n := range notes {
		as = append(as, n)
	}
	for _, d := range e.usedSubsts() {
		as = append(as, d)
	}
	sort.Strings(as)
	as = append([]string{
		"Nothing is claimed outside the bounds listed per harness (sizes, counts, depths, alphabet of choices).",
		"SSA form built by golang.org/x/tools/go/ssa, the interpreter in /verif/engine and the SMT solver are trusted; sampled paths are re-run natively as a check of the translation.",
	}, as...)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": dur.Seconds(), "violations": viol,
		"coverage": map[string]any{
			"states": paths, "transitions": decisions, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":           exhaustive,
			"what_is_counted":      "states: symbolic paths explored to their end, each standing for all inputs satisfying its path condition; transitions: branch decisions taken along them; traces_validated_against_impl: paths re-run natively on the solver's values",
			"ssa_instructions":     steps,
			"obligations_decided":  asserts,
			"obligations_symbolic": assertsSym,
			"solver_queries":       queries, "solver_cache_hits": hits, "solver_queries_sent": sent, "solver_unknown": unknown,
			"solver_seconds":    solver.Seconds(),
			"functions_encoded": fl,
			"harnesses":         hs,
		},
		"assumptions": as,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("ERROR evidence:", err)
		return
	}
	os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), b, 0644)
}

func (e *Engine) usedSubsts() []string {
	var r []string
	for n, f := range e.substs {
		r = append(r, "modelled instead of run: "+n+" by "+f.Name())
	}
	sort.Strings(r)
	return r
}
