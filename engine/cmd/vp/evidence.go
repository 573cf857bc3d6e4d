package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/exec"
)

func writeEvidence(dir string, reps []*exec.Report, hp *ssa.Package, t0 time.Time, seed int64, viol, validated, mismatched, cutRun int,
	mismatches, unconfirmed []string, confirmed []map[string]any, samples []any, known map[string]bool, loadT time.Duration) {
	var states, steps, queries, sat, unsat, unk, hits, asserts, dis, parses, infeas, paths int
	var solver time.Duration
	var maxq time.Duration
	funcs := map[string]int64{}
	aborted := map[string]int{}
	unknowns := map[string]int{}
	crossN, crossBad := 0, 0
	var hs []any
	var incomplete []string
	for _, r := range reps {
		states += r.Completed
		paths += r.Paths
		infeas += r.Infeasible
		steps += int(r.Steps)
		queries += r.Queries
		sat += r.SatN
		unsat += r.UnsatN
		unk += r.UnknownN
		hits += r.CacheHits
		asserts += r.Asserts
		dis += r.AssertDis
		parses += r.Parses
		solver += r.SolverTime
		crossN += r.CrossN
		crossBad += r.CrossBad
		if r.MaxQuery > maxq {
			maxq = r.MaxQuery
		}
		for k, v := range r.Funcs {
			if !strings.Contains(k, "/sqlite/antlr") {
				funcs[k] += v
			}
		}
		for k, v := range r.Aborted {
			aborted[k] += v
		}
		for k, v := range r.Unknowns {
			unknowns[k] += v
		}
		var missing []string
		for _, c := range coverLabels(hp.Func(r.Harness)) {
			if r.Covers[c] == 0 {
				missing = append(missing, c)
			}
		}
		if r.Incomplete != "" {
			incomplete = append(incomplete, r.Harness+": "+r.Incomplete)
		}
		hs = append(hs, map[string]any{"harness": r.Harness, "paths": r.Paths, "completed": r.Completed, "infeasible": r.Infeasible,
			"assertions": r.Asserts, "discharged": r.AssertDis, "covers": r.Covers, "covers_unreached": missing,
			"instructions": r.Steps, "queries": r.Queries, "solver_s": r.SolverTime.Seconds(), "wall_s": r.Wall.Seconds(),
			"aborted": r.Aborted, "unknown": r.Unknowns, "incomplete": r.Incomplete})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	bounds := "see the harness sources in /verif/harness/props for the input sizes"
	if b, err := os.ReadFile(filepath.Join(*verif, "bounds.json")); err == nil {
		var m map[string]string
		if json.Unmarshal(b, &m) == nil && m[*prop] != "" {
			bounds = m[*prop]
		}
	}
	var kl []string
	for k := range known {
		kl = append(kl, k)
	}
	sort.Strings(kl)
	if samples == nil {
		samples = []any{}
	}
	if unconfirmed == nil {
		unconfirmed = []string{}
	}
	if mismatches == nil {
		mismatches = []string{}
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
			"paths_started": paths, "paths_infeasible": infeas,
			"functions_encoded": fl, "functions_encoded_count": len(fl),
			"bounds":  bounds,
			"queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk, "query_cache_hits": hits,
			"assertions_checked": asserts, "assertions_discharged": dis,
			"solver": "z3 4.8.12", "solver_s": solver.Seconds(), "max_query_s": maxq.Seconds(),
			"cross_checked": crossN, "cross_disagreements": crossBad,
			"native_parses": parses, "harnesses": hs, "paths_aborted": aborted, "solver_unknowns": unknowns,
			"incomplete": incomplete, "unconfirmed_counterexamples": unconfirmed,
			"cut_paths_run_natively": cutRun,
			"witness_mismatches":     mismatched, "witness_mismatch_detail": mismatches, "known_findings_seen": kl,
			"load_s": loadT.Seconds(),
		},
		"wall_s": time.Since(t0).Seconds(),
		"assumptions": []string{
			"the ANTLR runtime's lexer and parser run natively on one representative per token class of a symbolic text; members of a class give the same tree because the lexer tables depend on character classes only (class conditions in engine/exec/parse.go)",
			"fmt, strings, strconv formatting, regexp, math and sync are modelled by the intrinsics in engine/exec; the rest of the code is executed from its SSA form",
			"symbolic text is ASCII within the stated class; logging has no effect",
			"paths listed under paths_aborted and harnesses listed under incomplete are outside the claim",
		},
		"violations": len(confirmed),
	}
	if len(confirmed) > 0 {
		ev["coverage"].(map[string]any)["violations_detail"] = confirmed
	}
	ev["coverage"].(map[string]any)["exhaustive"] = len(incomplete) == 0 && len(aborted) == 0 && unk == 0
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.WriteFile(filepath.Join(dir, *prop+".json"), b, 0o644)
}
