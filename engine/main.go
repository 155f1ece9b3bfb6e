package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct{ prop, harness, msg, text string }

func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) msg="([^"]*)" -- (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: engine check|replay ...")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "replay":
		replayFile(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

// loadWith drops harness files that no longer compile against the current source.
func loadWith(repo, hdir, prop string) (*Program, map[string]string, []string, error) {
	lp := strings.ToLower(prop)
	all, err := harnessFiles(hdir, lp)
	if err != nil {
		return nil, nil, nil, err
	}
	if lp == "c92" {
		dir, err := addGenerated(repo, all)
		genDir = dir
		if err != nil {
			return nil, all, nil, err
		}
	}
	var dropped []string
	for {
		P, err := Load(repo, all)
		if err == nil {
			return P, all, dropped, nil
		}
		n := 0
		for k := range all {
			if strings.Contains(err.Error(), k) && !strings.HasPrefix(k, "zz_verif_rt") {
				dropped = append(dropped, k+": "+err.Error())
				delete(all, k)
				n++
			}
		}
		if n == 0 {
			return nil, all, dropped, err
		}
	}
}

// genDir holds generated source while a check of it runs.
var genDir string

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	only := fs.String("only", "", "regexp of harness names")
	budget := fs.Int("budget", 0, "seconds of exploration")
	solver := fs.String("solver", "z3-new", "")
	timeout := fs.Int("timeout", 10000, "solver timeout per query, ms")
	workers := fs.Int("workers", 8, "")
	maxStep := fs.Int("steps", 3000000, "")
	verbose := fs.Bool("v", false, "")
	noRewrite := fs.Bool("no-evidence", false, "")
	fs.Parse(args)
	if pf := os.Getenv("VZ_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
	}

	t0 := time.Now()
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(10 << 30)
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	tierN := 0
	bud := 150
	if *tier == "thorough" {
		tierN = 1
		bud = 660
		maxSamples = 100
	}
	if *budget > 0 {
		bud = *budget
	}
	P, hfiles, dropped, err := loadWith(*repo, filepath.Join(*verif, "harness"), *prop)
	defer os.RemoveAll(genDir)
	if err != nil {
		os.RemoveAll(genDir)
		fmt.Printf("CHECK-ERROR property=%s cannot load the current source: %v\n", *prop, err)
		os.Exit(2)
	}
	for _, d := range dropped {
		fmt.Printf("NOTE property=%s harness file dropped (does not compile against the current source): %s\n", *prop, d)
	}
	names := P.harnesses("vz" + *prop + "_")
	if *only != "" {
		re := regexp.MustCompile(*only)
		var k []string
		for _, n := range names {
			if re.MatchString(n) {
				k = append(k, n)
			}
		}
		names = k
	}
	if len(names) == 0 {
		fmt.Printf("CHECK-ERROR property=%s no harness could be encoded\n", *prop)
		os.Exit(2)
	}
	rp := NewReplayer(*repo, hfiles, names)
	defer rp.Close()
	loadDur := time.Since(t0)
	pl := &Pool{P: P, workers: *workers, solver: *solver, timeout: *timeout, maxStep: *maxStep, deadline: time.Now().Add(time.Duration(bud) * time.Second)}
	for _, n := range names {
		pl.exs = append(pl.exs, newExplorer(n, P.pkg.Func(n), tierN, seed))
	}
	pl.run()
	expDur := time.Since(t0) - loadDur
	if len(pl.initErr) > 0 {
		fmt.Printf("CHECK-ERROR property=%s package initialisation not encodable: %s\n", *prop, pl.initErr[0])
		rp.Close()
		os.Exit(2)
	}

	// native replay of violations and of sampled complete paths
	var items []replayItem
	var viol []*Violation
	vAt := map[int]*Violation{}
	sAt := map[int]*Sample{}
	pAt := map[int]*Sample{}
	id := 0
	for _, e := range pl.exs {
		for _, m := range sortedKeys(e.viols) {
			for _, v := range e.viols[m] {
				rep := 1
				if v.Flags["rand"] == 1 || v.Flags["maporder"] == 1 {
					rep = 3000
				}
				items = append(items, replayItem{id, v.Harness, v.Model, rep, tierN})
				vAt[id] = v
				viol = append(viol, v)
				id++
			}
		}
	}
	for _, e := range pl.exs {
		for _, s := range e.samples {
			if s.Rand {
				continue
			}
			items = append(items, replayItem{id, s.Harness, s.Model, 1, tierN})
			sAt[id] = s
			id++
		}
		for _, s := range e.probes {
			if s.Rand {
				continue
			}
			items = append(items, replayItem{id, s.Harness, s.Model, 1, tierN})
			pAt[id] = s
			id++
		}
	}
	res, rerr := rp.Run(items)
	if rerr != nil {
		fmt.Printf("NOTE property=%s native replay unavailable: %v\n", *prop, rerr)
	}
	validated, mism := 0, []interface{}{}
	// a solver model whose native execution fails an assertion is a violation of the real code, whatever the encoding said
	native := func(s *Sample, r replayResult) {
		nb, _ := json.Marshal(r)
		for _, f := range r.Fails {
			viol = append(viol, &Violation{Harness: s.Harness, Msg: f, Kind: "native", Model: s.Model, Confirmed: true, Native: string(nb)})
		}
		if r.Panic != "" && !strings.HasPrefix(r.Panic, "process died") && !strings.HasPrefix(r.Panic, "timeout") {
			viol = append(viol, &Violation{Harness: s.Harness, Msg: "uncaught panic in native execution: " + firstLine(r.Panic), Kind: "native", Model: s.Model, Confirmed: true, Native: string(nb)})
		}
	}
	probed := 0
	for _, i := range sortedIDs(pAt) {
		if r, ok := res[i]; ok {
			probed++
			native(pAt[i], r)
		}
	}
	for _, i := range sortedIDs(sAt) {
		s := sAt[i]
		r, ok := res[i]
		if !ok {
			continue
		}
		native(s, r)
		if r.Panic == "" && r.Stop == "" && len(r.Fails) == 0 && sameTrace(s.Trace, r.Trace) {
			validated++
		} else {
			mism = append(mism, map[string]interface{}{"harness": s.Harness, "values": s.Model, "engine_trace": s.Trace, "native": r})
		}
	}
	for i, v := range vAt {
		r, ok := res[i]
		if !ok {
			continue
		}
		b, _ := json.Marshal(r)
		v.Native = string(b)
		switch v.Kind {
		case "assert":
			for _, f := range r.Fails {
				if f == v.Msg {
					v.Confirmed = true
				}
			}
		case "panic":
			v.Confirmed = r.Panic != ""
		case "suspect":
			v.Confirmed = strings.HasPrefix(r.Panic, "process died") || strings.HasPrefix(r.Panic, "timeout")
		}
		if !v.Confirmed && v.Kind != "native" {
			native(&Sample{Harness: v.Harness, Model: v.Model}, r)
		}
	}
	finds := loadFindings(filepath.Join(*verif, "KNOWN_FINDINGS.txt"))
	nviol, nknown, nunconf := 0, 0, 0
	done := map[string]bool{}
	repDir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	unconfirmed := []interface{}{}
	for _, v := range viol {
		key := v.Harness + "|" + v.Msg
		if !v.Confirmed {
			nunconf++
			if len(unconfirmed) < 10 {
				unconfirmed = append(unconfirmed, v)
			}
			continue
		}
		if done[key] {
			continue
		}
		done[key] = true
		known := false
		for _, f := range finds {
			if f.prop == *prop && f.harness == v.Harness && f.msg == v.Msg {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s: %s]\n", *prop, f.text, v.Harness, v.Msg)
				known = true
				nknown++
				break
			}
		}
		if known {
			continue
		}
		nviol++
		p := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", *prop, nviol))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "tier": tierN, "violation": v,
			"replay_cmd": fmt.Sprintf("bash /verif/replay.sh %s", p)}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s harness=%s: %s\n", *prop, p, v.Harness, v.Msg)
	}
	for _, v := range viol {
		key := v.Harness + "|" + v.Msg
		if !v.Confirmed && !done[key] {
			done[key] = true
			fmt.Printf("NOTE property=%s solver counterexample not reproduced natively (not reported): %s: %s\n", *prop, v.Harness, v.Msg)
			if *verbose {
				b, _ := json.Marshal(v)
				fmt.Println(string(b))
			}
		}
	}
	// evidence
	ev := evidence(*prop, *tier, seed, pl, P, validated, probed, mism, unconfirmed, nviol, nknown, dropped, loadDur, expDur, time.Since(t0), bud, *workers)
	if !*noRewrite {
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	}
	summary(*prop, pl, validated, mism, *verbose, loadDur, expDur, time.Since(t0))
	rp.Close()
	os.RemoveAll(genDir)
	if nviol > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
	pprof.StopCPUProfile()
	os.Exit(0)
}

func sortedIDs(m map[int]*Sample) []int {
	k := make([]int, 0, len(m))
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	return k
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func summary(prop string, pl *Pool, validated int, mism []interface{}, verbose bool, loadDur, expDur, wall time.Duration) {
	q, unk := 0, 0
	var st time.Duration
	for _, s := range pl.stats {
		q += s.Queries
		unk += s.NUnk
		st += s.Time
	}
	paths := 0
	for _, e := range pl.exs {
		paths += e.paths
		ends := ""
		for _, k := range sortedKeys(e.ends) {
			ends += fmt.Sprintf(" %s=%d", k, e.ends[k])
		}
		cut := ""
		if e.cut {
			cut = " CUT"
		}
		fmt.Printf("  %-40s paths=%d%s%s asserts=%d cpu=%.1fs\n", e.name, e.paths, ends, cut, e.asserts, e.spent.Seconds())
		if verbose {
			for _, k := range sortedKeys(e.notes) {
				fmt.Printf("      note %s x%d\n", k, e.notes[k])
			}
		}
	}
	fmt.Printf("property %s: %d harnesses, %d paths, %d solver queries (%d unknown, %.1fs solver), %d native replays agreed, %d disagreed; load %.1fs init %.1fs explore %.1fs wall %.1fs\n",
		prop, len(pl.exs), paths, q, unk, st.Seconds(), validated, len(mism), loadDur.Seconds(), pl.initDur.Seconds(), expDur.Seconds(), wall.Seconds())
	if verbose {
		for i, m := range mism {
			if i > 4 {
				break
			}
			b, _ := json.Marshal(m)
			fmt.Println("  MISMATCH", string(b))
		}
	}
}

func evidence(prop, tier string, seed int64, pl *Pool, P *Program, validated, probed int, mism, unconf []interface{}, nviol, nknown int, dropped []string, loadDur, expDur, wall time.Duration, bud, workers int) map[string]interface{} {
	var states, trans, asserts, asq, steps int64
	hs := []interface{}{}
	samples := []interface{}{}
	complete := true
	reach := map[string]int{}
	for _, e := range pl.exs {
		states += int64(e.paths)
		trans += e.decs
		asserts += e.asserts
		asq += e.asserted
		steps += e.steps
		if e.cut || len(e.notes) > 0 {
			complete = false
		}
		for k, v := range e.reached {
			reach[e.name+":"+k] += v
		}
		notes := map[string]int{}
		for i, k := range sortedKeys(e.notes) {
			if i < 12 {
				notes[k] = e.notes[k]
			}
		}
		hs = append(hs, map[string]interface{}{"harness": e.name, "paths": e.paths, "path_ends": e.ends, "assertions_decided": e.asserts,
			"branch_decisions": e.decs, "ssa_instructions": e.steps, "cut_off": e.cut, "incomplete_because": notes, "abstractions_used": e.approx, "bound_flags": e.flagsUsd})
		if len(e.samples) > 0 && len(samples) < 40 {
			s := e.samples[0]
			samples = append(samples, map[string]interface{}{"harness": s.Harness, "solver_model": s.Model, "trace": s.Trace})
		}
	}
	q, ns, nu, nk, ne := 0, 0, 0, 0, 0
	var st, mx time.Duration
	for _, s := range pl.stats {
		q += s.Queries
		ns += s.NSat
		nu += s.NUnsat
		nk += s.NUnk
		ne += s.NErr
		st += s.Time
		if s.MaxTime > mx {
			mx = s.MaxTime
		}
	}
	repoFns, stdFns := []string{}, 0
	for _, f := range sortedKeys(pl.seenFn) {
		if strings.Contains(f, repoPath) {
			f = strings.ReplaceAll(f, repoPath+".", "")
			if !strings.HasPrefix(f, "vz") {
				repoFns = append(repoFns, f)
			}
		} else {
			stdFns++
		}
	}
	stubs := []string{}
	for _, k := range sortedKeys(pl.stubs) {
		if !strings.Contains(k, repoPath+".vz") {
			stubs = append(stubs, k)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"what_the_counts_are":                "states: symbolic execution paths ended in this run; transitions: branch/concretisation decisions taken on them; traces_validated_against_impl: solver models of complete paths executed natively against /repo's code with identical observable trace",
		"exploration_complete":               complete,
		"harnesses":                          hs,
		"assertions_decided":                 asserts,
		"assertion_solver_queries":           asq,
		"ssa_instructions_executed":          steps,
		"solver":                             map[string]interface{}{"name": pl.solver, "queries": q, "sat": ns, "unsat": nu, "unknown": nk, "errors": ne, "total_s": st.Seconds(), "max_query_s": mx.Seconds(), "timeout_ms": pl.timeout},
		"functions_encoded":                  repoFns,
		"library_functions_encoded":          stdFns,
		"library_functions_modelled":         stubs,
		"reach_labels":                       reach,
		"replay_disagreements":               mism,
		"undecided_path_models_run_natively": probed,
		"unconfirmed_counterexamples":        unconf,
		"known_findings_reproduced":          nknown,
		"dropped_harness_files":              dropped,
		"time":                               map[string]interface{}{"load_and_encode_s": loadDur.Seconds(), "explore_s": expDur.Seconds(), "budget_s": bud, "workers": workers},
	}
	return map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions(), "wall_s": wall.Seconds(), "violations": nviol}
}

func assumptions() []string {
	return []string{
		"The Go SSA form produced by golang.org/x/tools/go/ssa from /repo's current source has the meaning the interpreter in /verif/engine gives it (checked on every run by replaying solver models natively).",
		"The SMT solver's sat/unsat answers are right (thorough development runs compared z3 4.8.12, z3 5.3.2 and cvc5).",
		"Library functions listed under library_functions_modelled follow the contracts stated in DESIGN.md; every counterexample is confirmed on the real code before it is reported.",
		"Within the bounds stated per harness in DESIGN.md (numbers of rows, columns, string lengths); nothing is claimed outside them.",
	}
}

func replayFile(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	file := fs.String("file", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fatal("%v", err)
	}
	var x struct {
		Property  string
		Tier      int
		Violation Violation
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fatal("%v", err)
	}
	hf, err := harnessFiles(filepath.Join(*verif, "harness"), strings.ToLower(x.Property))
	if err != nil {
		fatal("%v", err)
	}
	if x.Property == "C92" {
		dir, err := addGenerated(*repo, hf)
		defer os.RemoveAll(dir)
		if err != nil {
			fatal("%v", err)
		}
	}
	rp := NewReplayer(*repo, hf, []string{x.Violation.Harness})
	res, err := rp.Run([]replayItem{{0, x.Violation.Harness, x.Violation.Model, 1, x.Tier}})
	rp.Close()
	if err != nil {
		fatal("%v", err)
	}
	o, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Println(string(o))
	if len(res[0].Fails) > 0 || res[0].Panic != "" {
		os.Exit(1)
	}
}
