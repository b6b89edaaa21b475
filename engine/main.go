package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	debug.SetMaxStack(4 << 30)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check|run|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		hs, _ := scanHarnesses()
		for _, h := range hs {
			fmt.Println(h.Name, h.Props, h.Tier, h.Covers)
		}
	}
}

type loaded struct {
	hs []*Harness
	ov map[string][]byte
	p  *Program
	t  time.Duration
}

func load() (*loaded, error) {
	t0 := time.Now()
	hs, err := scanHarnesses()
	if err != nil {
		return nil, err
	}
	ov, err := overlayFiles(hs)
	if err != nil {
		return nil, err
	}
	p, err := loadProgram(ov)
	if err != nil {
		return nil, err
	}
	return &loaded{hs, ov, p, time.Since(t0)}, nil
}

func newRun(p *Program, h *Harness, tier int, budget time.Duration) (*Run, error) {
	f := p.pkgs[modPath+"/internal/zzverif/h"].Func(h.Name)
	if f == nil {
		return nil, fmt.Errorf("no harness %s", h.Name)
	}
	r := &Run{p: p, name: h.Name, entry: p.fn(f), solverBin: "/usr/local/bin/z3-new", solverTimeout: 20000, stepLimit: 20000000, allocLimit: 1 << 24, workers: runtime.NumCPU()}
	if s := envOr("VERIF_SOLVER", h.Opts["solver"]); s != "" {
		r.solverBin = s
	}
	if s := h.Opts["timeout"]; s != "" {
		n, _ := strconv.Atoi(s)
		r.solverTimeout = n * 1000
	}
	if h.Steps > 0 {
		r.stepLimit = h.Steps
	}
	if s := h.Opts["workers"]; s != "" {
		r.workers, _ = strconv.Atoi(s)
	}
	r.deadline = time.Now().Add(budget)
	r.tier = tier
	return r, nil
}

func tierNum(s string) int {
	if s == "thorough" {
		return 1
	}
	return 0
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	pat := fs.String("h", "", "harness name prefix")
	dbg := fs.Bool("debug", false, "")
	chk := fs.Bool("checkmodels", false, "")
	tier := fs.String("tier", "quick", "")
	budget := fs.Int("budget", 120, "seconds")
	maxp := fs.Int64("maxpaths", 0, "")
	workers := fs.Int("w", 0, "")
	nat := fs.Bool("native", true, "replay violations and covers natively")
	fs.Parse(args)
	l, err := load()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("loaded in %.1fs\n", l.t.Seconds())
	n, _ := newNative(l.ov)
	defer n.close()
	for _, h := range l.hs {
		if !strings.HasPrefix(h.Name, *pat) {
			continue
		}
		r, err := newRun(l.p, h, tierNum(*tier), time.Duration(*budget)*time.Second)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		r.debug = *dbg
		r.checkModels = *chk
		r.maxPaths = *maxp
		if *workers > 0 {
			r.workers = *workers
		}
		r.Explore()
		fmt.Println(r.summary())
		if *dbg {
			for k, c := range r.notes {
				fmt.Println("  note", c, k)
			}
			fmt.Println("  hits", r.hits)
		}
		var ks []string
		for k := range r.viols {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := r.viols[k]
			fmt.Printf("  CANDIDATE %s: %s\n    at %s\n    vals %x\n", v.Kind, v.Msg, v.Where, v.Vals)
			for _, t := range v.Trace {
				fmt.Println("      trace", t)
			}
			if *nat {
				f, o := replayViolation(n, v, tierNum(*tier))
				fmt.Printf("    native fails=%v: %s\n", f, strings.TrimSpace(o))
			}
		}
		for _, c := range h.Covers {
			if r.covers[c] == 0 {
				fmt.Println("  NOT COVERED:", c)
			} else if *nat {
				f, o := n.run(&ReplayFile{Harness: h.Name, Tier: tierNum(*tier), Vals: r.coverVals[c]}, false, 20*time.Second)
				if f || !strings.Contains(o, "COVER "+c+"\n") {
					fmt.Printf("  cover %s NOT REPRODUCED natively (%v): %s\n", c, f, o)
				}
			}
		}
	}
	return 0
}

func replayViolation(n *Native, v *Violation, tier int) (bool, string) {
	rf := &ReplayFile{Harness: v.Harness, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Tier: tier, Vals: v.Vals, Trace: v.Trace, Sched: v.Sched}
	to := 20 * time.Second
	race := v.Kind == "race" || v.Kind == "deadlock" || v.Sched
	if race {
		return n.stress(rf, 60*time.Second)
	}
	return n.run(rf, false, to)
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	hs, err := scanHarnesses()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	ov, err := overlayFiles(hs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n, err := newNative(ov)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer n.close()
	f, o := replayViolation(n, &Violation{Harness: rf.Harness, Kind: rf.Kind, Vals: rf.Vals, Sched: rf.Sched}, rf.Tier)
	fmt.Println(o)
	if f {
		fmt.Println("the recorded violation fails against the real code")
		return 1
	}
	fmt.Println("the recorded violation does not fail")
	return 0
}

// ---------------------------------------------------------------- check

// Finding is one line of the known-findings file.
type Finding struct {
	Prop, Harness, Msg, Where, Text string
}

// known findings: tab separated "known: property=<id> harness=<h> msg=<substring> where=<substring> # text"
func loadFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := Finding{}
		head, text, _ := strings.Cut(l[len("known:"):], "#")
		f.Text = strings.TrimSpace(text)
		for _, kv := range strings.Split(head, "|") {
			k, v, ok := strings.Cut(strings.TrimSpace(kv), "=")
			if !ok {
				continue
			}
			switch k {
			case "property":
				f.Prop = v
			case "harness":
				f.Harness = v
			case "msg":
				f.Msg = v
			case "where":
				f.Where = v
			}
		}
		out = append(out, f)
	}
	return out
}

func (f *Finding) match(prop string, v *Violation) bool {
	return f.Prop == prop && (f.Harness == "" || f.Harness == v.Harness) && f.Msg != "" && strings.Contains(v.Msg, f.Msg) && strings.Contains(v.Where, f.Where)
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tierS := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	total := fs.Int("total", 0, "total time budget in seconds")
	fs.Parse(args)
	t0 := time.Now()
	tier := tierNum(*tierS)
	if tier == 0 {
		*tierS = "quick"
	}
	if *total == 0 {
		*total = 560
		if tier == 1 {
			*total = 3000
		}
	}
	end := t0.Add(time.Duration(*total) * time.Second)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	l, err := load()
	if err != nil {
		fmt.Println("ERROR loading the code under test:", err)
		return 2
	}
	n, err := newNative(l.ov)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer n.close()
	findings := loadFindings()
	ev := map[string]any{}
	var samples []any
	var assumptions []string
	var paths, decs, queries, unsat, sat, unk, asserts, proved, replays int64
	var solverT float64
	funcs := map[string]int64{}
	var hrep []any
	complete := true
	var incompleteWhy []string
	violations := 0
	knownHit := map[int]bool{}
	exit := 0
	var sel []*Harness
	for _, h := range l.hs {
		if h.has(*prop) && (h.Tier != "thorough" || tier == 1) && !(h.Tier == "quickonly" && tier == 1) {
			sel = append(sel, h)
		}
	}
	if len(sel) == 0 {
		fmt.Println("ERROR no harness for", *prop)
		return 2
	}
	// the short ones first: what they leave of their share is for the others
	sort.SliceStable(sel, func(i, j int) bool { return sel[i].Budget < sel[j].Budget })
	os.MkdirAll(filepath.Join(verifDir, "evidence", "replays"), 0o755)
	old, _ := filepath.Glob(filepath.Join(verifDir, "evidence", "replays", *prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for i, h := range sel {
		left := time.Until(end)
		share := left / time.Duration(len(sel)-i)
		b := time.Duration(h.Budget) * time.Second
		if h.Budget == 0 {
			b = 100 * time.Second
		}
		if tier == 1 {
			b *= 6
		}
		if b > share && share > 0 {
			b = max(share, 20*time.Second)
		}
		r, err := newRun(l.p, h, tier, b)
		if err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
		r.Explore()
		fmt.Println(r.summary())
		if r.engineErr != "" {
			complete = false
			incompleteWhy = append(incompleteWhy, h.Name+": engine error: "+r.engineErr)
		}
		paths += r.paths
		decs += r.decisions
		queries += int64(r.Stats.Queries)
		unsat += int64(r.Stats.UnsatN)
		sat += int64(r.Stats.SatN)
		unk += int64(r.Stats.UnknownN)
		asserts += r.asserts
		proved += r.proved
		solverT += r.Stats.Time.Seconds()
		for k, c := range r.hits {
			funcs[k] += c
		}
		ok, why := r.complete()
		if !ok {
			complete = false
			for _, w := range why {
				incompleteWhy = append(incompleteWhy, h.Name+": "+w)
			}
		}
		// witnesses of reachability, replayed natively
		var missing, unrepro []string
		for _, c := range h.Covers {
			v, hit := r.coverVals[c]
			if !hit || r.covers[c] == 0 {
				missing = append(missing, c)
				continue
			}
			if h.Opts["sched"] != "" {
				continue
			}
			if len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": h.Name, "reaches": c, "inputs": hexVals(v)})
			}
			f, o := n.run(&ReplayFile{Harness: h.Name, Tier: tier, Vals: v}, false, 20*time.Second)
			replays++
			if f || !strings.Contains(o, "COVER "+c+"\n") {
				unrepro = append(unrepro, c+": "+firstLine(o))
			}
		}
		hr := map[string]any{"harness": h.Name, "bounds": h.Bounds, "paths": r.paths, "path_ends": r.kinds, "assertions_checked": r.asserts, "queries": r.Stats.Queries, "solver_s": r.Stats.Time.Seconds(), "complete_within_bounds": ok, "wall_s": r.wall.Seconds(), "max_decisions": r.maxDecs, "max_steps": r.maxSteps, "symbolic_inputs_max": r.maxVars, "regions_merged": r.mergesN.Load()}
		if len(missing) > 0 {
			hr["not_reached"] = missing
			fmt.Printf("  note: %s did not reach %v\n", h.Name, missing)
		}
		if len(unrepro) > 0 {
			hr["witness_not_reproduced"] = unrepro
			fmt.Printf("  note: %s witnesses not reproduced: %v\n", h.Name, unrepro)
		}
		if len(r.abortMsgs) > 0 {
			hr["cut"] = r.abortMsgs
		}
		hrep = append(hrep, hr)
		// violations
		var ks []string
		for k := range r.viols {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var unconf []string
		for _, k := range ks {
			v := r.viols[k]
			failed, out := replayViolation(n, v, tier)
			replays++
			rf := &ReplayFile{Property: *prop, Harness: v.Harness, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Tier: tier, Vals: v.Vals, Trace: v.Trace, Native: out, Sched: v.Sched}
			if !failed {
				unconf = append(unconf, v.Kind+": "+v.Msg+" at "+v.Where+" -- "+firstLine(out))
				fmt.Printf("  unconfirmed candidate %s: %s at %s: %s\n", v.Kind, v.Msg, v.Where, firstLine(out))
				if strings.HasPrefix(out, "BUILD-ERROR") {
					fmt.Println(out)
				}
				continue
			}
			isKnown := false
			for fi := range findings {
				if findings[fi].match(*prop, v) {
					isKnown = true
					knownHit[fi] = true
				}
			}
			if isKnown {
				continue
			}
			violations++
			path := filepath.Join(verifDir, "evidence", "replays", fmt.Sprintf("%s-%d.json", *prop, violations))
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			fmt.Printf("  %s %s: %s\n  at %s\n  inputs %s\n  real code: %s\n", v.Harness, v.Kind, v.Msg, v.Where, hexVals(v.Vals), firstLine(out))
			exit = 1
			if len(samples) < 20 {
				samples = append(samples, map[string]any{"harness": h.Name, "violation": v.Msg, "inputs": hexVals(v.Vals)})
			}
		}
		if len(unconf) > 0 {
			hr["unconfirmed_candidates"] = unconf
			complete = false
			incompleteWhy = append(incompleteWhy, fmt.Sprintf("%s: %d solver counterexamples did not reproduce on the real code", h.Name, len(unconf)))
		}
	}
	for fi := range findings {
		if findings[fi].Prop == *prop {
			if knownHit[fi] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, findings[fi].Text)
			}
		}
	}
	var fl []string
	for k := range funcs {
		fl = append(fl, k)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states": paths, "transitions": decs, "traces_validated_against_impl": replays,
		"samples":           samples,
		"functions_encoded": fl, "harnesses": hrep,
		"queries": queries, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unk,
		"solver_s": solverT, "solver": "z3 5.3.2 (QF_BV, incremental)",
		"assertions_checked": asserts, "assertions_proved": proved,
		"exhaustive":      complete,
		"states_meaning":  "feasible symbolic paths of the real code explored to their end; each covers all inputs satisfying its path condition",
		"load_encode_s":   l.t.Seconds(),
		"incomplete":      incompleteWhy,
		"vacuity_witness": "samples list solver models that reach the labelled states; each was replayed natively",
	}
	if len(samples) == 0 {
		cov["samples"] = []any{map[string]any{"note": "no labelled witness"}}
	}
	assumptions = append(assumptions,
		"the Go SSA interpreter in /verif/engine represents Go semantics faithfully (checked by native replay of witnesses)",
		"library models: sync, fmt, encoding/binary, bytealg, crc32 (exact), sha256/aes (uninterpreted on symbolic input)",
		"the bounds stated per harness")
	ev["property"] = *prop
	ev["tier"] = *tierS
	ev["seed"] = seed
	ev["level"] = "model_checking"
	ev["coverage"] = cov
	ev["assumptions"] = assumptions
	ev["wall_s"] = time.Since(t0).Seconds()
	ev["violations"] = violations
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", *prop+".json"), b, 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if exit == 0 {
		fmt.Printf("OK property=%s tier=%s paths=%d queries=%d exhaustive-within-bounds=%v wall=%.1fs\n", *prop, *tierS, paths, queries, complete, time.Since(t0).Seconds())
	}
	return exit
}

func hexVals(v []uint64) string {
	var sb strings.Builder
	for i, x := range v {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%x", x)
		if i > 400 {
			sb.WriteString(" ...")
			break
		}
	}
	return sb.String()
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}
