package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsym check PROP [flags] | vsym replay FILE")
		os.Exit(2)
	}
	if d := os.Getenv("VSYM_VERIF"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VSYM_REPO"); d != "" {
		repoDir = d
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	}
	os.Exit(2)
}

type known struct {
	prop, harness, outcome, desc string
}

// known_findings.txt: lines
//
//	known: property=<id> harness=<name> outcome="<text>" <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown() []known {
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) outcome="([^"]*)" (.*)$`)
	var r []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			r = append(r, known{m[1], m[2], m[3], m[4]})
		}
	}
	return r
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Doc      string   `json:"doc"`
	Package  string   `json:"package"`
	Names    []string `json:"names"`
	Kinds    []string `json:"kinds"`
	Values   []string `json:"values"`
	Outcome  string   `json:"outcome"`
	Claim    string   `json:"claim"`
	Command  string   `json:"command"`
}

func replayCmd(args []string) int {
	b, err := os.ReadFile(args[0])
	must(err)
	var rf replayFile
	must(json.Unmarshal(b, &rf))
	tmp, err := os.MkdirTemp("", "vsym")
	must(err)
	defer os.RemoveAll(tmp)
	p, err := buildOverlay(repoDir, verifDir, rf.Property, tmp)
	must(err)
	must(p.load(rf.Property))
	n := startNative(p, p.harnesses)
	r := n.runAll([]nreq{{H: rf.Harness, Vals: rf.Values}}, time.Minute)
	fmt.Println(r[0].Outcome)
	if r[0].Outcome == "ok" || r[0].Outcome == "assume" {
		return 0
	}
	return 1
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := fs.String("only", "", "regexp of harness names")
	budget := fs.Float64("budget", 0, "seconds of exploration")
	workers := fs.Int("j", 8, "workers")
	prop := args[0]
	fs.Parse(args[1:])
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vsym")
	must(err)
	defer os.RemoveAll(tmp)
	p, err := buildOverlay(repoDir, verifDir, prop, tmp)
	if err == nil {
		err = p.load(prop)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	var hs []*Harness
	for _, h := range p.harnesses {
		if h.tier == "thorough" && *tier != "thorough" {
			continue
		}
		if h.tier == "quick" && *tier != "quick" {
			continue
		}
		if *only != "" && !regexp.MustCompile(*only).MatchString(h.name) {
			continue
		}
		hs = append(hs, h)
	}
	loadS := time.Since(start).Seconds()
	nat := startNative(p, hs)
	ex := newExplorer(p)
	b := 420.0
	if *tier == "thorough" {
		b = 3000
		ex.timeoutMs = 120000
		ex.nSamples = 24
	}
	if *budget > 0 {
		b = *budget
	}
	ex.deadline = time.Now().Add(time.Duration(b * float64(time.Second)))
	if f := os.Getenv("VSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	ex.run(hs, *workers)
	exploreS := time.Since(start).Seconds() - loadS
	<-nat.done
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, "error:", nat.err)
		return 2
	}

	// ---- replay of candidate failures
	knowns := loadKnown()
	violations := 0
	knownSeen := map[string]bool{}
	inconclusive := map[string]int{}
	corners := repoCorners(ex)
	replayed := 0
	reported := map[string]bool{}
	searchBudget := 60.0
	rdir := filepath.Join(verifDir, "evidence", "replay")
	report := func(h *Harness, f Failure, vals []string, outcome string) {
		for _, k := range knowns {
			if k.prop == prop && k.harness == h.name && k.outcome == outcome {
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.desc)
				if !knownSeen[line] {
					fmt.Println(line)
					knownSeen[line] = true
				}
				return
			}
		}
		key := h.name + "|" + outcome
		if len(key) > 80 {
			key = key[:80]
		}
		if reported[key] {
			return
		}
		reported[key] = true
		violations++
		os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, violations))
		rf := replayFile{Property: prop, Harness: h.name, Doc: h.doc, Package: h.pkg, Names: f.names, Kinds: f.kinds, Values: vals, Outcome: outcome, Claim: f.msg,
			Command: "bin/vsym replay " + rp}
		bb, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(rp, bb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		fmt.Printf("  harness %s: %s\n  inputs %s\n", h.name, outcome, inputLine(f.names, vals))
	}
	for _, h := range ex.harnessList() {
		st := ex.stats[h]
		if len(st.Fails) == 0 {
			continue
		}
		var reqs []nreq
		var idx []int
		for i, f := range st.Fails {
			if f.inputs != nil {
				reqs = append(reqs, nreq{H: h.name, Vals: bigStrs(f.inputs)})
				idx = append(idx, i)
			}
		}
		confirmed := false
		var rs []nresp
		if len(reqs) > 0 {
			rs = nat.runAll(reqs, 120*time.Second)
			replayed += len(rs)
		}
		for k, r := range rs {
			f := st.Fails[idx[k]]
			if r.Outcome == "ok" || r.Outcome == "assume" || strings.HasPrefix(r.Outcome, "no such") {
				continue
			}
			confirmed = true
			report(h, f, reqs[k].Vals, r.Outcome)
		}
		if !confirmed {
			// the solver could not prove the claim but its (relaxed) model does not
			// fail in the real code: look for a concrete witness around it
			lim := 4
			if h.mode == "fld" {
				lim = 12
			}
			for k := 0; k < len(st.Fails) && k < lim && searchBudget > 0; k++ {
				f := st.Fails[k]
				rq := nreq{H: h.name, Vals: bigStrs(f.inputs), Search: 8, Seed: seed + int64(k), Corners: corners}
				if h.mode == "fld" {
					rq.Search, rq.Vals = 1, nil
					if k%4 != 3 {
						rq.Named = f.named
					}
				}
				r := nat.runAll([]nreq{rq}, 90*time.Second)[0]
				searchBudget -= rq.Search
				if r.Outcome != "ok" && r.Outcome != "assume" && r.Outcome != "" {
					confirmed = true
					report(h, f, r.Drawn, r.Outcome)
					break
				}
			}
		}
		if !confirmed {
			for _, f := range st.Fails {
				inconclusive[h.name+": not proved and not refuted: "+f.msg]++
			}
		}
	}

	// ---- validation of the engine against the compiled code on sampled inputs
	validated, mismatch := 0, 0
	var vreqs []nreq
	type vref struct {
		h    *Harness
		vals []*big.Int
	}
	var vrefs []vref
	for _, h := range ex.harnessList() {
		for i, s := range ex.stats[h].samples {
			if i >= ex.nSamples {
				break
			}
			rq := nreq{H: h.name, Vals: bigStrs(s.inputs)}
			if h.mode == "fld" {
				rq.Search, rq.Named, rq.Vals, rq.Seed = 0.1, s.named, nil, seed+int64(i)
			}
			vreqs = append(vreqs, rq)
			vrefs = append(vrefs, vref{h, s.inputs})
		}
	}
	if len(vreqs) > 0 {
		rs := nat.runAll(vreqs, 300*time.Second)
		ips := map[bool]*Interp{}
		for k, r := range rs {
			h := vrefs[k].h
			if h.mode == "fld" {
				validated += r.OK
				if r.Outcome != "ok" && r.Outcome != "assume" {
					report(h, Failure{msg: "sampled input", names: ex.stats[h].samples[0].names}, r.Drawn, r.Outcome)
				}
				continue
			}
			in := ips[false]
			if in == nil {
				in = newInterp(p, false)
				if err := in.initAll(hs); err != nil {
					break
				}
				in.trailOn = true
				ips[false] = in
			}
			oc, obs := concreteRun(in, ex, h, vrefs[k].vals)
			if strings.HasPrefix(oc, "panic:") && strings.HasPrefix(r.Outcome, "panic:") {
				oc = r.Outcome
			}
			if oc == r.Outcome && strings.Join(obs, "\n") == strings.Join(r.Obs, "\n") {
				validated++
			} else {
				mismatch++
				inconclusive[fmt.Sprintf("%s: engine/native mismatch: engine %q native %q inputs %v", h.name, clip(oc+" "+strings.Join(obs, "; ")), clip(r.Outcome+" "+strings.Join(r.Obs, "; ")), clip(strings.Join(vreqs[k].Vals, ",")))]++
			}
			if r.Outcome != "ok" && r.Outcome != "assume" {
				// the compiled code breaks the property on a sampled input
				report(h, Failure{msg: "sampled input", names: ex.stats[h].samples[0].names}, vreqs[k].Vals, r.Outcome)
			}
		}
	}

	// ---- evidence
	cov := map[string]any{}
	states, trans, obl, proved, byEval, queries, domq := 0, 0, 0, 0, 0, 0, 0
	var st time.Duration
	perH := []map[string]any{}
	complete := true
	var samples []any
	for _, h := range ex.harnessList() {
		s := ex.stats[h]
		states += s.Paths
		trans += s.Branches
		obl += s.Obligations
		proved += s.Proved
		byEval += s.ByEval
		queries += s.Queries
		domq += s.DomainQ
		st += s.SolverTime
		full := s.pending == 0 && len(s.Aborted) == 0
		if !full {
			complete = false
		}
		if s.pending > 0 {
			s.Aborted["time budget: unexplored prefixes"] = s.pending
		}
		m := map[string]any{"harness": h.name, "claim": h.doc, "mode": h.mode, "paths": s.Paths, "infeasible_paths": s.Infeasible, "branches": s.Branches,
			"assertions": s.Obligations, "assertions_proved": s.Proved, "solver_queries": s.Queries, "solver_s": round(s.SolverTime.Seconds()), "complete": full}
		if len(s.Aborted) > 0 {
			m["not_covered"] = s.Aborted
		}
		if len(s.Reach) > 0 {
			m["reached"] = s.Reach
		}
		if b, ok := h.opts["bound"]; ok {
			m["bound"] = b
		}
		perH = append(perH, m)
		for i, x := range s.samples {
			if i < 2 && len(samples) < 40 {
				samples = append(samples, map[string]any{"harness": h.name, "inputs": inputLine(x.names, bigStrs(x.inputs))})
			}
		}
		for k, n := range s.Aborted {
			inconclusive[h.name+": "+k] += n
		}
		if r, ok := h.opts["reach"]; ok && full && len(s.Fails) == 0 {
			for _, l := range strings.Split(r, ",") {
				if s.Reach[l] == 0 {
					inconclusive[h.name+": vacuous: "+l+" not reached"]++
				}
			}
		}
		if full && s.Paths == 0 && len(s.Fails) == 0 {
			inconclusive[h.name+": vacuous: no feasible path"]++
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path model was requested")
	}
	var fns []string
	for f := range ex.funcs {
		fns = append(fns, strings.ReplaceAll(f, repoModule+"/", ""))
	}
	sort.Strings(fns)
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["obligations"] = obl
	cov["discharged"] = proved
	cov["discharged_by_constant_folding"] = byEval
	cov["solver_queries"] = queries
	cov["finite_domain_queries"] = domq
	cov["solver_time_s"] = round(st.Seconds())
	cov["solver"] = filepath.Base(solverBin)
	cov["functions_encoded"] = fns
	cov["harnesses"] = perH
	cov["exhaustive"] = complete
	cov["counterexamples_replayed"] = replayed
	var inc []string
	for k, n := range inconclusive {
		inc = append(inc, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(inc)
	if len(inc) > 0 {
		cov["not_decided"] = inc
	}
	if len(p.dropped) > 0 {
		cov["harness_files_not_applicable_to_this_tree"] = p.dropped
	}
	ev := map[string]any{"property": prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptionsFor(prop), "wall_s": round(time.Since(start).Seconds()), "violations": violations}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if *only == "" {
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		must(os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), eb, 0o644))
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d branches, %d/%d assertions proved, %d queries, solver %.1fs, %d traces validated, load %.1fs explore %.1fs wall %.1fs, violations %d\n",
		prop, *tier, len(hs), states, trans, proved, obl, queries, st.Seconds(), validated, loadS, exploreS, time.Since(start).Seconds(), violations)
	for _, s := range inc {
		fmt.Println("  NOT-DECIDED:", clip(s))
	}
	if os.Getenv("VSYM_STATS") != "" {
		for _, h := range ex.harnessList() {
			s := ex.stats[h]
			fmt.Printf("   %-40s paths=%d infeas=%d br=%d obl=%d/%d q=%d solver=%.1fs span=%.1fs\n", h.name, s.Paths, s.Infeasible, s.Branches, s.Proved, s.Obligations, s.Queries, s.SolverTime.Seconds(), s.lastAt.Sub(s.firstAt).Seconds())
		}
	}
	if violations > 0 {
		return 1
	}
	return 0
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func inputLine(names, vals []string) string {
	var sb strings.Builder
	for i, v := range vals {
		n := "?"
		if i < len(names) {
			n = names[i]
		}
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "%s=%s", n, v)
	}
	return clip(sb.String())
}

func repoCorners(ex *Explorer) []string {
	q, _ := new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)
	p := func(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }
	p253, _ := new(big.Int).SetString("13108968793781547619861935127046491459309155893440570251786403306729687672801", 10)
	var r []*big.Int
	two := big.NewInt(2)
	for _, x := range []*big.Int{big.NewInt(0), q, new(big.Int).Mul(two, q), new(big.Int).Sub(p(256), q), new(big.Int).Sub(p(256), new(big.Int).Mul(two, q)), p(256), p(255), p(64), p(128), p(192), new(big.Int).Rsh(q, 1),
		p253, new(big.Int).Mul(two, p253), new(big.Int).Rsh(p253, 1), p(127), p(126)} {
		r = append(r, x, new(big.Int).Neg(x))
	}
	return bigStrs(r)
}

func assumptionsFor(prop string) []string {
	r := []string{
		"the symbolic engine in /verif/engine and z3 are trusted; the engine is cross-checked against the compiled code on the sampled paths of every run",
		"harnesses bound the sizes stated in their claims; inputs outside them are not covered",
		"go/ssa (x/tools v0.52.0) is trusted to represent the source; standard-library functions listed in DESIGN.md are modelled rather than interpreted",
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", prop, "ASSUMPTIONS"))
	if err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if l != "" {
				r = append(r, l)
			}
		}
	}
	return r
}
