package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type runInfo struct {
	Harness     string           `json:"harness"`
	Bounds      map[string]int   `json:"bounds"`
	Paths       int64            `json:"paths"`
	Transitions int64            `json:"decisions"`
	Obligations int64            `json:"obligations"`
	Proved      int64            `json:"obligations_proved_by_solver"`
	Steps       int64            `json:"ssa_instructions_executed"`
	Outcomes    map[string]int64 `json:"path_outcomes"`
	Exhausted   bool             `json:"all_paths_within_bounds_explored"`
	Reduced     []string         `json:"reduced,omitempty"`
	Unconfirmed []string         `json:"candidates_not_confirmed,omitempty"`
	Reached     map[string]int64 `json:"witness_labels_reached"`
	MaxInputs   int              `json:"max_symbolic_inputs"`
	Traces      int              `json:"traces_validated"`
	Seconds     float64          `json:"seconds"`
}

type replayFile struct {
	Property string    `json:"property"`
	Kind     string    `json:"kind"`
	Message  string    `json:"message"`
	Where    string    `json:"where"`
	Main     bool      `json:"main"`
	Case     repCase   `json:"case"`
	Result   repResult `json:"result"`
	HowTo    string    `json:"how_to"`
}

type checker struct {
	verif, repo string
	prop, tier  string
	seed        int
	start       time.Time
	budget      time.Duration
	scratch     string
	reps        map[bool]*replayer
	engines     map[bool]*Engine

	runs       []*runInfo
	violations []string
	problems   []string
	samples    []map[string]interface{}
	stats      SolverStats
	funcs      map[string]bool
	cvc5n      int // queries a second solver answered
	cvc5err    string
}

func fatalf(code int, f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

func (c *checker) engine(isMain bool) (*Engine, error) {
	if e := c.engines[isMain]; e != nil {
		return e, nil
	}
	sub := ""
	if isMain {
		sub = "main"
	}
	ov, err := symOverlay(c.repo, filepath.Join(c.verif, "harness"), sub)
	if err != nil {
		return nil, err
	}
	e, err := loadEngine(c.repo, sub, ov, false)
	if err != nil {
		return nil, err
	}
	c.engines[isMain] = e
	return e, nil
}

func (c *checker) rep(isMain bool) *replayer {
	if c.reps[isMain] == nil {
		c.reps[isMain] = newReplayer(c.repo, c.verif, isMain, filepath.Join(c.scratch, fmt.Sprint("n", isMain)))
	}
	return c.reps[isMain]
}

// runHarness explores one harness within one set of bounds; it reports whether a violation was
// confirmed.
func (c *checker) runHarness(d *harnessDecl, params map[string]int, warm bool, deadline time.Time) bool {
	info := &runInfo{Harness: d.Name, Bounds: params, Outcomes: map[string]int64{}, Reached: map[string]int64{}}
	c.runs = append(c.runs, info)
	t0 := time.Now()
	defer func() { info.Seconds = round(time.Since(t0).Seconds()) }()
	e, err := c.engine(d.Main)
	if err != nil {
		info.Reduced = append(info.Reduced, "the code could not be loaded: "+err.Error())
		c.problems = append(c.problems, d.Name+": "+err.Error())
		return false
	}
	fn := e.target.Func(d.Name)
	if fn == nil {
		info.Reduced = append(info.Reduced, "harness not found")
		c.problems = append(c.problems, d.Name+": not found")
		return false
	}
	h := &Harness{name: d.Name, fn: e.compileFunc(fn), maxDecisions: 6000, preempt: params["preempt"], maxSteps: 3000000, params: params}
	if d.Steps > 0 {
		h.maxSteps = d.Steps
	}
	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	ex, err := newExplorer(e, h, nw, deadline)
	if err != nil {
		info.Reduced = append(info.Reduced, err.Error())
		c.problems = append(c.problems, err.Error())
		return false
	}
	if c.tier == "thorough" {
		for _, w := range ex.workers {
			w.solver.decl = &strings.Builder{}
		}
	}
	// candidates are replayed while the exploration goes on
	queue := make(chan *candidate, 4096)
	var confirmed bool
	var unconf []string
	var cwg sync.WaitGroup
	cwg.Add(1)
	go func() {
		defer cwg.Done()
		perKind := map[string]int{}
		for cand := range queue {
			if confirmed || perKind[cand.kind] >= 25 || time.Now().After(deadline.Add(60*time.Second)) {
				continue
			}
			perKind[cand.kind]++
			ok, rc, rr, err := c.rep(d.Main).confirm(cand)
			if err != nil {
				unconf = append(unconf, cand.kind+": "+cand.msg+": "+err.Error())
				continue
			}
			if !ok {
				js, _ := json.Marshal(rr)
				unconf = append(unconf, cand.kind+": "+cand.msg+" at "+cand.where+" "+string(js))
				if os.Getenv("SYMEX_DEBUG") != "" {
					cj, _ := json.Marshal(rc)
					fmt.Fprintln(errw, "UNCONFIRMED", cand.kind, cand.msg, cand.where, string(cj), string(js))
				}
				continue
			}
			confirmed = true
			c.report(d, cand.kind, cand.msg, cand.where, rc, rr)
			atomic.StoreInt32(&ex.stop, 1)
		}
	}()
	ex.onCand = func(cd *candidate) {
		select {
		case queue <- cd:
		default:
		}
	}
	ex.run()
	close(queue)
	cwg.Wait()

	info.Paths = ex.paths
	for _, w := range ex.workers {
		info.Transitions += w.transitions
		info.Obligations += w.obligations
		info.Proved += w.proved
		info.Steps += w.steps
		c.stats.add(w.solver.stats)
		for f := range w.funcs {
			c.funcs[f.name] = true
		}
	}
	info.Outcomes = ex.aborts
	info.Reached = ex.reach
	info.MaxInputs = ex.inputsMx
	for k := range ex.reduced {
		info.Reduced = append(info.Reduced, k)
	}
	sort.Strings(info.Reduced)
	for _, s := range ex.errors {
		c.problems = append(c.problems, d.Name+": internal error: "+firstLines(s, 12))
	}
	info.Unconfirmed = unconf
	for _, u := range unconf {
		c.problems = append(c.problems, d.Name+": candidate not confirmed by replay: "+u)
	}
	info.Exhausted = len(info.Reduced) == 0 && len(unconf) == 0 && !confirmed
	if confirmed {
		return true
	}
	if warm {
		return false
	}
	// vacuity guard
	if info.Exhausted {
		for _, l := range d.Reach {
			if ex.reach[l] == 0 {
				c.problems = append(c.problems, d.Name+": never reached "+l)
				info.Reduced = append(info.Reduced, "witness "+l+" not reached")
				info.Exhausted = false
			}
		}
	}
	if c.tier == "thorough" {
		for _, w := range ex.workers {
			c.crossCheck(d.Name, w.solver)
		}
	}
	// trace validation
	if c.validate(d, h, ex, info) {
		return true
	}
	return false
}

func (c *checker) validate(d *harnessDecl, h *Harness, ex *Explorer, info *runInfo) bool {
	if len(ex.samples) == 0 {
		return false
	}
	var plain, sched []repCase
	var ip, is []int
	for i, s := range ex.samples {
		rc := toCase(h, s.inputs)
		hasS := false
		for _, in := range s.inputs {
			if in.kind == "sched" {
				hasS = true
			}
		}
		if hasS {
			rc.Sched = true
			sched = append(sched, rc)
			is = append(is, i)
		} else {
			plain = append(plain, rc)
			ip = append(ip, i)
		}
	}
	for k, set := range [][]repCase{plain, sched} {
		if len(set) == 0 {
			continue
		}
		idx := ip
		if k == 1 {
			idx = is
		}
		res, err := c.rep(d.Main).run(set, false, k == 1, 5*time.Second)
		if err != nil {
			c.problems = append(c.problems, d.Name+": "+err.Error())
			info.Reduced = append(info.Reduced, "sampled paths could not be replayed natively")
			return false
		}
		for j, rr := range res {
			s := ex.samples[idx[j]]
			if rr.missing {
				continue
			}
			if rr.Mismatch == "" && !rr.Assume && (len(rr.Failed) > 0 || rr.Panic != "" || rr.Hang || rr.Deadlock || len(rr.Frozen) > 0) {
				kind, msg := "assert", strings.Join(rr.Failed, "; ")
				if msg == "" {
					kind, msg = "panic", rr.Panic
				}
				if rr.Hang {
					kind, msg = "hang", "evaluation does not end"
				}
				c.report(d, kind, msg, "native replay of an explored path", set[j], rr)
				return true
			}
			if rr.Mismatch != "" || rr.Assume || strings.Join(rr.Obs, "\n") != strings.Join(s.obs, "\n") || strings.Join(rr.Reach, " ") != strings.Join(s.reach, " ") {
				c.problems = append(c.problems, fmt.Sprintf("%s: native run differs from the explored path: %s assume=%v\n native %v %v\n symbolic %v %v", d.Name, rr.Mismatch, rr.Assume, rr.Obs, rr.Reach, s.obs, s.reach))
				info.Reduced = append(info.Reduced, "encoding disagrees with the real code on a sampled path")
				info.Exhausted = false
				continue
			}
			info.Traces++
			if len(c.samples) < 6 && (j == len(res)-1 || j == 0) {
				c.samples = append(c.samples, map[string]interface{}{"harness": d.Name, "inputs": describeInputs(s.inputs), "observed": s.obs, "reached": s.reach})
			}
		}
	}
	return false
}

func describeInputs(in []inputRec) string {
	var b strings.Builder
	for i, r := range in {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 60 {
			b.WriteString("...")
			break
		}
		if r.kind == "rune" {
			b.WriteString(strconv.QuoteRuneToASCII(rune(r.val)))
		} else {
			fmt.Fprintf(&b, "%s:%d", r.kind, r.val)
		}
	}
	return b.String()
}

func (c *checker) report(d *harnessDecl, kind, msg, where string, rc repCase, rr repResult) {
	dir := filepath.Join(c.verif, "out")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.prop, d.Name, len(c.violations)))
	rf := replayFile{Property: c.prop, Kind: kind, Message: msg, Where: where, Main: d.Main, Case: rc, Result: rr,
		HowTo: "cd /verif && ./check.sh replay " + p}
	js, _ := json.MarshalIndent(rf, "", " ")
	ioutil.WriteFile(p, append(js, '\n'), 0644)
	c.violations = append(c.violations, fmt.Sprintf("%s: %s: %s", d.Name, kind, msg))
	fmt.Printf("counterexample in %s: %s: %s\n  inputs: %s\n", d.Name, kind, msg, describeCase(rc))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
}

func describeCase(rc repCase) string {
	var in []inputRec
	for _, i := range rc.Inputs {
		in = append(in, inputRec{kind: i.Kind, val: i.Val})
	}
	return describeInputs(in)
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func runCheck(prop, tier string, budget time.Duration, only string) int {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	c := &checker{verif: verif, repo: repo, prop: prop, tier: tier, start: time.Now(), budget: budget,
		reps: map[bool]*replayer{}, engines: map[bool]*Engine{}, funcs: map[string]bool{}}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	var err error
	c.scratch, err = ioutil.TempDir("", "verif_"+prop+"_")
	if err != nil {
		fatalf(2, "no scratch directory: %v", err)
	}
	defer os.RemoveAll(c.scratch)
	all, err := loadHarnesses(filepath.Join(verif, "harness"))
	if err != nil {
		fatalf(2, "%v", err)
	}
	var ds []*harnessDecl
	for _, d := range all {
		if d.Prop == prop && (only == "" || strings.Contains(d.Name, only)) {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		fatalf(2, "no harness for property %s", prop)
	}
	known := c.knownFindings()
	// rounds of increasing bounds: all harnesses with their first bounds, then the next ones
	type job struct {
		d    *harnessDecl
		p    map[string]int
		w    float64
		warm bool
	}
	var jobs []job
	if tier == "quick" {
		// first of all everything with slightly smaller bounds, which takes little time
		for _, d := range ds {
			if len(d.Quick) == 0 {
				continue
			}
			if n := d.Quick[0]["n"]; n >= 3 && n <= 6 {
				p := map[string]int{}
				for k, v := range d.Quick[0] {
					p[k] = v
				}
				p["n"] = n - 1
				jobs = append(jobs, job{d, p, d.Weight * 0.3, true})
			}
		}
	}
	for r := 0; ; r++ {
		n := 0
		for _, d := range ds {
			ps := d.Quick
			if tier == "thorough" {
				ps = d.Thorough
			}
			if r < len(ps) {
				jobs = append(jobs, job{d, ps[r], d.Weight, false})
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	left := 0.0
	for _, j := range jobs {
		left += j.w
	}
	end := c.start.Add(budget)
	for _, j := range jobs {
		share := time.Until(end).Seconds() * j.w / left
		left -= j.w
		if share < 2 {
			share = 2
		}
		if c.runHarness(j.d, j.p, j.warm, time.Now().Add(time.Duration(share*float64(time.Second)))) {
			break
		}
		r := c.runs[len(c.runs)-1]
		st := "all paths explored"
		if !r.Exhausted {
			st = "reduced: " + strings.Join(r.Reduced, "; ")
		}
		fmt.Printf("%-28s %v: %d paths, %d decisions, %d obligations, %d traces replayed, %.1fs, %s\n", r.Harness, fmtBounds(r.Bounds), r.Paths, r.Transitions, r.Obligations, r.Traces, r.Seconds, st)
	}
	for _, p := range c.problems {
		fmt.Println("inconclusive:", p)
	}
	if err := c.writeEvidence(ds, known); err != nil {
		fatalf(2, "evidence: %v", err)
	}
	if len(c.violations) > 0 {
		return 1
	}
	fmt.Printf("property %s holds on everything explored (%s)\n", prop, tier)
	return 0
}

func fmtBounds(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%d", k, m[k])
	}
	return strings.Join(ks, " ")
}

type knownFinding struct {
	Property string  `json:"property"`
	What     string  `json:"what"`
	Main     bool    `json:"main"`
	Case     repCase `json:"case"`
	Status   string  `json:"status"` // "known" or "fixed: ..."
}

// knownFindings replays the recorded findings of the property; they are reported as such while
// they last. The harnesses exclude exactly the recorded behaviours by assumption.
func (c *checker) knownFindings() []string {
	b, err := ioutil.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var ks []knownFinding
	if err := json.Unmarshal(b, &ks); err != nil {
		c.problems = append(c.problems, "known_findings.json: "+err.Error())
		return nil
	}
	var out []string
	for _, k := range ks {
		if k.Property != c.prop || k.Status != "known" {
			continue
		}
		res, err := c.rep(k.Main).run([]repCase{k.Case}, false, false, 5*time.Second)
		if err != nil || len(res) == 0 {
			continue
		}
		r := res[0]
		if len(r.Failed) > 0 || r.Panic != "" || r.Hang {
			s := fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.prop, k.What)
			fmt.Println(s)
			out = append(out, s)
		}
	}
	return out
}

func (c *checker) writeEvidence(ds []*harnessDecl, known []string) error {
	var paths, trans, obl, proved, steps int64
	traces := 0
	exh := true
	var bounds []string
	reached := map[string]int64{}
	for _, r := range c.runs {
		paths += r.Paths
		trans += r.Transitions
		obl += r.Obligations
		proved += r.Proved
		steps += r.Steps
		traces += r.Traces
		if !r.Exhausted {
			exh = false
		}
		bounds = append(bounds, r.Harness+": "+fmtBounds(r.Bounds))
		for k, v := range r.Reached {
			reached[k] += v
		}
	}
	var fns []string
	for f := range c.funcs {
		if strings.HasPrefix(f, modPath) || strings.HasPrefix(f, "("+modPath) || strings.HasPrefix(f, "(*"+modPath) || strings.HasPrefix(f, "main.") {
			if strings.Contains(f, "init#") || strings.Contains(f, ".vm") {
				continue
			}
			fns = append(fns, strings.Replace(f, modPath, "xbnf", -1))
		}
	}
	sort.Strings(fns)
	assume := []string{
		"texts and definitions are sequences of Unicode scalar values (surrogates and the end-of-text marker -1 cannot occur in a Go string read as runes, other than U+FFFD)",
		"package-level state of the Go standard library is modelled: fmt, strings, strconv, unicode, sort, sync, flag functions run either as their real Go code, on concrete values natively, or as symbolic models validated by replaying sampled paths",
		"outside the stated bounds nothing is claimed",
	}
	for _, d := range ds {
		for _, n := range d.Notes {
			assume = append(assume, d.Name+": "+n)
		}
	}
	if c.samples == nil {
		c.samples = []map[string]interface{}{}
	}
	cov := map[string]interface{}{
		"states":                        paths,
		"transitions":                   trans,
		"traces_validated_against_impl": traces,
		"samples":                       c.samples,
		"exhaustive":                    exh,
		"obligations":                   obl,
		"discharged":                    obl - int64(len(c.violations)),
		"obligations_needing_solver":    proved,
		"ssa_instructions_executed":     steps,
		"functions_encoded":             fns,
		"bounds":                        bounds,
		"solver":                        map[string]interface{}{"program": solverProg, "queries": c.stats.Queries, "cache_hits": c.stats.CacheHits, "sat": c.stats.Sat, "unsat": c.stats.Unsat, "unknown": c.stats.Unknown, "seconds_summed_over_workers": round(c.stats.Time.Seconds())},
		"witness_labels_reached":        reached,
		"runs":                          c.runs,
		"inconclusive":                  c.problems,
		"known_findings_seen":           known,
		"explanation":                   "states = execution paths of the harness over the real code, each standing for all inputs satisfying its path condition; transitions = branch and choice decisions; an obligation is an assertion decided by the solver for all inputs of its path; traces = solver models of explored paths replayed against the natively compiled code with identical observations",
	}
	if c.cvc5n > 0 {
		cov["second_solver"] = fmt.Sprintf("cvc5 gave the same answers to %d of the queries", c.cvc5n)
	} else if c.cvc5err != "" {
		cov["second_solver"] = "cvc5 not available: " + c.cvc5err
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"assumptions": assume, "wall_s": round(time.Since(c.start).Seconds()), "violations": len(c.violations),
	}
	dir := filepath.Join(c.verif, "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return ioutil.WriteFile(filepath.Join(dir, c.prop+".json"), append(js, '\n'), 0644)
}

// crossCheck asks a second solver the logged queries and compares the answers.
func (c *checker) crossCheck(name string, s *Solver) {
	if s.decl == nil || len(s.logExp) == 0 {
		return
	}
	cmd := exec.Command("cvc5", "--incremental", "--lang=smt2", "--tlimit-per=20000")
	cmd.Stdin = strings.NewReader("(set-logic QF_BV)\n" + s.decl.String())
	done := time.AfterFunc(20*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	out, err := cmd.Output()
	done.Stop()
	ans := strings.Fields(string(out))
	n := 0
	for i, a := range ans {
		if i >= len(s.logExp) || (a != "sat" && a != "unsat") || s.logExp[i] == resUnknown {
			continue
		}
		n++
		if (a == "sat") != (s.logExp[i] == resSat) {
			c.problems = append(c.problems, fmt.Sprintf("%s: z3 and cvc5 disagree on a query (%d)", name, i))
		}
	}
	if n == 0 && err != nil {
		c.cvc5err = err.Error()
		return
	}
	c.cvc5n += n
}

func runReplay(path string) int {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		fatalf(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatalf(2, "%v", err)
	}
	verif, repo := "/verif", "/repo"
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	scratch, err := ioutil.TempDir("", "verif_replay_")
	if err != nil {
		fatalf(2, "%v", err)
	}
	defer os.RemoveAll(scratch)
	r := newReplayer(repo, verif, rf.Main, scratch)
	res, err := r.run([]repCase{rf.Case}, rf.Kind == "race", rf.Case.Sched, 6*time.Second)
	if err != nil {
		fatalf(2, "%v", err)
	}
	js, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Println(string(js))
	x := res[0]
	if len(x.Failed) > 0 || x.Panic != "" || x.Hang || x.Deadlock || len(x.Frozen) > 0 || x.Race != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	return 0
}
