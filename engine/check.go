package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Known is one entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"` // "finding" or "fixed"
	Harness  string `json:"harness,omitempty"`
	Match    string `json:"match,omitempty"` // regexp over the violation message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Thorough bool     `json:"thorough"`
	Msg      string   `json:"msg"`
	Where    string   `json:"where"`
	Stack    []string `json:"stack,omitempty"`
	Values   []uint64 `json:"values"`
	Kinds    []string `json:"kinds"`
	Obs      []string `json:"obs,omitempty"`
	Output   string   `json:"native_output,omitempty"`
	Cmd      string   `json:"cmd,omitempty"`
}

var hFunc = regexp.MustCompile(`(?m)^func (H_[A-Za-z0-9_]+)\(\)`)

// buildOverlay lists the harness files of a property and where they go.
func buildOverlay(verif, repo, prop, work string) (*Overlay, bool, []string, error) {
	ov := &Overlay{files: map[string]string{}}
	hd := filepath.Join(verif, "harness")
	add := func(dst, src string) { ov.files[filepath.Join(repo, dst)] = src }
	add("zzverif/sym/sym.go", filepath.Join(hd, "root/sym/sym.go"))
	models, _ := filepath.Glob(filepath.Join(hd, "root/models/*.go"))
	for _, f := range models {
		add("zzverif/models/"+filepath.Base(f), f)
	}
	var side, base, pkg string
	switch {
	case len(globs(hd, "root/h/"+prop+"*.go")) > 0:
		side, base, pkg = "root", "zzverif", "github.com/youthlin/t/zzverif"
	case len(globs(hd, "xt/h/"+prop+"*.go")) > 0:
		side, base, pkg = "xt", "cmd/xtemplate/internal/zzverif", "github.com/youthlin/t/cmd/xtemplate/internal/zzverif"
	default:
		return nil, false, nil, fmt.Errorf("no harness for %s", prop)
	}
	files := append(globs(hd, side+"/h/common*.go"), globs(hd, side+"/h/"+prop+"*.go")...)
	var names []string
	race := false
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, false, nil, err
		}
		add(base+"/h/"+filepath.Base(f), f)
		for _, mm := range hFunc.FindAllSubmatch(b, -1) {
			names = append(names, string(mm[1]))
		}
		if bytes.Contains(b, []byte("//gosym:race")) {
			race = true
		}
	}
	var g strings.Builder
	g.WriteString("package h\n\n// All lists the harnesses.\nvar All = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&g, "\t%q: %s,\n", n, n)
	}
	g.WriteString("}\n")
	rf := filepath.Join(work, "registry.go")
	if err := os.WriteFile(rf, []byte(g.String()), 0o644); err != nil {
		return nil, false, nil, err
	}
	add(base+"/h/zz_registry.go", rf)
	mb, err := os.ReadFile(filepath.Join(hd, "root/replay/main.go"))
	if err != nil {
		return nil, false, nil, err
	}
	mb = bytes.ReplaceAll(mb, []byte(`"github.com/youthlin/t/zzverif/h"`), []byte(strconv.Quote(pkg+"/h")))
	mf := filepath.Join(work, "replay_main.go")
	if err := os.WriteFile(mf, mb, 0o644); err != nil {
		return nil, false, nil, err
	}
	add(base+"/replay/main.go", mf)
	ov.hPkg = pkg + "/h"
	ov.replay = pkg + "/replay"
	ov.names = names
	return ov, race, []string{pkg + "/h", "github.com/youthlin/t/zzverif/models"}, nil
}

func globs(dir, pat string) []string {
	r, _ := filepath.Glob(filepath.Join(dir, pat))
	sort.Strings(r)
	return r
}

type checker struct {
	prop, tier, verif, repo, work string
	seed                          int
	thorough                      bool
	replayBin                     string
	race                          bool
	buildErr                      error
	buildDone                     chan struct{}
}

func (c *checker) buildReplay(ov *Overlay) {
	defer close(c.buildDone)
	j := map[string]map[string]string{"Replace": ov.files}
	b, _ := json.Marshal(j)
	of := filepath.Join(c.work, "overlay.json")
	os.WriteFile(of, b, 0o644)
	args := []string{"build", "-overlay", of, "-o", c.replayBin}
	if c.race {
		args = append(args, "-race")
	}
	args = append(args, ov.replay)
	cmd := exec.Command("go", args...)
	cmd.Dir = c.repo
	cmd.Env = goEnv(c.verif)
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.buildErr = fmt.Errorf("building the native replay: %v: %s", err, out)
	}
}

// native runs the replay binary on the given inputs.
func (c *checker) native(rf replayFile, tmo time.Duration) (string, string) {
	f, err := os.CreateTemp(c.work, "run*.json")
	if err != nil {
		return "", "error"
	}
	b, _ := json.Marshal(rf)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	sh := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 12000000; exec \"$0\" \"$1\"", c.replayBin, f.Name())
	if c.race {
		sh = exec.CommandContext(ctx, c.replayBin, f.Name())
	}
	sh.Env = []string{"LANG=C.UTF-8", "HOME=/nonexistent-home", "PATH=/usr/bin:/bin", "TMPDIR=" + c.work, "GOMEMLIMIT=8GiB", "GORACE=halt_on_error=1"}
	out, err := sh.CombinedOutput()
	st := "ok"
	if ctx.Err() != nil {
		st = "timeout"
	} else if err != nil {
		st = err.Error()
	}
	return string(out), st
}

// confirmed reports whether the native run shows the violation.
func confirmed(v *Violation, out, st string) bool {
	switch v.Kind {
	case "assert":
		return strings.Contains(out, "GOSYM-ASSERT-FAIL: "+strings.TrimPrefix(v.Msg, "assert: "))
	case "panic", "stack overflow (unbounded recursion) in " + "":
		return strings.Contains(out, "GOSYM-PANIC") || strings.Contains(out, "fatal error: ")
	case "hang":
		return st == "timeout"
	case "deadlock":
		return st == "timeout" || strings.Contains(out, "all goroutines are asleep")
	case "alloc":
		return strings.Contains(out, "GOSYM-ASSERT-FAIL: alloc") || strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate")
	case "shared write":
		return strings.Contains(out, "DATA RACE") || strings.Contains(out, "concurrent map")
	}
	return strings.Contains(out, "GOSYM-PANIC") || strings.Contains(out, "fatal error: ") || strings.Contains(out, "stack overflow")
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	only := fs.String("only", "", "regexp of harness names")
	secs := fs.Int("time", 0, "time budget in seconds")
	workers := fs.Int("workers", 0, "workers")
	verbose := fs.Bool("v", false, "verbose")
	steps := fs.Int64("steps", 0, "step limit per path")
	verif := fs.String("verif", "", "framework directory")
	repo := fs.String("repo", "/repo", "repository")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *verif == "" {
		*verif, _ = os.Getwd()
	}
	c := &checker{prop: *prop, tier: *tier, verif: *verif, repo: *repo, thorough: *tier == "thorough", buildDone: make(chan struct{})}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.work = filepath.Join(*verif, "work", *prop)
	os.MkdirAll(c.work, 0o755)
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	c.replayBin = filepath.Join(c.work, "replay")
	fail := func(err error) int {
		fmt.Printf("ERROR property=%s %v\n", *prop, err)
		return 2
	}
	ov, race, pats, err := buildOverlay(*verif, *repo, *prop, c.work)
	if err != nil {
		return fail(err)
	}
	c.race = race
	go c.buildReplay(ov)
	p, roots, err := loadProgram(*repo, *verif, ov, pats)
	if err != nil {
		return fail(err)
	}
	loadT := time.Since(t0)
	var hp *ssa.Package
	for _, r := range roots {
		if r != nil && r.Pkg.Path() == ov.hPkg {
			hp = r
		}
	}
	if hp == nil {
		return fail(fmt.Errorf("harness package not found"))
	}
	order := repoInitOrder(p, roots)
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	budget := 100 * time.Second
	if c.thorough {
		budget = 780 * time.Second
	}
	if *secs > 0 {
		budget = time.Duration(*secs) * time.Second
	}
	end := time.Now().Add(budget)
	var names []string
	for _, n := range ov.names {
		if *only != "" {
			if ok, _ := regexp.MatchString(*only, n); !ok {
				continue
			}
		}
		if strings.HasPrefix(n, "H_"+*prop) {
			names = append(names, n)
		}
	}
	var runs []*HarnessRun
	for i, n := range names {
		left := time.Until(end)
		share := left / time.Duration(len(names)-i)
		// a harness may use twice its fair share when others are expected to be short
		if i+1 < len(names) {
			share = share * 2
			if share > left*2/3 {
				share = left * 2 / 3
			}
		}
		h := &HarnessRun{p: p, name: n, fn: hp.Func(n), thorough: c.thorough, solverTimeout: 10000, stepMax: 60_000_000,
			maxSamples: 24, workers: nw, repoInit: order, deadline: time.Now().Add(share), crossEvery: 40}
		if c.thorough {
			h.solverTimeout = 60000
			h.maxSamples = 200
			h.stepMax = 400_000_000
		}
		if *steps > 0 {
			h.stepMax = *steps
		}
		if h.fn == nil {
			return fail(fmt.Errorf("harness %s not found", n))
		}
		h.explore()
		runs = append(runs, h)
		if *verbose {
			fmt.Printf("# %s: paths=%d infeasible=%d forks=%d steps=%d queries=%d solver=%.1fs wall=%.1fs incomplete=%q\n", n, h.paths.Load(), h.infeasible.Load(),
				h.forks.Load(), h.steps.Load(), h.queries, h.solverDur.Seconds(), time.Since(h.started).Seconds(), h.incomplete)
			for _, k := range sortedKeys(h.inconclusive) {
				fmt.Printf("#   inconclusive %dx %s\n", h.inconclusive[k], k)
			}
			for _, k := range sortedKeys(h.covers) {
				fmt.Printf("#   cover %s %d\n", k, h.covers[k])
			}
			for _, k := range sortedKeys(h.violCount) {
				v := h.viol[k][0]
				fmt.Printf("#   violation %dx %s @ %s values=%v\n#     %s\n", h.violCount[k], k, v.Where, v.Values, strings.Join(v.Stack, "\n#     "))
			}
		}
		if h.fatal != "" {
			fmt.Printf("ERROR property=%s %s: %s\n", *prop, n, h.fatal)
			return 2
		}
	}
	for _, h := range runs {
		if h.paths.Load() == 0 && len(h.viol) == 0 && len(h.inconclusive) > 0 {
			return fail(fmt.Errorf("%s: no path could be decided: %v", h.name, sortedKeys(h.inconclusive)))
		}
	}
	<-c.buildDone
	if c.buildErr != nil {
		return fail(c.buildErr)
	}
	return c.report(runs, t0, loadT, *verbose)
}

// cmdReplay runs a reported counterexample against the compiled code.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", ".", "framework directory")
	repo := fs.String("repo", "/repo", "repository")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	work, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(work)
	c := &checker{prop: rf.Property, thorough: rf.Thorough, verif: *verif, repo: *repo, work: work, replayBin: filepath.Join(work, "replay"), buildDone: make(chan struct{})}
	ov, race, _, err := buildOverlay(*verif, *repo, rf.Property, work)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c.race = race
	c.buildReplay(ov)
	if c.buildErr != nil {
		fmt.Println(c.buildErr)
		return 2
	}
	fmt.Printf("%s on inputs %v\nexpected violation: %s (at %s)\n", rf.Harness, rf.Values, rf.Msg, rf.Where)
	out, st := c.native(rf, 60*time.Second)
	fmt.Printf("%s[%s]\n", out, st)
	return 0
}

func (c *checker) report(runs []*HarnessRun, t0 time.Time, loadT time.Duration, verbose bool) int {
	var known []Known
	if b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Printf("ERROR property=%s known_findings.json: %v\n", c.prop, err)
			return 2
		}
	}
	// confirm violations natively
	type conf struct {
		v   *Violation
		key string
		out string
		ok  bool
		n   int
	}
	var confs []*conf
	for _, h := range runs {
		for _, k := range sortedKeys(h.viol) {
			confs = append(confs, &conf{key: k, n: h.violCount[k], v: h.viol[k][0]})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	byName := map[string]*HarnessRun{}
	for _, h := range runs {
		byName[h.name] = h
	}
	for _, cf := range confs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			vs := byName[cf.v.Harness].viol[cf.key]
			tries := 0
			for round := 0; round < 8 && !cf.ok; round++ {
				for _, v := range vs {
					if tries++; tries > 60 {
						return
					}
					rf := replayFile{Harness: v.Harness, Thorough: c.thorough, Values: v.Values, Kinds: v.Kinds}
					out, st := c.native(rf, 20*time.Second)
					if confirmed(v, out, st) {
						cf.ok, cf.v, cf.out = true, v, out
						break
					}
					cf.out = out + " [" + st + "]"
					if st == "timeout" {
						tries += 20
					}
				}
			}
		}()
	}
	wg.Wait()
	nviol := 0
	var unconfirmed []string
	knownHit := map[string]bool{}
	repDir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	for _, cf := range confs {
		if !cf.ok {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s (%dx): %s", cf.v.Harness, cf.key, cf.n, tail(cf.out, 300)))
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.Property != c.prop || k.Status != "finding" {
				continue
			}
			if k.Harness != "" && k.Harness != cf.v.Harness {
				continue
			}
			if ok, err := regexp.MatchString(k.Match, cf.key); ok && err == nil {
				isKnown = true
				knownHit[k.ID] = true
			}
		}
		if isKnown {
			continue
		}
		nviol++
		rp := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", c.prop, nviol))
		rf := replayFile{Property: c.prop, Harness: cf.v.Harness, Thorough: c.thorough, Msg: cf.v.Msg, Where: cf.v.Where, Stack: cf.v.Stack, Values: cf.v.Values, Kinds: cf.v.Kinds,
			Output: tail(cf.out, 4000), Cmd: "bash replay.sh " + rp}
		if nviol > 20 {
			continue
		}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
		fmt.Printf("  %s: %s (at %s; %d path(s))\n", cf.v.Harness, cf.v.Msg, cf.v.Where, cf.n)
	}
	for _, k := range known {
		if k.Property == c.prop && k.Status == "finding" && knownHit[k.ID] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
		}
	}
	// validate sampled paths against the compiled code
	validated, mismatched := 0, 0
	var mism []string
	var mu sync.Mutex
	for _, h := range runs {
		for _, s := range h.samples {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				rf := replayFile{Harness: h.name, Thorough: c.thorough, Values: s.Values, Kinds: s.Kinds}
				out, st := c.native(rf, 30*time.Second)
				var got []string
				for _, l := range strings.Split(out, "\n") {
					if x, ok := strings.CutPrefix(l, "GOSYM-OBS: "); ok {
						got = append(got, x)
					}
				}
				mu.Lock()
				defer mu.Unlock()
				if strings.Contains(out, "GOSYM-OK") && strings.Join(got, "\n") == strings.Join(s.Obs, "\n") {
					validated++
				} else if strings.Contains(out, "GOSYM-ASSERT-FAIL") && len(h.viol) > 0 && strings.Join(got, "\n") == strings.Join(s.Obs, "\n") {
					validated++
				} else {
					mismatched++
					mism = append(mism, fmt.Sprintf("%s values=%v expected=%v native=%s [%s]", h.name, s.Values, s.Obs, tail(out, 500), st))
				}
			}()
		}
	}
	wg.Wait()
	c.evidence(runs, t0, loadT, validated, mism, unconfirmed, nviol, knownHit)
	for _, s := range unconfirmed {
		fmt.Printf("NOTE unconfirmed (not reproduced natively, not reported): %s\n", s)
	}
	for i, s := range mism {
		if i < 5 {
			fmt.Printf("NOTE translation mismatch: %s\n", s)
		}
	}
	var paths, q int64
	var sd float64
	inc := 0
	for _, h := range runs {
		paths += h.paths.Load()
		q += h.queries
		sd += h.solverDur.Seconds()
		if h.incomplete != "" {
			inc++
		}
		for _, n := range h.inconclusive {
			inc += n
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d solver queries (%.1fs), %d native traces validated (%d mismatched), %d inconclusive, %d violations, %.1fs\n",
		c.prop, c.tier, len(runs), paths, q, sd, validated, mismatched, inc, nviol, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *checker) evidence(runs []*HarnessRun, t0 time.Time, loadT time.Duration, validated int, mism, unconf []string, nviol int, known map[string]bool) {
	var paths, infeas, forks, steps, asserts, aq, q int64
	var sd float64
	fnSet := map[string]uint64{}
	libs := 0
	var samples []any
	var hs []any
	cross, crossBad := 0, 0
	complete := true
	for _, h := range runs {
		paths += h.paths.Load()
		infeas += h.infeasible.Load()
		forks += h.forks.Load()
		steps += h.steps.Load()
		asserts += h.asserts.Load()
		aq += h.assertQueries.Load()
		q += h.queries
		sd += h.solverDur.Seconds()
		cross += h.crossDone
		crossBad += h.crossBad
		for fn, n := range h.fnCount {
			if fn.repo {
				fnSet[fn.name] += n
			} else {
				libs++
			}
		}
		for i, s := range h.samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": h.name, "inputs": fmtInputs(s), "outputs": s.Obs})
			}
		}
		if h.incomplete != "" || len(h.inconclusive) > 0 {
			complete = false
		}
		inc := h.inconclusive
		hs = append(hs, map[string]any{"harness": h.name, "paths": h.paths.Load(), "infeasible": h.infeasible.Load(), "forks": h.forks.Load(),
			"instructions": h.steps.Load(), "assertions": h.asserts.Load(), "assertion_queries": h.assertQueries.Load(), "solver_queries": h.queries,
			"solver_s": round1(h.solverDur.Seconds()), "max_path_conditions": h.maxDepth, "covered": h.covers, "incomplete": h.incomplete,
			"unexplored_branches": h.unexplored, "inconclusive": inc, "complete_within_bounds": h.incomplete == "" && len(inc) == 0})
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	var bounds any
	if b, err := os.ReadFile(filepath.Join(c.verif, "bounds.json")); err == nil {
		var m map[string]map[string]any
		if json.Unmarshal(b, &m) == nil {
			bounds = m[c.prop]
		}
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": forks + paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
			"paths_completed": paths, "paths_infeasible_or_assumed_away": infeas, "assertions_evaluated": asserts,
			"assertion_queries": aq, "solver_queries": q, "solver_s": round1(sd), "second_solver_agreements": cross, "second_solver_disagreements": crossBad,
			"functions_encoded": sortedKeys(fnSet), "library_functions_encoded": libs, "bounds": bounds, "harnesses": hs,
			"translation_mismatches": mism, "unconfirmed_counterexamples": unconf, "known_findings_hit": sortedKeys(known),
			"exhaustive": complete, "load_s": round1(loadT.Seconds()),
		},
		"assumptions": []string{"single-threaded execution except where a harness says otherwise", "integers are 64-bit (linux/amd64)", "library functions listed as intrinsics in DESIGN.md behave as documented"},
		"wall_s":      round1(time.Since(t0).Seconds()), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }

func fmtInputs(s *Sample) string {
	var b strings.Builder
	for i, v := range s.Values {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 60 {
			b.WriteString("…")
			break
		}
		switch s.Kinds[i] {
		case "byte":
			fmt.Fprintf(&b, "%q", rune(v))
		case "int64":
			fmt.Fprintf(&b, "%d", int64(v))
		default:
			fmt.Fprintf(&b, "%s:%d", s.Kinds[i], v)
		}
	}
	return b.String()
}
