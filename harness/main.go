package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func main() {
	testing.Init()
	args := os.Args[1:]
	flag.CommandLine.Parse(nil)
	if len(args) == 2 && args[0] == "dict" {
		dictMain(args[1])
		return
	}
	if len(args) < 2 || checks[args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: harness check|replay|child|one <ID> ...")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		os.Exit(parentMain(args[1]))
	case "replay":
		os.Exit(replayMain(args[1], args[2]))
	case "child":
		shard, _ := strconv.Atoi(args[2])
		childMain(args[1], shard, args[3])
		os.Exit(0)
	case "fuzzes": // does the check use fuzz_test.go in this tier?
		for _, z := range checks[args[1]].Fuzz {
			if z.time() > 0 {
				os.Exit(0)
			}
		}
		os.Exit(1)
	case "cold":
		os.Exit(coldMain())
	case "one":
		os.Exit(oneMain(args[1], args[2], args[3]))
	}
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type evidence struct {
	Property string         `json:"property"`
	Tier     string         `json:"tier"`
	Seed     int            `json:"seed"`
	Level    string         `json:"level"`
	Coverage map[string]any `json:"coverage"`
	WallS    float64        `json:"wall_s"`
}

// runOne re-runs a case in a process of its own. verdict: "holds", "violated", "error".
func runOne(id string, caseFile, work string) (verdict, msg string) {
	self, _ := os.Executable()
	var out bytes.Buffer
	cmd := exec.Command(self, "one", id, caseFile, work)
	cmd.Stdout = &out
	errb := &bytes.Buffer{}
	cmd.Stderr = errb
	err := cmd.Run()
	if err == nil {
		return "holds", out.String()
	}
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	switch {
	case code == 1:
		return "violated", out.String()
	case code == 3:
		return "violated", "no result within the time limit\n" + head(errb.String(), 60)
	case code == 4:
		return "violated", "memory use out of bounds"
	case crashInSUT(errb.String()):
		return "violated", "the process was brought down:\n" + head(errb.String(), 40)
	}
	return "error", fmt.Sprintf("exit %d: %s", code, head(errb.String(), 60))
}

func head(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// crashInSUT recognises a Go runtime crash (panic or fatal error) whose first
// goroutine runs in code of the repository.
func crashInSUT(stderr string) bool {
	i := strings.Index(stderr, "panic: ")
	if j := strings.Index(stderr, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 || strings.Contains(stderr, "HARNESS PANIC") {
		return false
	}
	s := stderr[i:]
	if k := strings.Index(s, "\ngoroutine "); k >= 0 {
		s = s[k+1:]
		if e := strings.Index(s, "\n\n"); e >= 0 {
			s = s[:e]
		}
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, sutPath) || strings.HasPrefix(l, "created by "+sutPath) {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func parentMain(id string) int {
	start := time.Now()
	ck := checks[id]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	work, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	self, _ := os.Executable()
	limit := 400 * time.Second
	if tier == "thorough" {
		limit = 780 * time.Second
	}

	type shardOut struct {
		res    *ChildResult
		code   int
		stderr string
		killed bool
	}
	outs := make([]shardOut, ck.Shards)
	run := func(s int, limit time.Duration) (o shardOut) {
		cmd := exec.Command(self, "child", id, strconv.Itoa(s), work)
		cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed))
		errb := &lockedBuf{}
		cmd.Stderr = errb
		cmd.Stdout = errb
		if err := cmd.Start(); err != nil {
			return shardOut{code: 5, stderr: err.Error()}
		}
		var killed atomic.Bool
		t := time.AfterFunc(limit, func() { killed.Store(true); cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		o.stderr, o.killed = errb.String(), killed.Load()
		if err != nil {
			o.code = -1
			if ee, ok := err.(*exec.ExitError); ok {
				o.code = ee.ExitCode()
			}
		}
		if b, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("result.%d.json", s))); err == nil {
			r := &ChildResult{}
			if json.Unmarshal(b, r) == nil {
				o.res = r
			}
		}
		return o
	}
	var wg sync.WaitGroup
	for s := 0; s < ck.Shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			outs[s] = run(s, limit)
		}(s)
	}
	wg.Wait()
	// a case that took too long once and not again, on a busy machine: the shard starts over
	retried := 0
	for s := range outs {
		if left := 840*time.Second - time.Since(start); outs[s].code == 3 && left > 200*time.Second {
			jf := filepath.Join(work, fmt.Sprintf("journal.%d", s))
			if verdict, _ := runOne(id, jf, work); verdict != "violated" && !crashInSUT(outs[s].stderr) {
				retried++
				wg.Add(1)
				go func(s int) {
					defer wg.Done()
					outs[s] = run(s, left)
				}(s)
			}
		}
	}
	wg.Wait()

	var violation *CaseFile
	errs := []string{}
	for s := range outs {
		o := &outs[s]
		if o.res != nil && o.res.Failure != nil && violation == nil {
			violation = o.res.Failure
		}
		if o.res != nil && o.res.Error != "" {
			errs = append(errs, fmt.Sprintf("shard %d: %s", s, o.res.Error))
		}
		if o.code == 0 && o.res != nil {
			continue
		}
		if o.killed {
			errs = append(errs, fmt.Sprintf("shard %d: over the time limit of the check", s))
			continue
		}
		// the child died: look at the case it was running
		jb, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("journal.%d", s)))
		var cf CaseFile
		if err != nil || json.Unmarshal(jb, &cf) != nil {
			errs = append(errs, fmt.Sprintf("shard %d: exit %d without a journal: %s", s, o.code, head(o.stderr, 40)))
			continue
		}
		jf := filepath.Join(work, fmt.Sprintf("case.%d.json", s))
		_ = os.WriteFile(jf, jb, 0o644)
		verdict, msg := runOne(id, jf, work)
		if verdict != "violated" && crashInSUT(o.stderr) {
			verdict, msg = "violated", "the process was brought down:\n"+head(o.stderr, 40)
		}
		switch verdict {
		case "violated":
			if violation == nil {
				cf.Message = msg
				violation = shrinkCrash(id, &cf, work)
			}
		default:
			errs = append(errs, fmt.Sprintf("shard %d: exit %d, not reproduced by its last case (%s): %s", s, o.code, msg, head(o.stderr, 60)))
		}
	}

	fuzzed := []map[string]any{}
	for i := range ck.Fuzz {
		z := &ck.Fuzz[i]
		if violation != nil || len(errs) > 0 || z.time() == 0 || os.Getenv("HARNESS_PART") != "" && os.Getenv("HARNESS_PART") != z.Target {
			continue
		}
		if time.Since(start)+z.time() > 800*time.Second {
			continue
		}
		c, v, err := runFuzz(id, z, seed, work)
		if err != nil {
			errs = append(errs, err.Error())
		}
		violation = v
		if c != nil {
			fuzzed = append(fuzzed, c)
		}
	}

	// evidence
	cov := map[string]any{}
	evals, subs, inconcl := 0, 0, 0
	distinct := map[string]bool{}
	parts := []map[string]any{}
	samples := []any{}
	rules := []string{}
	byName := map[string]map[string]any{}
	order := []string{}
	for _, o := range outs {
		if o.res == nil {
			continue
		}
		for _, p := range o.res.Parts {
			m := byName[p.Name]
			if m == nil {
				m = map[string]any{"part": p.Name, "nontrivial_when": p.Rule, "evaluations": 0, "labels": map[string]int{}, "_d": map[string]bool{}, "wall_s_max": 0.0, "sub": 0, "cut": false}
				byName[p.Name] = m
				order = append(order, p.Name)
				rules = append(rules, p.Name+": "+p.Rule)
			}
			m["evaluations"] = m["evaluations"].(int) + p.Evaluations
			m["sub"] = m["sub"].(int) + p.Sub
			if p.WallS > m["wall_s_max"].(float64) {
				m["wall_s_max"] = p.WallS
			}
			m["cut"] = m["cut"].(bool) || p.CutShort
			for l, n := range p.Labels {
				m["labels"].(map[string]int)[l] += n
			}
			for k := range p.NonTrivial {
				m["_d"].(map[string]bool)[k] = true
				distinct[p.Name+k] = true
			}
			evals += p.Evaluations
			subs += p.Sub
			inconcl += p.Inconclusive
			if len(samples) < 12 {
				for _, s := range p.Samples {
					if n := countSamples(samples, p.Name); n < 2 {
						samples = append(samples, map[string]any{"part": p.Name, "case": s})
					}
				}
			}
		}
	}
	for _, n := range order {
		m := byName[n]
		m["distinct_nontrivial"] = len(m["_d"].(map[string]bool))
		delete(m, "_d")
		if m["sub"].(int) > 0 {
			m["evaluations_inside_cases"] = m["sub"]
		}
		delete(m, "sub")
		if m["cut"].(bool) {
			m["stopped_by_time_budget"] = true
		}
		delete(m, "cut")
		parts = append(parts, m)
	}
	cov["evaluations"] = evals
	cov["distinct_nontrivial"] = len(distinct)
	cov["rule"] = "Cases are drawn by rapid from the generators of each part (seeded by VERIF_SEED, check, part and shard). A case is non-trivial when: " + strings.Join(rules, "; ")
	cov["samples"] = samples
	cov["parts"] = parts
	if subs > 0 {
		cov["evaluations_inside_cases"] = subs
	}
	if len(fuzzed) > 0 {
		cov["coverage_guided"] = fuzzed
	}
	cov["inconclusive"] = inconcl
	cov["shards"] = ck.Shards
	if retried > 0 {
		cov["shards_started_over"] = retried
	}
	if violation != nil {
		cov["violation"] = violation
	}
	if len(samples) == 0 && violation != nil {
		cov["samples"] = []any{violation}
	}
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: "exploration", Coverage: cov, WallS: time.Since(start).Seconds()}
	eb, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(eb, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}

	if violation != nil {
		rdir := filepath.Join(verifDir(), "replays")
		_ = os.MkdirAll(rdir, 0o755)
		rf := filepath.Join(rdir, fmt.Sprintf("%s-%s-seed%d-%s.json", id, violation.Part, seed, tier))
		vb, _ := json.MarshalIndent(violation, "", " ")
		if err := os.WriteFile(rf, append(vb, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s\n", head(violation.Message, 40))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rf)
		return 1
	}
	if len(errs) > 0 {
		fmt.Fprintf(os.Stderr, "check %s could not be completed:\n%s\n", id, strings.Join(errs, "\n"))
		return 2
	}
	if evals == 0 || inconcl*2 > evals {
		fmt.Fprintf(os.Stderr, "check %s: %d of %d cases inconclusive\n", id, inconcl, evals)
		return 2
	}
	fmt.Printf("%s holds: %d cases, %d distinct non-trivial, %.1f s\n", id, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

func countSamples(s []any, part string) int {
	n := 0
	for _, x := range s {
		if x.(map[string]any)["part"] == part {
			n++
		}
	}
	return n
}

func replayMain(id, file string) int {
	work, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(work)
	verdict, msg := runOne(id, file, work)
	fmt.Println(head(msg, 60))
	switch verdict {
	case "holds":
		return 0
	case "violated":
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		return 1
	}
	return 2
}

// shrinkCrash minimises a case that takes the whole process down, by deleting
// array elements of its JSON form as long as the crash stays.
func shrinkCrash(id string, cf *CaseFile, work string) *CaseFile {
	deadline := time.Now().Add(40 * time.Second)
	best := *cf
	try := func(c json.RawMessage) bool {
		n := best
		n.Case = c
		b, _ := json.Marshal(n)
		f := filepath.Join(work, "shrink.json")
		_ = os.WriteFile(f, b, 0o644)
		v, m := runOne(id, f, work)
		if v == "violated" {
			n.Message = m
			best = n
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		var v any
		if json.Unmarshal(best.Case, &v) != nil {
			break
		}
		for _, path := range arrayPaths(v, nil) {
			for i := arrayLen(v, path) - 1; i >= 0; i-- {
				if time.Now().After(deadline) {
					return &best
				}
				var w any
				_ = json.Unmarshal(best.Case, &w)
				if !deleteAt(&w, path, i) {
					break
				}
				b, _ := json.Marshal(w)
				if try(b) {
					changed = true
				}
			}
			if changed {
				break
			}
		}
	}
	return &best
}

func arrayPaths(v any, at []any) [][]any {
	var out [][]any
	switch x := v.(type) {
	case []any:
		if len(x) > 1 {
			out = append(out, append([]any{}, at...))
		}
		for i, e := range x {
			out = append(out, arrayPaths(e, append(append([]any{}, at...), i))...)
		}
	case map[string]any:
		for _, k := range sortedKeys(x) {
			out = append(out, arrayPaths(x[k], append(append([]any{}, at...), k))...)
		}
	}
	return out
}

func lookup(v any, path []any) any {
	for _, p := range path {
		switch k := p.(type) {
		case int:
			a, ok := v.([]any)
			if !ok || k >= len(a) {
				return nil
			}
			v = a[k]
		case string:
			m, ok := v.(map[string]any)
			if !ok {
				return nil
			}
			v = m[k]
		}
	}
	return v
}

func arrayLen(v any, path []any) int {
	a, _ := lookup(v, path).([]any)
	return len(a)
}

func deleteAt(v *any, path []any, i int) bool {
	a, ok := lookup(*v, path).([]any)
	if !ok || i >= len(a) {
		return false
	}
	n := append(append([]any{}, a[:i]...), a[i+1:]...)
	if len(path) == 0 {
		*v = n
		return true
	}
	parent := lookup(*v, path[:len(path)-1])
	switch k := path[len(path)-1].(type) {
	case int:
		parent.([]any)[k] = n
	case string:
		parent.(map[string]any)[k] = n
	}
	return true
}
