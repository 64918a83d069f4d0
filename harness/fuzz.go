package main

// Runs the coverage-guided searches of a check (fuzz_test.go), after its parts
// have found nothing.

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"time"
)

var fuzzLine = regexp.MustCompile(`elapsed: \S+, execs: (\d+) .*new interesting: (\d+) \(total: (\d+)\)`)

// runFuzz gives what the search covered, a confirmed violation and an error.
func runFuzz(id string, z *Fuzz, seed int, work string) (map[string]any, *CaseFile, error) {
	bin := os.Getenv("FUZZ_BIN")
	if bin == "" {
		return nil, nil, nil
	}
	out, err := os.MkdirTemp(work, "fuzz-")
	if err != nil {
		return nil, nil, err
	}
	var log bytes.Buffer
	cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^"+z.Target+"$", "-test.fuzztime="+z.time().String(),
		"-test.fuzzminimizetime=10x" /* more makes the corpus useless */, "-test.fuzzcachedir="+filepath.Join(out, "cache"))
	cmd.Dir = out
	cmd.Env = append(os.Environ(), "FUZZ_ID="+id, "FUZZ_PART="+z.Part, "FUZZ_OUT="+out, "VERIF_SEED="+strconv.Itoa(seed))
	cmd.Stdout, cmd.Stderr = &log, &log
	if err := cmd.Start(); err != nil {
		return nil, nil, err
	}
	late := time.AfterFunc(z.time()+90*time.Second, func() { cmd.Process.Kill() })
	ferr := cmd.Wait()
	late.Stop()
	cov := map[string]any{"target": z.Target, "part": z.Part, "seconds": z.time().Seconds()}
	if ms := fuzzLine.FindAllStringSubmatch(log.String(), -1); len(ms) > 0 {
		m := ms[len(ms)-1]
		for i, k := range []string{"executions", "inputs_with_new_coverage", "corpus"} {
			cov[k], _ = strconv.Atoi(m[i+1])
		}
	}
	if ferr == nil {
		return cov, nil, nil
	}
	// what failed, smallest first; then what was running in a process that died
	fails, _ := filepath.Glob(filepath.Join(out, "fail.*"))
	size := func(f string) int64 {
		if fi, err := os.Stat(f); err == nil {
			return fi.Size()
		}
		return 1 << 40
	}
	age := func(f string) time.Time {
		fi, _ := os.Stat(f)
		if fi == nil {
			return time.Time{}
		}
		return fi.ModTime()
	}
	sort.SliceStable(fails, func(i, j int) bool {
		a, b := size(fails[i]), size(fails[j])
		return a < b || a == b && age(fails[i]).After(age(fails[j]))
	})
	crash := len(fails) == 0
	if crash {
		fails, _ = filepath.Glob(filepath.Join(out, "journal.*"))
	}
	for i, f := range fails {
		if i == 16 {
			break
		}
		b, err := os.ReadFile(f)
		cf := &CaseFile{}
		if err != nil || json.Unmarshal(b, cf) != nil {
			continue
		}
		if verdict, msg := runOne(id, f, work); verdict == "violated" {
			cf.Message = msg
			if crash {
				cf = shrinkCrash(id, cf, work)
			}
			return cov, cf, nil
		}
	}
	// it does not show again: a busy machine, or the engine itself
	cov["not_reproduced"] = head(log.String(), 40)
	return cov, nil, nil
}
