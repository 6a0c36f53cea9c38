package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type check struct {
	title string
	run   func(*Run)
}

var registry = map[string]check{}

func register(id, title string, run func(*Run)) { registry[id] = check{title, run} }

// A case that is not finished after this long is one that does not end:
// cases take milliseconds, a few at most several seconds.
const hangLimit = 150 * time.Second

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	evidence := flag.String("evidence", "", "evidence file to write")
	replayDir := flag.String("replaydir", "", "where to write replay files")
	findings := flag.String("findings", "", "known findings file")
	replay := flag.String("replay", "", "run the case of this replay file")
	covdata := flag.String("cov", "", "go tool, to summarize coverage")
	child := flag.String("child", "", "internal")
	only := flag.String("only", "", "run only this case: part/number")
	probe := flag.String("probe", "", "internal")
	flag.IntVar(&scale, "scale", 100, "percentage of the quick tier's cases to run (to try many changes of the code; no check uses it)")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()

	if *probe != "" {
		runProbe(*probe)
		return
	}
	if *list {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, registry[id].title)
		}
		return
	}
	if *replay != "" {
		var rp replayFile
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			fatal(err)
		}
		*prop, *seed, *tier, *only = rp.Property, rp.Seed, rp.Tier, fmt.Sprintf("%s/%d", rp.Failure.Part, rp.Failure.Case)
		if rp.Failure.Part == "race-detector" || rp.Failure.Part == "output" {
			*only = "" // not bound to a case: run it all
		}
	}
	if _, ok := registry[*prop]; !ok {
		fatal(fmt.Errorf("no such property: %q", *prop))
	}
	known, err := readFindings(*findings, *prop)
	if err != nil {
		fatal(err)
	}
	if *child != "" {
		// Runaway recursion ends here instead of eating all memory
		debug.SetMaxStack(512 << 20)
		debug.SetMemoryLimit(12 << 30)
		debug.SetGCPercent(400)
		runChild(*prop, *seed, *tier == "thorough", *only, *child, known)
		return
	}
	os.Exit(supervise(*prop, *seed, *tier, *only, *evidence, *replayDir, *covdata, known))
}

type replayFile struct {
	Property string  `json:"property"`
	Seed     int64   `json:"seed"`
	Tier     string  `json:"tier"`
	Failure  Failure `json:"failure"`
	Note     string  `json:"note"`
}

// readFindings returns the known findings of the property:
// lines of the form  finding: property=<id> key=<key> <what>
func readFindings(name, prop string) (map[string]string, error) {
	out := map[string]string{}
	if name == "" {
		return out, nil
	}
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return out, nil
}

type childResult struct {
	rep     *Report
	died    string
	stderr  string
	flight  []inFlight
	hung    bool
	races   string
	printed string // what a child that did not die wrote to its outputs
}

func spawn(id string, seed int64, tier, only string) childResult {
	dir, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	args := []string{"-prop", id, "-seed", fmt.Sprint(seed), "-tier", tier, "-child", dir, "-only", only, "-scale", fmt.Sprint(scale)}
	if f := flag.Lookup("findings").Value.String(); f != "" {
		args = append(args, "-findings", f)
	}
	cmd := exec.Command(self, args...)
	errf, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		fatal(err)
	}
	outf, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		fatal(err)
	}
	defer outf.Close()
	cmd.Stdout = outf
	cmd.Stderr = errf
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	res := childResult{}
	flight := filepath.Join(dir, "flight")
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case err := <-done:
			if err != nil {
				res.died = err.Error()
				var ee *exec.ExitError
				if errors.As(err, &ee) && ee.ExitCode() == 2 && len(readRecorder(flight)) == 0 {
					// An error of the harness itself
					b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
					os.Stderr.Write(b)
				}
			}
			break loop
		case <-tick.C:
			for _, x := range readRecorder(flight) {
				if time.Since(x.Since) > hangLimit {
					res.flight = []inFlight{x}
					res.hung = true
					cmd.Process.Kill()
					<-done
					break loop
				}
			}
		}
	}
	errf.Close()
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	res.stderr = string(b)
	b, _ = os.ReadFile(filepath.Join(dir, "stdout"))
	res.printed = headLines(string(b)+res.stderr, 10)
	if len(res.stderr) > 6000 {
		res.stderr = res.stderr[:6000]
	}
	if !res.hung {
		res.flight = readRecorder(flight)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "report.json")); err == nil {
		var rep Report
		if json.Unmarshal(b, &rep) == nil && rep.Done {
			res.rep = &rep
		}
	}
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		res.races += string(b)
	}
	return res
}

func supervise(id string, seed int64, tier, only, evidence, replayDir, covTool string, known map[string]string) int {
	start := time.Now()
	res := spawn(id, seed, tier, only)
	if res.rep == nil {
		// The process died or did not end. Find the case that does it.
		for _, x := range res.flight {
			again := spawn(id, seed, tier, fmt.Sprintf("%s/%d", x.Part, x.Case))
			if again.rep == nil && (again.hung || again.died != "") {
				what := "the process died: " + again.died
				if again.hung {
					what = fmt.Sprintf("the call did not return within %v", hangLimit)
				}
				f := Failure{Part: x.Part, Case: x.Case, What: what, Stack: headLines(again.stderr, 60)}
				res.rep = &Report{Failures: []Failure{f}, Parts: map[string]*tally{}, Counters: map[string]int64{}}
				break
			}
			if again.rep != nil && len(again.rep.Failures) > 0 {
				res.rep = again.rep
				break
			}
		}
		if res.rep == nil {
			// No single case does it. Races between cases can (concurrent
			// map access is fatal): two runs that die alike are no accident
			second := spawn(id, seed, tier, only)
			if second.rep != nil {
				res = second
			} else if (second.died != "" || second.hung) && strings.Contains(second.stderr, "fatal error: ") && len(second.flight) > 0 {
				x := second.flight[0]
				res.rep = &Report{Failures: []Failure{{Part: x.Part, Case: x.Case, What: "the process died: " + second.died, Stack: headLines(second.stderr, 60)}},
					Parts: map[string]*tally{}, Counters: map[string]int64{}}
			} else {
				fmt.Fprintf(os.Stderr, "inconclusive: run ended without a report: %s\n%s\n", res.died, res.stderr)
				return 3
			}
		}
	}
	rep := res.rep
	if res.races != "" {
		n := strings.Count(res.races, "WARNING: DATA RACE")
		rep.Counters["race reports"] = int64(n)
		if n > 0 {
			rep.Failures = append(rep.Failures, Failure{Part: "race-detector", What: fmt.Sprintf("%d data race reports", n), Stack: headLines(res.races, 80)})
		}
	}

	if id == "C17" && only == "" && res.died == "" && res.printed != "" {
		rep.Failures = append(rep.Failures, Failure{Part: "output", What: "the library printed: " + res.printed})
	}

	cov := codeReached(covTool)
	writeEvidence(id, seed, tier, evidence, rep, cov, time.Since(start).Seconds())

	for k, w := range rep.Findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, w)
	}
	if len(rep.Failures) > 0 {
		f := rep.Failures[0]
		path := ""
		if replayDir != "" {
			os.MkdirAll(replayDir, 0o755)
			path = filepath.Join(replayDir, fmt.Sprintf("%s-seed%d-%s-%d.json", id, seed, f.Part, f.Case))
			b, _ := json.MarshalIndent(replayFile{Property: id, Seed: seed, Tier: tier, Failure: f,
				Note: "run it again with: bash check.sh replay <this file>"}, "", " ")
			os.WriteFile(path, b, 0o644)
		}
		for _, f := range rep.Failures {
			fmt.Printf("FAILED %s part=%s case=%d: %s\n", id, f.Part, f.Case, f.What)
			if d, ok := f.Detail.([]any); ok {
				for _, x := range d {
					fmt.Printf("    %v\n", x)
				}
			}
			if f.Stack != "" {
				fmt.Println(indent(headLines(f.Stack, 30)))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if only == "" && rep.Nontrivial == 0 {
		fmt.Fprintln(os.Stderr, "inconclusive: nothing was observed")
		return 3
	}
	if only == "" {
		for part, t := range rep.Parts {
			if t.Cases >= 20 && t.NotDecided == t.Cases {
				fmt.Fprintf(os.Stderr, "inconclusive: no case of part %q gave a verdict\n", part)
				return 3
			}
		}
	}
	fmt.Printf("OK property=%s cases=%d distinct_nontrivial=%d unspecified=%d wall=%.1fs\n", id, rep.Evals, rep.Nontrivial, rep.Skips, time.Since(start).Seconds())
	return 0
}

func headLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func writeEvidence(id string, seed int64, tier, name string, rep *Report, cov map[string]any, wall float64) {
	if name == "" {
		return
	}
	samples := rep.Samples
	if samples == nil {
		samples = []any{}
	}
	coverage := map[string]any{
		"evaluations":         rep.Evals,
		"distinct_nontrivial": rep.Nontrivial,
		"rule":                rep.Rule,
		"samples":             samples,
		"cases_per_part":      rep.Parts,
		"unspecified_skipped": rep.Skips,
		"observed":            rep.Counters,
	}
	if cov != nil {
		coverage["code_reached"] = cov
	}
	ev := map[string]any{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    coverage,
		"assumptions": rep.Assume,
		"wall_s":      wall,
		"violations":  len(rep.Failures),
	}
	if rep.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	os.MkdirAll(filepath.Dir(name), 0o755)
	if err := os.WriteFile(name, append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

// codeReached summarizes what statements of the library the run reached
func codeReached(tool string) map[string]any {
	dir := os.Getenv("GOCOVERDIR")
	if tool == "" || dir == "" {
		return nil
	}
	prof := filepath.Join(dir, "profile.txt")
	if out, err := exec.Command(tool, "tool", "covdata", "textfmt", "-i="+dir, "-o="+prof).CombinedOutput(); err != nil {
		return map[string]any{"error": string(out)}
	}
	b, err := os.ReadFile(prof)
	if err != nil {
		return nil
	}
	type st struct{ total, hit int }
	files := map[string]*st{}
	seen := map[string]bool{}
	hitBlocks := map[string]bool{}
	stm := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) != 3 || !strings.HasPrefix(f[0], "github.com/bserdar/gojsonpath/") || strings.Contains(f[0], "/parser/") {
			continue
		}
		var n, c int
		fmt.Sscan(f[1], &n)
		fmt.Sscan(f[2], &c)
		seen[f[0]] = true
		stm[f[0]] = n
		if c > 0 {
			hitBlocks[f[0]] = true
		}
	}
	tot := &st{}
	for blk := range seen {
		file := blk[strings.LastIndex(blk, "/")+1 : strings.LastIndex(blk, ":")]
		s := files[file]
		if s == nil {
			s = &st{}
			files[file] = s
		}
		s.total += stm[blk]
		tot.total += stm[blk]
		if hitBlocks[blk] {
			s.hit += stm[blk]
			tot.hit += stm[blk]
		}
	}
	out := map[string]any{"statements": tot.total, "statements_executed": tot.hit}
	per := map[string]string{}
	for f, s := range files {
		per[f] = fmt.Sprintf("%d/%d", s.hit, s.total)
	}
	out["per_file"] = per
	return out
}
