package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- Framework: a check is a list of numbered cases. Every case is
// determined by (seed, property, part, number), so a case can be run
// again alone.

type Run struct {
	ID       string
	Seed     int64
	Thorough bool
	Only     string // run only this case, "part/n"
	Workers  int
	Recorder *recorder

	mu         sync.Mutex
	evals      int64
	skips      int64
	nontrivial map[uint64]struct{}
	ntCapped   int64
	samples    map[string][]any
	counters   map[string]*int64
	failures   []Failure
	findings   map[string]string // key -> what, known findings observed
	known      map[string]string // listed known findings for this property
	rule       string
	assume     []string
	stop       atomic.Bool
	parts      map[string]int64
	tally      map[string]*tally
}

// tally counts what the cases of a part decided
type tally struct {
	Cases      int64 `json:"cases"`
	NotDecided int64 `json:"unspecified"`
	NonTrivial int64 `json:"nontrivial"`
}

type Failure struct {
	Part   string `json:"part"`
	Case   int    `json:"case"`
	What   string `json:"what"`
	Detail any    `json:"detail,omitempty"`
	Stack  string `json:"stack,omitempty"`
}

type Case struct {
	Run   *Run
	Part  string
	N     int
	R     *rand.Rand
	desc  []string
	skip  bool
	nt    bool
	ntKey string
}

type failPanic struct{ what string }
type skipPanic struct{ why string }

// harnessBug is an error of the harness, never a verdict
type harnessBug string

// Note adds information to be reported with a failure of this case
func (c *Case) Note(f string, a ...any) { c.desc = append(c.desc, fmt.Sprintf(f, a...)) }

// Fail reports a violation, and ends the case
func (c *Case) Fail(f string, a ...any) { panic(failPanic{fmt.Sprintf(f, a...)}) }

// Skip ends the case: it is not one the property specifies
func (c *Case) Skip(why string) { panic(skipPanic{why}) }

// NonTrivial marks the case, with the key that identifies it
func (c *Case) NonTrivial(key string) { c.nt = true; c.ntKey = key }

func (c *Case) Count(name string, n int) { c.Run.Count(name, n) }

func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	p := r.counters[name]
	if p == nil {
		p = new(int64)
		r.counters[name] = p
	}
	r.mu.Unlock()
	atomic.AddInt64(p, int64(n))
}

// Known tells if the finding is listed, and records that it was observed
func (c *Case) Known(key, what string) bool {
	r := c.Run
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[key]; ok {
		r.findings[key] = what
		return true
	}
	return false
}

// Sample keeps a few written out cases for the evidence
func (c *Case) Sample(x any) {
	r := c.Run
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples[c.Part]) < 3 {
		r.samples[c.Part] = append(r.samples[c.Part], x)
	}
}

func caseSeed(seed int64, id, part string, n int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, id, part, n)
	return int64(h.Sum64())
}

// N picks the number of cases of the tier
func (r *Run) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return (quick*scale + 99) / 100
}

var scale = 100

// Cases runs n cases of the part in parallel
func (r *Run) Cases(part string, n int, f func(*Case)) { r.cases(part, n, r.Workers, f) }

// Serial runs n cases one after the other
func (r *Run) Serial(part string, n int, f func(*Case)) { r.cases(part, n, 1, f) }

func (r *Run) cases(part string, n, workers int, f func(*Case)) {
	if r.stop.Load() {
		return
	}
	r.mu.Lock()
	r.parts[part] += int64(n)
	r.mu.Unlock()
	if r.Only != "" {
		i := strings.LastIndex(r.Only, "/")
		if r.Only[:i] != part {
			return
		}
		var k int
		fmt.Sscan(r.Only[i+1:], &k)
		if k < n {
			r.one(part, k, 0, f)
		}
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !r.stop.Load() {
				k := int(atomic.AddInt64(&next, 1))
				if k >= n {
					return
				}
				r.one(part, k, w, f)
			}
		}(w)
	}
	wg.Wait()
}

func (r *Run) one(part string, k, worker int, f func(*Case)) {
	c := &Case{Run: r, Part: part, N: k, R: rand.New(rand.NewSource(caseSeed(r.Seed, r.ID, part, k)))}
	r.Recorder.begin(worker, part, k)
	defer func() {
		r.Recorder.end(worker)
		x := recover()
		atomic.AddInt64(&r.evals, 1)
		r.mu.Lock()
		t := r.tally[part]
		if t == nil {
			t = &tally{}
			r.tally[part] = t
		}
		t.Cases++
		if _, is := x.(skipPanic); is {
			t.NotDecided++
		} else if c.nt {
			t.NonTrivial++
		}
		r.mu.Unlock()
		if x == nil {
			if c.nt {
				h := fnv.New64a()
				h.Write([]byte(part))
				h.Write([]byte{0})
				h.Write([]byte(c.ntKey))
				r.mu.Lock()
				if len(r.nontrivial) < 4_000_000 {
					r.nontrivial[h.Sum64()] = struct{}{}
				}
				r.mu.Unlock()
			}
			return
		}
		fl := Failure{Part: part, Case: k, Detail: c.desc}
		switch p := x.(type) {
		case skipPanic:
			atomic.AddInt64(&r.skips, 1)
			r.Count("skipped: "+p.why, 1)
			return
		case failPanic:
			fl.What = p.what
		case budgetExceeded:
			fl.What = fmt.Sprintf("evaluation does not end: %d calls to the document model", p.calls)
		default:
			st := string(debug.Stack())
			_, bug := x.(harnessBug)
			if bug || !strings.Contains(st, "/gojsonpath") && !strings.Contains(st, "antlr") {
				fmt.Fprintf(os.Stderr, "harness error: part %s case %d: %v\n%s\n", part, k, x, st)
				r.Recorder.f.Truncate(0)
				os.Exit(2)
			}
			fl.What = fmt.Sprintf("panic: %v", p)
			fl.Stack = trimStack(st)
		}
		r.mu.Lock()
		r.failures = append(r.failures, fl)
		if len(r.failures) >= 5 {
			r.stop.Store(true)
		}
		r.mu.Unlock()
	}()
	f(c)
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 60 {
		l = l[:60]
	}
	return strings.Join(l, "\n")
}

// ---- flight recorder: what every worker is doing, in a file that is
// left behind if the process dies

type recorder struct {
	f  *os.File
	on bool
}

const slotSize = 96

func (r *recorder) begin(worker int, part string, k int) {
	if r == nil || !r.on {
		return
	}
	var b [slotSize]byte
	binary.LittleEndian.PutUint64(b[0:], uint64(k)+1)
	binary.LittleEndian.PutUint64(b[8:], uint64(time.Now().UnixNano()))
	b[16] = byte(len(part))
	copy(b[17:], part)
	r.f.WriteAt(b[:], int64(worker*slotSize))
}

func (r *recorder) end(worker int) {
	if r == nil || !r.on {
		return
	}
	var b [16]byte
	r.f.WriteAt(b[:], int64(worker*slotSize))
}

type inFlight struct {
	Part  string
	Case  int
	Since time.Time
}

func readRecorder(name string) (out []inFlight) {
	data, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	for i := 0; i+slotSize <= len(data)+slotSize-17; i += slotSize {
		if i+17 > len(data) {
			break
		}
		k := binary.LittleEndian.Uint64(data[i:])
		if k == 0 {
			continue
		}
		n := int(data[i+16])
		if i+17+n > len(data) {
			continue
		}
		out = append(out, inFlight{
			Part:  string(data[i+17 : i+17+n]),
			Case:  int(k) - 1,
			Since: time.Unix(0, int64(binary.LittleEndian.Uint64(data[i+8:]))),
		})
	}
	return
}

// ---- report of the child, read by the parent

type Report struct {
	Done       bool              `json:"done"`
	Evals      int64             `json:"evals"`
	Skips      int64             `json:"skips"`
	Nontrivial int               `json:"nontrivial"`
	Samples    []any             `json:"samples"`
	Counters   map[string]int64  `json:"counters"`
	Parts      map[string]*tally `json:"parts"`
	Failures   []Failure         `json:"failures"`
	Findings   map[string]string `json:"findings"`
	Rule       string            `json:"rule"`
	Assume     []string          `json:"assume"`
	Wall       float64           `json:"wall"`
}

func (r *Run) report(wall float64) Report {
	rep := Report{Done: true, Evals: r.evals, Skips: r.skips, Nontrivial: len(r.nontrivial),
		Counters: map[string]int64{}, Parts: r.tally, Failures: r.failures, Findings: r.findings,
		Rule: r.rule, Assume: r.assume, Wall: wall}
	for k, v := range r.counters {
		rep.Counters[k] = *v
	}
	var parts []string
	for p := range r.samples {
		parts = append(parts, p)
	}
	sort.Strings(parts)
	for _, p := range parts {
		for _, s := range r.samples[p] {
			rep.Samples = append(rep.Samples, map[string]any{"part": p, "case": s})
		}
	}
	sort.Slice(rep.Failures, func(i, j int) bool {
		a, b := rep.Failures[i], rep.Failures[j]
		if a.Part != b.Part {
			return a.Part < b.Part
		}
		return a.Case < b.Case
	})
	return rep
}

func runChild(id string, seed int64, thorough bool, only, dir string, known map[string]string) {
	r := &Run{ID: id, Seed: seed, Thorough: thorough, Only: only, Workers: runtime.NumCPU(),
		nontrivial: map[uint64]struct{}{}, samples: map[string][]any{}, counters: map[string]*int64{},
		findings: map[string]string{}, known: known, parts: map[string]int64{}, tally: map[string]*tally{}}
	if r.Workers > 8 {
		r.Workers = 8
	}
	f, err := os.Create(filepath.Join(dir, "flight"))
	if err != nil {
		fatal(err)
	}
	r.Recorder = &recorder{f: f, on: true}
	start := time.Now()
	registry[id].run(r)
	for part, t := range r.tally {
		if t.Cases >= 100 && t.NotDecided > t.Cases*9/10 && len(r.failures) == 0 {
			fatal(fmt.Errorf("part %s: the reference decides only %d of %d cases", part, t.Cases-t.NotDecided, t.Cases))
		}
	}
	rep := r.report(time.Since(start).Seconds())
	b, err := json.Marshal(rep)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "report.json.tmp"), b, 0o644); err != nil {
		fatal(err)
	}
	if err := os.Rename(filepath.Join(dir, "report.json.tmp"), filepath.Join(dir, "report.json")); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness error:", err)
	os.Exit(2)
}
