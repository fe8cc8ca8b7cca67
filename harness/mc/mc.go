// Package mc is the exploration framework shared by all checks.
//
// A check enumerates a finite list of units in a fixed order. Each unit is one
// case or a small subtree of cases that is explored exhaustively when the unit
// is run. Units are spread over worker processes (unit i belongs to worker
// i mod N). Before a unit is run its index is written to a memory-mapped
// journal, so that a crash of the process (stack overflow, fatal error, out of
// memory) or a hang is attributed to the unit that caused it.
//
// A violation is confirmed by replaying the unit alone in fresh processes; if it
// does not show up there, the worker's whole sequence of units up to the
// failing one is replayed (state that leaks between cases is reported that way).
package mc

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check describes one property's check.
type Check struct {
	ID    string
	Level string // exploration | fault_enumeration | model_checking
	Rule  string // how cases are made and what makes one non-trivial
	// Units enumerates all units in a fixed order. yield returns false when
	// enumeration must stop.
	Units func(tier string, yield func(key string, run func(t *T)) bool)
	// Assumptions recorded in the evidence.
	Assumptions []string
	// Workers overrides the number of worker processes (0 = number of CPUs).
	Workers int
	// Less is by how many of the 150 MB the ballast of a worker is smaller.
	Less int
	// Setup, if not nil, runs once per process before any unit.
	Setup func() error
	// Bounds describes the completed bounds for the evidence.
	Bounds func(tier string) map[string]interface{}
	// Traces says that every run is a replay against the implementation.
	// HangSeconds overrides the no-progress limit.
	HangSeconds int
}

// T is handed to units.
type T struct {
	c        *Check
	stats    *Stats
	unit     string
	at       func() string
	known    map[string]Known
	journal  []byte
	Tier     string
	nsamples int
}

// Stats are summed over workers.
type Stats struct {
	Units       int64             `json:"units"`
	Evaluations int64             `json:"evaluations"`
	Nontrivial  int64             `json:"nontrivial"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Traces      int64             `json:"traces"`
	Counters    map[string]int64  `json:"counters"`
	Samples     []string          `json:"samples"`
	Known       map[string]string `json:"known"`
	Done        bool              `json:"done"`
	Deadline    bool              `json:"deadline"`
	outcomes    map[uint64]struct{}
	states      map[uint64]struct{}
}

// Known is an entry of /verif/known_findings.json.
type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
}

type violation struct{ msg string }

// Fail reports a violation of the property.
func (t *T) Fail(format string, args ...interface{}) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// At sets the description of the case being run, for reports.
func (t *T) At(f func() string) { t.at = f }

// Atf is At with a constant string.
func (t *T) Atf(s string) { t.at = func() string { return s } }

// Eval counts n evaluated cases.
func (t *T) Eval(n int64) {
	t.stats.Evaluations += n
	if t.journal != nil {
		binary.LittleEndian.PutUint64(t.journal[8:], uint64(t.stats.Evaluations+t.stats.Transitions))
	}
}

// Nontrivial counts a non-trivial case.
func (t *T) Nontrivial(n int64) { t.stats.Nontrivial += n }

// Trans counts n transitions (operations executed on the real code).
func (t *T) Trans(n int64) {
	t.stats.Transitions += n
	if t.journal != nil {
		binary.LittleEndian.PutUint64(t.journal[8:], uint64(t.stats.Evaluations+t.stats.Transitions))
	}
}

// Trace counts one complete execution compared with the reference model.
func (t *T) Trace(n int64) { t.stats.Traces += n }

// State records a visited state by its canonical form and reports if it is new
// in this process.
func (t *T) State(canon string) bool {
	h := Hash(canon)
	if _, ok := t.stats.states[h]; ok {
		return false
	}
	if len(t.stats.states) < 8_000_000 {
		t.stats.states[h] = struct{}{}
	}
	return true
}

// Outcome records a distinct observed outcome.
func (t *T) Outcome(canon string) {
	if len(t.stats.outcomes) < 4_000_000 {
		t.stats.outcomes[Hash(canon)] = struct{}{}
	}
}

// OutcomeN records a distinct observed outcome given as a number.
func (t *T) OutcomeN(h uint64) { t.stats.outcomes[h] = struct{}{} }

// StateN records a state by its hash.
func (t *T) StateN(h uint64) {
	if len(t.stats.states) < 8_000_000 {
		t.stats.states[h] = struct{}{}
	}
}

// Count increments a named counter in the evidence.
func (t *T) Count(name string, n int64) { t.stats.Counters[name] += n }

// Sample keeps a few cases for the evidence.
func (t *T) Sample(f func() string) {
	t.nsamples++
	n := t.nsamples
	if n <= 2 || (n&(n-1) == 0 && len(t.stats.Samples) < 12) {
		s := f()
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.stats.Samples = append(t.stats.Samples, s)
	}
}

// KnownFinding reports that the listed finding id was observed. It returns
// false (the caller must then Fail) if the finding is not listed.
func (t *T) KnownFinding(id string) bool {
	k, ok := t.known[id]
	if !ok {
		return false
	}
	t.stats.Known[id] = k.What
	return true
}

// Hash is a 64-bit hash of s.
func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

const exitViolation = 10

type report struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Unit     string `json:"unit"`
	Index    int    `json:"index"`
	Case     string `json:"case"`
	Message  string `json:"message"`
	Mode     string `json:"mode"` // unit | prefix
	Worker   int    `json:"worker"`
	Workers  int    `json:"workers"`
	Repro    string `json:"repro"`
}

var (
	fTier    = flag.String("tier", "", "quick or thorough")
	fWorker  = flag.Int("worker", -1, "worker index (internal)")
	fWorkers = flag.Int("workers", 0, "number of workers")
	fDir     = flag.String("dir", "", "scratch directory (internal)")
	fUpto    = flag.Int("upto", -1, "stop after this unit index (internal)")
	fOnly    = flag.Int("only", -1, "run only this unit index (internal)")
	fReplay  = flag.String("replay", "", "replay file")
	fList    = flag.Bool("list", false, "list units")
	fVerif   = flag.String("verif", "/verif", "verif directory")
	fSeconds = flag.Int("deadline", 0, "deadline in seconds")
)

// Verif returns the /verif directory.
func Verif() string { return *fVerif }

// Main runs the check.
func Main(c *Check) {
	flag.Parse()
	tier := *fTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	debug.SetMaxStack(256 << 20)
	switch {
	case *fList:
		i := 0
		c.Units(tier, func(key string, run func(t *T)) bool { fmt.Println(i, key); i++; return true })
	case *fWorker >= 0:
		worker(c, tier)
	case *fReplay != "":
		os.Exit(replay(c, *fReplay))
	default:
		os.Exit(supervise(c, tier))
	}
}

func loadKnown(id string) map[string]Known {
	out := map[string]Known{}
	data, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json"))
	if err != nil {
		return out
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	for _, k := range f.Findings {
		if k.Property == id {
			out[k.ID] = k
		}
	}
	return out
}

func deadlineSeconds(tier string) int {
	if *fSeconds > 0 {
		return *fSeconds
	}
	if tier == "thorough" {
		return 720
	}
	return 300
}

func worker(c *Check, tier string) {
	// A ballast (never touched, so not resident) keeps the collector from running
	// every few milliseconds on the small live heap of most checks.
	debug.SetGCPercent(300)
	ballast := make([]byte, (150-c.Less)<<20)
	defer runtime.KeepAlive(ballast)
	w, n := *fWorker, *fWorkers
	dir := *fDir
	jf, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal.%d", w)), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	jf.Truncate(4096)
	j, err := syscall.Mmap(int(jf.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	binary.LittleEndian.PutUint64(j[0:], ^uint64(0))
	if c.Setup != nil {
		if err := c.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(3)
		}
	}
	stats := &Stats{Counters: map[string]int64{}, Known: map[string]string{}, outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
	t := &T{c: c, stats: stats, known: loadKnown(c.ID), journal: j, Tier: tier}
	end := time.Now().Add(time.Duration(deadlineSeconds(tier)) * time.Second)
	idx := -1
	if pf := os.Getenv("VERIF_CPUPROFILE"); pf != "" && w == 0 {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	stats.Done = true
	c.Units(tier, func(key string, run func(t *T)) bool {
		idx++
		if *fOnly >= 0 {
			if idx < *fOnly {
				return true
			}
			if idx > *fOnly {
				return false
			}
		} else {
			if *fUpto >= 0 && idx > *fUpto {
				return false
			}
			if idx%n != w {
				return true
			}
			if *fUpto < 0 && time.Now().After(end) {
				stats.Deadline = true
				return false
			}
		}
		binary.LittleEndian.PutUint64(j[0:], uint64(idx))
		stats.Units++
		t.unit = key
		t.at = nil
		if msg, bad := runUnit(t, run); bad {
			r := report{Property: c.ID, Tier: tier, Unit: key, Index: idx, Message: msg, Worker: w, Workers: n}
			if t.at != nil {
				r.Case = safeAt(t.at)
			}
			writeJSON(filepath.Join(dir, fmt.Sprintf("violation.%d", w)), r)
			writeStats(dir, w, stats)
			os.Exit(exitViolation)
		}
		return true
	})
	writeStats(dir, w, stats)
	pprof.StopCPUProfile()
	os.Exit(0)
}

func safeAt(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("(no description: ", r, ")")
		}
	}()
	s = f()
	if len(s) > 20000 {
		s = s[:20000] + "..."
	}
	return s
}

func runUnit(t *T, run func(t *T)) (msg string, bad bool) {
	defer func() {
		if r := recover(); r != nil {
			bad = true
			if v, ok := r.(violation); ok {
				msg = v.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	run(t)
	return "", false
}

func writeStats(dir string, w int, s *Stats) {
	writeJSON(filepath.Join(dir, fmt.Sprintf("stats.%d", w)), s)
	writeHashes(filepath.Join(dir, fmt.Sprintf("outcomes.%d", w)), s.outcomes)
	writeHashes(filepath.Join(dir, fmt.Sprintf("states.%d", w)), s.states)
}

func writeHashes(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	os.WriteFile(path, b, 0o644)
}

func readHashes(path string, into map[uint64]struct{}) {
	b, _ := os.ReadFile(path)
	for i := 0; i+8 <= len(b); i += 8 {
		into[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

func writeJSON(path string, v interface{}) {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(data, '\n'), 0o644); err != nil {
		panic(err)
	}
}

type result struct {
	code   int
	hang   bool
	stderr string
	rep    *report
	last   int
	stats  *Stats
}

// runWorker starts a worker and watches its progress.
func runWorker(c *Check, dir, tier string, w, n int, limit time.Duration, extra ...string) result {
	args := []string{"-tier", tier, "-worker", strconv.Itoa(w), "-workers", strconv.Itoa(n), "-dir", dir, "-verif", *fVerif}
	if *fSeconds > 0 {
		args = append(args, "-deadline", strconv.Itoa(*fSeconds))
	}
	args = append(args, extra...)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	errFile, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr.%d", w)))
	cmd.Stderr = errFile
	cmd.Stdout = errFile
	env := os.Environ()
	env = append(env, "GOMAXPROCS=2", "GOTRACEBACK=single")
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: 0}
	os.Remove(filepath.Join(dir, fmt.Sprintf("violation.%d", w)))
	os.Remove(filepath.Join(dir, fmt.Sprintf("stats.%d", w)))
	res := result{last: -1}
	if err := cmd.Start(); err != nil {
		res.code = 3
		res.stderr = err.Error()
		return res
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	jpath := filepath.Join(dir, fmt.Sprintf("journal.%d", w))
	var lastUnit, lastProg uint64
	lastChange, lastCPU := time.Now(), time.Duration(0)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	readJ := func() (u, p uint64) {
		b, err := os.ReadFile(jpath)
		if err != nil || len(b) < 16 {
			return ^uint64(0), 0
		}
		return binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])
	}
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			u, p := readJ()
			if u != lastUnit || p != lastProg {
				lastUnit, lastProg = u, p
				lastChange, lastCPU = time.Now(), cpuTime(cmd.Process.Pid)
			} else if stuck(time.Since(lastChange), cpuTime(cmd.Process.Pid)-lastCPU, limit) {
				res.hang = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				break loop
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	errFile.Close()
	res.code = cmd.ProcessState.ExitCode()
	if u, _ := readJ(); u != ^uint64(0) {
		res.last = int(u)
	}
	b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stderr.%d", w)))
	if len(b) > 6000 {
		b = append(b[:4000], b[len(b)-2000:]...)
	}
	res.stderr = string(b)
	if data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("violation.%d", w))); err == nil {
		var r report
		if json.Unmarshal(data, &r) == nil {
			res.rep = &r
		}
	}
	if data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stats.%d", w))); err == nil {
		var s Stats
		if json.Unmarshal(data, &s) == nil {
			res.stats = &s
		}
	}
	return res
}

// stuck reports whether a worker without progress for a time hangs. One that
// computes has the whole limit of processor time, on a busy machine too.
func stuck(wall, cpu, limit time.Duration) bool {
	return wall > limit && (cpu > limit || cpu < wall/50 || wall > 4*limit)
}

// cpuTime of a running process.
func cpuTime(pid int) time.Duration {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(data[bytes.LastIndexByte(data, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	user, _ := strconv.ParseInt(f[11], 10, 64)
	sys, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(user+sys) * (time.Second / 100)
}

func hangLimit(c *Check) time.Duration {
	if c.HangSeconds > 0 {
		return time.Duration(c.HangSeconds) * time.Second
	}
	return 60 * time.Second
}

func keyOf(c *Check, tier string, idx int) string {
	i, key := -1, ""
	c.Units(tier, func(k string, run func(t *T)) bool {
		i++
		if i == idx {
			key = k
			return false
		}
		return true
	})
	return key
}

func supervise(c *Check, tier string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	n := c.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	if *fWorkers > 0 {
		n = *fWorkers
	}
	results := make([]result, n)
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[w] = runWorker(c, dir, tier, w, n, hangLimit(c))
		}()
	}
	wg.Wait()

	total := &Stats{Counters: map[string]int64{}, Known: map[string]string{}, outcomes: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
	deadline := false
	allDone := true
	for w, r := range results {
		if r.stats == nil {
			allDone = false
			continue
		}
		s := r.stats
		total.Units += s.Units
		total.Evaluations += s.Evaluations
		total.Nontrivial += s.Nontrivial
		total.Transitions += s.Transitions
		total.Traces += s.Traces
		for k, v := range s.Counters {
			total.Counters[k] += v
		}
		for k, v := range s.Known {
			total.Known[k] = v
		}
		for i, x := range s.Samples {
			if i < 3 {
				total.Samples = append(total.Samples, x)
			}
		}
		deadline = deadline || s.Deadline
		readHashes(filepath.Join(dir, fmt.Sprintf("outcomes.%d", w)), total.outcomes)
		readHashes(filepath.Join(dir, fmt.Sprintf("states.%d", w)), total.states)
	}
	total.States = int64(len(total.states))

	// Violations: lowest unit index first, for the simplest counterexample.
	type bad struct {
		w int
		r result
	}
	var bads []bad
	harness := false
	for w, r := range results {
		switch {
		case r.code == 0:
		case r.rep != nil || r.hang || r.last >= 0 && r.code != 3:
			bads = append(bads, bad{w, r})
		default:
			harness = true
			fmt.Fprintf(os.Stderr, "worker %d failed (exit %d):\n%s\n", w, r.code, r.stderr)
		}
	}
	sort.Slice(bads, func(i, j int) bool { return idxOf(bads[i].r) < idxOf(bads[j].r) })
	violations := 0
	rc := 0
	for _, b := range bads {
		rep := b.r.rep
		if rep == nil {
			rep = &report{Property: c.ID, Tier: tier, Index: b.r.last, Unit: keyOf(c, tier, b.r.last), Worker: b.w, Workers: n}
			if b.r.hang {
				rep.Message = fmt.Sprintf("no progress for %v: the code under test does not terminate", hangLimit(c))
			} else {
				rep.Message = "the process running the code under test died:\n" + b.r.stderr
			}
		}
		ok, mode := confirm(c, dir, tier, rep, b.r.hang)
		if !ok {
			fmt.Fprintf(os.Stderr, "UNCONFIRMED (not reproduced, not reported): unit %d %s: %s\n", rep.Index, rep.Unit, rep.Message)
			continue
		}
		rep.Mode = mode
		rdir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", c.ID, tier, rep.Index))
		rep.Repro = fmt.Sprintf("cd /verif && ./run.sh %s %s -replay %s", c.ID, tier, path)
		writeJSON(path, rep)
		fmt.Printf("unit: %s\ncase: %s\n%s\n", clip(rep.Unit, 2000), clip(rep.Case, 4000), clip(rep.Message, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		violations++
		rc = 1
		break
	}
	if harness && rc == 0 {
		rc = 3
	}
	exhaustive := allDone && !deadline && len(bads) == 0
	writeEvidence(c, tier, total, exhaustive, violations, time.Since(start).Seconds())
	ids := make([]string, 0, len(total.Known))
	for id := range total.Known {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if rc != 3 {
		for _, id := range ids {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, id, total.Known[id])
		}
	}
	fmt.Printf("%s %s: units=%d evaluations=%d transitions=%d states=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n", c.ID, tier,
		total.Units, total.Evaluations, total.Transitions, total.States, total.Traces, len(total.outcomes), exhaustive, time.Since(start).Seconds())
	return rc
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func idxOf(r result) int {
	if r.rep != nil {
		return r.rep.Index
	}
	return r.last
}

// confirm replays the unit alone; if it passes there every time, it replays the
// worker's sequence of units up to it.
func confirm(c *Check, dir, tier string, rep *report, hang bool) (bool, string) {
	sub := filepath.Join(dir, "confirm")
	os.MkdirAll(sub, 0o755)
	limit := hangLimit(c)
	tries := 5
	if hang {
		tries = 1
	}
	for i := 0; i < tries; i++ {
		r := runWorker(c, sub, tier, 0, 1, limit, "-only", strconv.Itoa(rep.Index))
		if r.code != 0 && r.code != 3 || r.hang {
			if r.rep != nil && rep.Case == "" {
				rep.Case, rep.Message = r.rep.Case, r.rep.Message
			}
			return true, "unit"
		}
	}
	if hang {
		return false, ""
	}
	for i := 0; i < 2; i++ {
		r := runWorker(c, sub, tier, rep.Worker, rep.Workers, limit, "-upto", strconv.Itoa(rep.Index))
		if r.code != 0 && r.code != 3 || r.hang {
			return true, "prefix"
		}
	}
	return false, ""
}

func replay(c *Check, path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rep report
	if err := json.Unmarshal(data, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	dir, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(dir)
	var r result
	if rep.Mode == "prefix" {
		r = runWorker(c, dir, rep.Tier, rep.Worker, rep.Workers, hangLimit(c), "-upto", strconv.Itoa(rep.Index))
	} else {
		r = runWorker(c, dir, rep.Tier, 0, 1, hangLimit(c), "-only", strconv.Itoa(rep.Index))
	}
	if r.rep != nil {
		fmt.Printf("unit: %s\ncase: %s\n%s\n", r.rep.Unit, r.rep.Case, r.rep.Message)
	}
	if r.code == 0 {
		fmt.Println("replay passed")
		return 0
	}
	if r.rep == nil {
		fmt.Println(r.stderr)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	return 1
}

func writeEvidence(c *Check, tier string, s *Stats, exhaustive bool, violations int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"rule":       c.Rule,
		"exhaustive": exhaustive,
		"units":      s.Units,
		"samples":    s.Samples,
		"counters":   s.Counters,
	}
	if s.Samples == nil {
		cov["samples"] = []string{}
	}
	if c.Level == "model_checking" {
		cov["states"] = s.States
		cov["transitions"] = s.Transitions
		cov["traces_validated_against_impl"] = s.Traces
		cov["distinct_outcomes"] = len(s.outcomes)
	} else {
		cov["evaluations"] = s.Evaluations
		cov["distinct_nontrivial"] = len(s.outcomes)
		if s.Nontrivial > 0 {
			cov["nontrivial_executions"] = s.Nontrivial
		}
		if s.States > 0 {
			cov["states"] = s.States
		}
		if s.Transitions > 0 {
			cov["transitions"] = s.Transitions
		}
		if s.Traces > 0 {
			cov["traces_validated_against_impl"] = s.Traces
		}
	}
	if c.Bounds != nil {
		cov["bounds"] = c.Bounds(tier)
	}
	if len(s.Known) > 0 {
		cov["known_findings"] = s.Known
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": append([]string{"Go toolchain, standard library and third-party modules behave as documented"}, c.Assumptions...),
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	writeJSON(filepath.Join(*fVerif, "evidence", c.ID+".json"), ev)
}

// Short quotes a string for reports.
func Short(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", s[:200], len(s))
	}
	return strconv.Quote(s)
}

// Join joins strings.
func Join(a []string) string { return strings.Join(a, "; ") }
