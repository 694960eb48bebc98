package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"inisim/simrt"
)

// ReplayFile is what a VIOLATION line points to.
type ReplayFile struct {
	Property  string          `json:"property"`
	Violation *Violation      `json:"violation"`
	VerifSeed uint64          `json:"verif_seed"`
	Run       int             `json:"run"`
	RunSeed   uint64          `json:"run_seed"`
	EventHash string          `json:"event_hash,omitempty"`
	Events    []string        `json:"events,omitempty"`
	Plan      json.RawMessage `json:"plan"`
	// Before lists runs to be executed first in the same process, when the failure
	// depends on state the code under test keeps between Files.
	Before   []json.RawMessage `json:"before,omitempty"`
	Original json.RawMessage   `json:"original_plan,omitempty"`
	Attempts int               `json:"minimisation_attempts,omitempty"`
}

// stats is what a worker hands to its parent.
type stats struct {
	Runs      int            `json:"runs"`
	Nontriv   int            `json:"nontriv"`
	Steps     int            `json:"steps"`
	Switches  int            `json:"switches"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	MaxTasks  int            `json:"max_tasks"`
	Samples   []json.RawMessage
	Error     string      `json:"error,omitempty"`
	Found     *ReplayFile `json:"found,omitempty"`
	EvHash    uint64      `json:"ev_hash"`
	RunHashes []uint64    `json:"run_hashes,omitempty"`
}

// RunSeed derives the seed of run i.
func RunSeed(id string, seed uint64, i int) uint64 {
	return Mix(HashString(Mix(seed), id)^Mix(uint64(i))) >> 1
}

func noLeftRaces() int { return simrt.RaceErrors() }

// execute runs a plan once. Panics of the harness itself are passed on.
func execute(prop *Property, p Plan) (*Violation, *T) {
	if c, ok := p.(Coldable); ok && c.IsCold() && !inCold {
		return Cold(prop.ID, p, "")
	}
	t := NewT()
	t.Arg = coldArg
	before := noLeftRaces()
	raceMark()
	v := prop.Run(p, t)
	if simrt.RaceBuild && noLeftRaces() > before && !t.Invalid {
		rv := raceViolation()
		if rv != nil && (v == nil || v.Class != "race") {
			v = rv
		}
	}
	if t.Invalid {
		v = nil
	}
	return v, t
}

func gcMaybe(n int) {
	if n%64 == 0 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 192<<20 {
			runtime.GC()
		}
	}
}

// WorkerArgs configure one worker process.
type WorkerArgs struct {
	Prop     *Property
	Seed     uint64
	From, To int
	Stride   int
	Tier     string
	Status   string
	HashFile string
	Deadline time.Time
	Hashes   bool
	Race     string
}

// memory keeps the garbage collector out of the way, and the process small enough
// to run several times (the race detector needs a multiple of the heap on top).
func memory() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	if simrt.RaceBuild {
		debug.SetMemoryLimit(384 << 20)
	}
	debug.SetMaxStack(128 << 20)
}

// Worker executes runs From, From+Stride, ... below To and prints stats as JSON.
func Worker(a WorkerArgs) {
	memory()
	st := &stats{Faults: map[string]int{}, Probes: map[string]int{}}
	var status *os.File
	if a.Status != "" {
		f, err := os.Create(a.Status)
		if err != nil {
			Fatal("%v", err)
		}
		status = f
	}
	hashes := map[uint64]struct{}{}
	inters := map[uint64]struct{}{}
	defer func() {
		if r := recover(); r != nil {
			st.Error = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
			st.print()
		}
	}()
	var done []int
	for i := a.From; i < a.To; i += a.Stride {
		if !a.Deadline.IsZero() && time.Now().After(a.Deadline) {
			st.Probes["cut-short-by-clock"]++
			break
		}
		if status != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
			if _, err := status.WriteAt(b[:], 0); err != nil {
				Fatal("%v", err)
			}
		}
		gcMaybe(st.Runs)
		seed := RunSeed(a.Prop.ID, a.Seed, i)
		plan := a.Prop.Gen(NewRand(seed), a.Tier)
		v, t := execute(a.Prop, plan)
		st.Runs++
		done = append(done, i)
		if t.Invalid {
			st.Error = fmt.Sprintf("generator made an invalid plan in run %d: %s", i, clip(string(encode(plan)), 300))
			break
		}
		st.Steps += t.Steps
		st.Switches += len(t.Switches)
		if t.Tasks > st.MaxTasks {
			st.MaxTasks = t.Tasks
		}
		for k, n := range t.Faults {
			st.Faults[k] += n
		}
		for k, n := range t.Probes {
			st.Probes[k] += n
		}
		if !t.Trivial {
			h := t.Hash
			if h == 0 {
				h = caseHash(plan)
			}
			hashes[Mix(h^t.Inter)] = struct{}{}
			st.Nontriv++
		}
		if t.Inter != 0 {
			inters[Mix(t.Inter)] = struct{}{}
		}
		st.EvHash = Mix(st.EvHash ^ t.EvHash ^ t.Inter ^ uint64(t.Steps))
		if a.Hashes {
			st.RunHashes = append(st.RunHashes, Mix(t.EvHash^t.Inter^uint64(t.Steps)))
		}
		if len(st.Samples) < 1 && !t.Trivial && len(encode(plan)) < 6000 && st.Runs > 3 {
			st.Samples = append(st.Samples, json.RawMessage(encode(plan)))
		}
		if v != nil {
			rf := &ReplayFile{Property: a.Prop.ID, VerifSeed: a.Seed, Run: i, RunSeed: seed, Original: encode(plan)}
			best, bv, n := Shrink(a.Prop, plan, v, t, func(p Plan) (*Violation, *T) { return execute(a.Prop, p) }, 4000, 12*time.Second)
			_, bt := execute(a.Prop, best)
			rf.Plan, rf.Violation, rf.Attempts, rf.Events = encode(best), bv, n, bt.Events
			rf.EventHash = fmt.Sprintf("%016x", bt.EvHash)
			st.Found = rf
			// Earlier runs of this process, in case the failure needs them.
			from := len(done) - 1 - 24
			if from < 0 {
				from = 0
			}
			for _, j := range done[from : len(done)-1] {
				rf.Before = append(rf.Before, encode(a.Prop.Gen(NewRand(RunSeed(a.Prop.ID, a.Seed, j)), a.Tier)))
			}
			break
		}
	}
	if a.HashFile != "" {
		writeHashes(a.HashFile, hashes)
		writeHashes(a.HashFile+".i", inters)
	}
	st.print()
}

// caseHash identifies what a plan does, leaving out its schedule, which counts by the
// interleaving it leads to.
func caseHash(p Plan) uint64 {
	sc, ok := p.(Scheduled)
	if !ok {
		return HashString(1, string(encode(p)))
	}
	c := *sc.Schedule()
	*sc.Schedule() = simrt.Config{}
	h := HashString(1, string(encode(p)))
	*sc.Schedule() = c
	return h
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeHashes(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, len(m)*8)
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	if err := os.WriteFile(path, b, 0o666); err != nil {
		Fatal("%v", err)
	}
}

func (s *stats) print() {
	b, err := json.Marshal(s)
	if err != nil {
		Fatal("%v", err)
	}
	os.Stdout.Write(append([]byte("\nRESULT "), append(b, '\n')...))
}

// Fatal ends the check with an error exit.
func Fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	os.Exit(2)
}

// ReplayRun executes a replay file in this process and prints the result as JSON.
func ReplayRun(prop *Property, path string, verbose bool) {
	memory()
	rf := readReplay(path)
	for _, b := range rf.Before {
		p, err := decode(prop, b)
		if err != nil {
			Fatal("%s: %v", path, err)
		}
		execute(prop, p)
	}
	p, err := decode(prop, rf.Plan)
	if err != nil {
		Fatal("%s: %v", path, err)
	}
	v, t := execute(prop, p)
	st := &stats{Runs: 1, Faults: t.Faults, Probes: t.Probes, EvHash: t.EvHash}
	if v != nil {
		st.Found = &ReplayFile{Violation: v, Events: t.Events, EventHash: fmt.Sprintf("%016x", t.EvHash)}
	}
	if verbose {
		for _, e := range t.Events {
			fmt.Println(e)
		}
		if v != nil {
			fmt.Printf("%s: %s\n", v.Class, v.Msg)
			for _, l := range v.Trace {
				fmt.Println(l)
			}
		}
	}
	st.print()
}

func readReplay(path string) *ReplayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		Fatal("%v", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		Fatal("%s: %v", path, err)
	}
	return rf
}

func writeReplay(path string, rf *ReplayFile) {
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		Fatal("%v", err)
	}
	if err := os.WriteFile(path, b, 0o666); err != nil {
		Fatal("%v", err)
	}
}

// Options of a check.
type Options struct {
	Self     string // this executable
	Verif    string
	Work     string
	Seed     uint64
	Tier     string
	Workers  int
	Runs     int
	MaxTime  time.Duration
	Started  time.Time
	BuildS   float64
	KnownIDs map[string]bool
	Fixed    []string
}

type workerEnd struct {
	st     *stats
	stderr string
	err    error
	status uint64
	killed bool
}

func parseResult(out []byte) *stats {
	i := bytes.LastIndex(out, []byte("\nRESULT "))
	if i < 0 {
		return nil
	}
	line := out[i+8:]
	if j := bytes.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	st := &stats{}
	if json.Unmarshal(line, st) != nil {
		return nil
	}
	return st
}

func (o *Options) env() []string {
	env := os.Environ()
	env = append(env, "GOMAXPROCS=1", "GOTRACEBACK=single", "TMPDIR=/simfs/tmp", "TZ=UTC")
	if simrt.RaceBuild {
		env = append(env, "GORACE=log_path="+filepath.Join(o.Work, "race")+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3",
			"VERIF_RACE_LOG="+filepath.Join(o.Work, "race"))
	}
	return env
}

func (o *Options) child(limit time.Duration, status string, args ...string) workerEnd {
	cmd := exec.Command(o.Self, args...)
	cmd.Env = o.env()
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	var e workerEnd
	if err := cmd.Start(); err != nil {
		e.err = err
		return e
	}
	timer := time.AfterFunc(limit, func() { e.killed = true; cmd.Process.Kill() })
	e.err = cmd.Wait()
	timer.Stop()
	e.st = parseResult(out.Bytes())
	e.stderr = errb.String()
	if status != "" {
		if b, err := os.ReadFile(status); err == nil && len(b) >= 8 {
			e.status = binary.LittleEndian.Uint64(b)
		}
	}
	return e
}

// fatalClass recognises ends of a process that the code under test can cause.
func fatalClass(stderr string) (string, string) {
	for _, m := range []string{"fatal error: stack overflow", "goroutine stack exceeds", "fatal error: concurrent map",
		"fatal error: all goroutines are asleep", "fatal error: runtime: out of memory", "out of memory",
		"fatal error: sync:", "unexpected signal", "SIGSEGV", "fatal error:"} {
		if i := strings.Index(stderr, m); i >= 0 {
			line := stderr[i:]
			if j := strings.IndexByte(line, '\n'); j >= 0 {
				line = line[:j]
			}
			return "process-death", line
		}
	}
	return "", ""
}

// Check runs a property's batch and ends the process with the verdict.
func Check(prop *Property, o Options) {
	runs := prop.Quick
	if o.Tier == "thorough" {
		runs = prop.Thorough
	}
	if o.Runs > 0 {
		runs = o.Runs
	}
	nw := o.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	if runs < nw {
		nw = runs
	}
	replays := filepath.Join(o.Verif, "replays")
	os.MkdirAll(replays, 0o777)

	known := o.checkKnown(prop, replays)

	start := time.Now()
	deadline := start.Add(o.MaxTime)
	ends := make([]workerEnd, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			status := filepath.Join(o.Work, fmt.Sprintf("status%d", w))
			ends[w] = o.child(o.MaxTime+60*time.Second, status, "worker", "-prop", prop.ID, "-seed", fmt.Sprint(o.Seed),
				"-from", fmt.Sprint(w), "-to", fmt.Sprint(runs), "-stride", fmt.Sprint(nw), "-tier", o.Tier,
				"-status", status, "-hashes", filepath.Join(o.Work, fmt.Sprintf("hash%d", w)),
				"-deadline", fmt.Sprint(deadline.UnixNano()))
		}(w)
	}
	wg.Wait()
	wall := time.Since(start)

	total := &stats{Faults: map[string]int{}, Probes: map[string]int{}}
	var found []*ReplayFile
	var trouble []string
	for w, e := range ends {
		if e.st == nil {
			class, line := fatalClass(e.stderr)
			if e.killed || class == "" || e.status == 0 {
				trouble = append(trouble, fmt.Sprintf("worker %d ended without a result (%v, run %d): %s", w, e.err, int(e.status)-1, clip(e.stderr, 3000)))
				continue
			}
			i := int(e.status) - 1
			seed := RunSeed(prop.ID, o.Seed, i)
			plan := prop.Gen(NewRand(seed), o.Tier)
			rf := &ReplayFile{Property: prop.ID, VerifSeed: o.Seed, Run: i, RunSeed: seed, Plan: encode(plan), Original: encode(plan),
				Violation: V(class, "the process died: %s", line)}
			for _, l := range Frames(e.stderr) {
				rf.Violation.Trace = append(rf.Violation.Trace, l)
			}
			found = append(found, rf)
			continue
		}
		if e.st.Error != "" {
			trouble = append(trouble, e.st.Error)
		}
		total.Runs += e.st.Runs
		total.Nontriv += e.st.Nontriv
		total.Steps += e.st.Steps
		total.Switches += e.st.Switches
		if e.st.MaxTasks > total.MaxTasks {
			total.MaxTasks = e.st.MaxTasks
		}
		for k, n := range e.st.Faults {
			total.Faults[k] += n
		}
		for k, n := range e.st.Probes {
			total.Probes[k] += n
		}
		if len(total.Samples) < 2 {
			total.Samples = append(total.Samples, e.st.Samples...)
		}
		if e.st.Found != nil {
			found = append(found, e.st.Found)
		}
	}
	sort.Slice(found, func(i, j int) bool { return len(found[i].Plan) < len(found[j].Plan) })

	var reported *ReplayFile
	path := ""
	for _, rf := range found {
		p := filepath.Join(replays, fmt.Sprintf("%s-seed%d-run%d.json", prop.ID, o.Seed, rf.Run))
		if o.confirm(prop, rf, p) {
			reported, path = rf, p
			break
		}
		trouble = append(trouble, fmt.Sprintf("run %d reported %q (%s) but its replay does not reproduce it", rf.Run, rf.Violation.Class, rf.Violation.Msg))
	}
	distinct, inter := o.union(nw)
	if runs >= 500 && reported == nil && len(found) == 0 && total.Probes["cut-short-by-clock"] == 0 {
		for _, p := range prop.Probes {
			if total.Probes[p] == 0 && total.Faults[p] == 0 {
				// With a changed /repo this may be legitimate, so it fails only while developing.
				if os.Getenv("VERIF_STRICT") != "" {
					trouble = append(trouble, "the batch never reached the condition "+p)
				} else {
					fmt.Printf("%s: note: the batch never reached the condition %s\n", prop.ID, p)
				}
			}
		}
	}
	o.evidence(prop, total, wall, distinct, inter, nw, reported, known)
	if reported != nil {
		fmt.Printf("%s: %s\n", reported.Violation.Class, reported.Violation.Msg)
		for _, l := range reported.Violation.Trace {
			fmt.Println(l)
		}
		fmt.Printf("run %d of VERIF_SEED %d, minimised in %d attempts\n", reported.Run, o.Seed, reported.Attempts)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
		os.Exit(1)
	}
	if len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, "check error:", t)
		}
		os.Exit(2)
	}
	fmt.Printf("%s: held on %d runs (%d distinct, %d interleavings, %d steps) in %.1f s\n", prop.ID, total.Runs, distinct, inter, total.Steps, wall.Seconds())
	os.Exit(0)
}

// confirm replays a failure in a fresh process, adding earlier runs only if needed.
func (o *Options) confirm(prop *Property, rf *ReplayFile, path string) bool {
	before := rf.Before
	try := func(plan json.RawMessage, b []json.RawMessage) bool {
		c := *rf
		c.Plan, c.Before = plan, b
		writeReplay(path, &c)
		e := o.child(90*time.Second, "", "replay", "-prop", prop.ID, "-file", path)
		if e.st == nil {
			class, _ := fatalClass(e.stderr)
			return class != "" && class == rf.Violation.Class
		}
		if e.st.Found == nil || e.st.Found.Violation.Class != rf.Violation.Class {
			return false
		}
		rf.Violation = e.st.Found.Violation
		rf.Events = e.st.Found.Events
		rf.EventHash = e.st.Found.EventHash
		rf.Plan, rf.Before = plan, b
		writeReplay(path, rf)
		return true
	}
	if try(rf.Plan, nil) {
		if rf.Violation.Class == "process-death" {
			o.shrinkDeath(prop, rf, path)
		}
		return true
	}
	if try(rf.Original, nil) {
		return true
	}
	for n := 1; n <= len(before)*2; n *= 2 {
		if n > len(before) {
			n = len(before)
		}
		if try(rf.Original, before[len(before)-n:]) {
			return true
		}
		if n == len(before) {
			break
		}
	}
	return false
}

// shrinkDeath minimises a plan that kills its process, one process per attempt.
func (o *Options) shrinkDeath(prop *Property, rf *ReplayFile, path string) {
	p, err := decode(prop, rf.Plan)
	if err != nil {
		return
	}
	tmp := path + ".tmp"
	defer os.Remove(tmp)
	best, bv, n := Shrink(prop, p, rf.Violation, nil, func(p Plan) (*Violation, *T) {
		writeReplay(tmp, &ReplayFile{Property: prop.ID, Plan: encode(p)})
		e := o.child(60*time.Second, "", "replay", "-prop", prop.ID, "-file", tmp)
		if e.st == nil {
			if class, line := fatalClass(e.stderr); class != "" {
				return V(class, "the process died: %s", line), nil
			}
		}
		return nil, nil
	}, 120, 25*time.Second)
	rf.Plan, rf.Attempts = encode(best), n
	rf.Violation.Msg = bv.Msg
	writeReplay(path, rf)
}

func (o *Options) union(nw int) (int, int) {
	count := func(suffix string) int {
		m := map[uint64]struct{}{}
		for w := 0; w < nw; w++ {
			b, err := os.ReadFile(filepath.Join(o.Work, fmt.Sprintf("hash%d", w)) + suffix)
			if err != nil {
				continue
			}
			for ; len(b) >= 8; b = b[8:] {
				m[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
		return len(m)
	}
	return count(""), count(".i")
}

// checkKnown runs the listed findings of a property.
func (o *Options) checkKnown(prop *Property, replays string) []string {
	if prop.Known == nil {
		return nil
	}
	var still []string
	for _, k := range prop.Known() {
		path := filepath.Join(replays, prop.ID+"-"+k.ID+".json")
		writeReplay(path, &ReplayFile{Property: prop.ID, Plan: encode(k.Plan)})
		e := o.child(90*time.Second, "", "replay", "-prop", prop.ID, "-file", path)
		if e.st == nil {
			Fatal("known finding %s: no result: %s", k.ID, clip(e.stderr, 2000))
		}
		if e.st.Found == nil {
			os.Remove(path)
			continue
		}
		if !o.KnownIDs[k.ID] {
			fmt.Printf("%s: %s\n", e.st.Found.Violation.Class, e.st.Found.Violation.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
			os.Exit(1)
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop.ID, k.ID, k.What)
		still = append(still, k.ID)
	}
	return still
}

func (o *Options) evidence(prop *Property, st *stats, wall time.Duration, distinct, inter, nw int, reported *ReplayFile, known []string) {
	perHour := 0.0
	if wall > 0 {
		perHour = float64(st.Runs) / wall.Hours()
	}
	fault := 0
	for _, n := range st.Faults {
		fault += n
	}
	var samples []interface{}
	for _, s := range st.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "no non-trivial case small enough to print")
	}
	var zero []string
	for _, p := range prop.Probes {
		if st.Probes[p] == 0 && st.Faults[p] == 0 {
			zero = append(zero, p)
		}
	}
	cov := map[string]interface{}{
		"evaluations":                st.Runs,
		"distinct_nontrivial":        distinct,
		"rule":                       prop.Rule,
		"samples":                    samples,
		"runs_per_hour":              int(perHour),
		"seeds_per_hour":             int(perHour),
		"simulated_time":             "the code has no clocks or timers; simulated time is counted in scheduler decisions",
		"simulated_steps":            st.Steps,
		"context_switches":           st.Switches,
		"distinct_interleavings":     inter,
		"interleaving_measure":       "hash over the sequence of (site, task) at which the running task changed",
		"max_tasks_in_a_run":         st.MaxTasks,
		"faults_injected":            fault,
		"fault_kinds_fired":          st.Faults,
		"probes_reached":             st.Probes,
		"probes_never_reached":       zero,
		"components_real":            prop.Real,
		"components_stubbed":         prop.Stub,
		"worker_processes":           nw,
		"race_detector":              simrt.RaceBuild,
		"known_findings_still_there": known,
		"first_run_seed":             RunSeed(prop.ID, o.Seed, 0),
	}
	if reported != nil {
		cov["violation"] = reported.Violation
	}
	ev := map[string]interface{}{
		"property": prop.ID, "tier": o.Tier, "seed": o.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(o.Started).Seconds() + o.BuildS,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		Fatal("%v", err)
	}
	dir := filepath.Join(o.Verif, "evidence")
	os.MkdirAll(dir, 0o777)
	if err := os.WriteFile(filepath.Join(dir, prop.ID+".json"), b, 0o666); err != nil {
		Fatal("%v", err)
	}
}
