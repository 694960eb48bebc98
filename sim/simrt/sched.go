// Package simrt is the simulator's scheduler. Instrumented code calls Yield before
// every statement; exactly one task runs at a time and every choice of who runs next
// is a function of the run's seed or of a recorded list of switches.
//
// The state below is touched only in functions exempt from race instrumentation, and
// tasks hand over to each other with synchronisation hidden from the race detector,
// so that a race build sees only the synchronisation of the code under test.
package simrt

import (
	"fmt"
	"runtime/debug"
	"sync"
)

// MaxTasks is the largest number of tasks in one run, spawned ones included.
const MaxTasks = 24

// Switch records that at decision number Step the scheduler ran Task instead of the
// default (the running task, or else the runnable one with the lowest number).
type Switch struct {
	Step int32 `json:"s"`
	Task int32 `json:"t"`
}

// Kinds of scheduling strategies.
const (
	Stay   = iota // never switch unless the running task blocks or ends
	Random        // switch with probability P/1024 at each decision
	PCT           // random priorities with a few priority changes
	Sites         // switch often, but only at a random subset of the code's sites
	Replay        // follow recorded switches
)

// Config decides the schedule of one run.
type Config struct {
	Kind     int      `json:"kind"`
	Seed     uint64   `json:"seed,omitempty"`
	P        int      `json:"p,omitempty"`       // Random: in 1/1024; Sites: one site in P
	Changes  int      `json:"changes,omitempty"` // PCT: number of priority changes
	Horizon  int      `json:"horizon,omitempty"` // PCT: changes happen within so many decisions
	Switches []Switch `json:"switches,omitempty"`
	MaxSteps int      `json:"max_steps,omitempty"`
}

// Outcome of a run.
type Outcome struct {
	Steps    int
	Switches []Switch
	Overflow bool // too many switches to record
	Deadlock bool
	Hang     bool
	Blocked  []int         // tasks blocked at the deadlock
	Panics   []interface{} // per task: value of a panic that ended it
	Stacks   []string
	Hash     uint64 // of the sequence of (task, site) at switches
}

// Wedged tells whether the run was cut short by a deadlock or the step limit.
func (o *Outcome) Wedged() bool { return o.Deadlock || o.Hang }

// Abort is the panic value with which tasks are unwound when a run is cut short.
type Abort struct{}

const (
	stFree = iota
	stRunnable
	stBlocked
	stDone
)

type task struct {
	state    int8
	unwound  bool
	wake     chan struct{}
	prio     uint64
	panicked interface{}
	stack    string
}

const maxRec = 1 << 15

var (
	active   bool
	aborting bool
	deadlock bool
	hang     bool
	cur      int
	ntasks   int
	tasks    [MaxTasks]task
	steps    int
	maxSteps int
	same     int // decisions since the last switch
	rec      [maxRec]Switch
	nrec     int
	overflow bool
	kind     int
	prob     uint64
	siteMod  uint64
	rng      uint64
	salt     uint64
	changes  [16]int
	nchanges int
	lowPrio  uint64
	replay   [maxRec]Switch
	nreplay  int
	ireplay  int
	seq      int64
	hash     uint64
	blocked  [MaxTasks]bool
	epoch    int
	done     *sync.WaitGroup
)

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	return mix(rng)
}

// Active tells whether a run is going on.
//
//go:norace
func Active() bool { return active }

// Aborting tells whether the run is being cut short.
//
//go:norace
func Aborting() bool { return aborting }

// Cur returns the number of the running task.
//
//go:norace
func Cur() int { return cur }

// Epoch returns the number of runs started so far.
//
//go:norace
func Epoch() int { return epoch }

// Steps returns the number of decisions taken in this run.
//
//go:norace
func Steps() int { return steps }

// NextSeq returns the next event sequence number of this run.
//
//go:norace
func NextSeq() int64 {
	seq++
	return seq
}

// Yield is a scheduling point.
//
//go:norace
func Yield(site uint32) {
	if !active || aborting {
		return
	}
	next := decide(site, false)
	if next != cur {
		switchTo(next)
	}
}

// Gosched is a scheduling point at which another runnable task is preferred.
//
//go:norace
func Gosched() {
	if !active || aborting {
		return
	}
	same = 1 << 20
	next := decide(1<<30, false)
	if next != cur {
		switchTo(next)
	}
}

// Sleep stands for time.Sleep: simulated time has no meaning here but that others may run.
func Sleep(d int64) { Gosched() }

//go:norace
func anyRunnable(except int) bool {
	for i := 0; i < ntasks; i++ {
		if i != except && tasks[i].state == stRunnable {
			return true
		}
	}
	return false
}

// decide picks the task to run next; -1 if none can run.
//
//go:norace
func decide(site uint32, must bool) int {
	steps++
	if steps > maxSteps {
		abort(true)
		if must {
			return firstRunnable()
		}
		tasks[cur].unwound = true
		panic(Abort{})
	}
	def := cur
	if must || tasks[cur].state != stRunnable {
		def = firstRunnable()
		if def < 0 {
			return -1
		}
	}
	choice := def
	same++
	if anyRunnable(def) {
		switch kind {
		case Random:
			if must || rnd()&1023 < prob {
				choice = pick()
			}
		case Sites:
			if must || (mix(uint64(site)^salt)%siteMod == 0 && rnd()&1 == 0) {
				choice = pick()
			}
		case PCT:
			for i := 0; i < nchanges; i++ {
				if changes[i] == steps {
					lowPrio--
					tasks[def].prio = lowPrio
				}
			}
			choice = topPrio()
		case Replay:
			for ireplay < nreplay && int(replay[ireplay].Step) < steps {
				ireplay++
			}
			if ireplay < nreplay && int(replay[ireplay].Step) == steps {
				t := int(replay[ireplay].Task)
				if t >= 0 && t < ntasks && tasks[t].state == stRunnable {
					choice = t
				}
			}
		}
		if same > 20000 && choice == cur {
			// Fairness: spinning tasks cannot keep others from running for ever.
			for i := 1; i <= ntasks; i++ {
				t := (cur + i) % ntasks
				if tasks[t].state == stRunnable {
					choice = t
					break
				}
			}
			if kind == PCT {
				lowPrio--
				tasks[cur].prio = lowPrio
			}
		}
	}
	if choice != def {
		if nrec < maxRec {
			rec[nrec] = Switch{int32(steps), int32(choice)}
			nrec++
		} else {
			overflow = true
		}
	}
	if choice != cur {
		same = 0
		hash = mix(hash ^ uint64(site)<<8 ^ uint64(choice))
	}
	return choice
}

//go:norace
func firstRunnable() int {
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			return i
		}
	}
	return -1
}

//go:norace
func pick() int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			n++
		}
	}
	k := int(rnd() % uint64(n))
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func topPrio() int {
	best := -1
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable && (best < 0 || tasks[i].prio > tasks[best].prio) {
			best = i
		}
	}
	return best
}

//go:norace
func abort(isHang bool) {
	aborting = true
	if isHang {
		hang = true
	} else {
		deadlock = true
	}
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked {
			blocked[i] = true
			tasks[i].state = stRunnable
		}
	}
}

//go:norace
func switchTo(next int) {
	me := cur
	cur = next
	raceOff()
	tasks[next].wake <- struct{}{}
	<-tasks[me].wake
	raceOn()
	if aborting && !tasks[me].unwound {
		tasks[me].unwound = true
		panic(Abort{})
	}
}

// Block suspends the running task until another one calls Wake for it.
//
//go:norace
func Block() {
	if !active {
		panic("simrt: blocked outside a run")
	}
	if aborting {
		return
	}
	tasks[cur].state = stBlocked
	next := decide(1<<31, true)
	if next < 0 {
		abort(false)
		tasks[cur].unwound = true
		panic(Abort{})
	}
	if aborting && next == cur {
		tasks[cur].unwound = true
		panic(Abort{})
	}
	if next != cur {
		switchTo(next)
	}
}

// Wake makes a blocked task runnable.
//
//go:norace
func Wake(id int) {
	if tasks[id].state == stBlocked {
		tasks[id].state = stRunnable
	}
}

//go:norace
func finish(me int) {
	tasks[me].state = stDone
	next := firstRunnable()
	if !aborting {
		next = decide(1<<29, true)
	}
	if next < 0 {
		left := false
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stBlocked {
				left = true
			}
		}
		if !left {
			return
		}
		abort(false)
		next = firstRunnable()
	}
	cur = next
	raceOff()
	tasks[next].wake <- struct{}{}
	raceOn()
}

//go:norace
func await(me int) {
	raceOff()
	<-tasks[me].wake
	raceOn()
}

//go:norace
func setPanic(me int, v interface{}, stack string) {
	tasks[me].panicked = v
	tasks[me].stack = stack
}

func body(me int, fn func(), wg *sync.WaitGroup) {
	defer wg.Done()
	defer finish(me)
	await(me)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Abort); !ok {
				setPanic(me, r, string(debug.Stack()))
			}
		}
	}()
	if !Aborting() {
		fn()
	}
}

//go:norace
func newTask() int {
	if ntasks >= MaxTasks {
		panic("simrt: too many tasks")
	}
	id := ntasks
	ntasks++
	t := &tasks[id]
	if t.wake == nil {
		t.wake = make(chan struct{}, 1)
	}
	t.state = stRunnable
	t.unwound = false
	t.panicked = nil
	t.stack = ""
	t.prio = rnd() | 1<<63
	return id
}

// Go starts fn as a new task of the run.
func Go(fn func()) {
	if !Active() {
		go fn()
		return
	}
	if Aborting() {
		return
	}
	id := newTask()
	done.Add(1)
	go body(id, fn, done)
	Yield(1 << 28)
}

//go:norace
func begin(c *Config) {
	if active {
		panic("simrt: nested run")
	}
	epoch++
	aborting, deadlock, hang, overflow = false, false, false, false
	ntasks, steps, same, nrec, ireplay, nreplay, nchanges = 0, 0, 0, 0, 0, 0, 0
	seq, hash = 0, 0
	maxSteps = c.MaxSteps
	if maxSteps == 0 {
		maxSteps = 400000
	}
	kind = c.Kind
	rng = mix(c.Seed)
	salt = rnd()
	prob = uint64(c.P)
	siteMod = uint64(c.P)
	if siteMod == 0 {
		siteMod = 1
	}
	lowPrio = 1 << 62
	if kind == PCT {
		h := c.Horizon
		if h < 1 {
			h = 1
		}
		for i := 0; i < c.Changes && i < len(changes); i++ {
			changes[i] = 1 + int(rnd()%uint64(h))
			nchanges++
		}
	}
	if kind == Replay {
		for i := 0; i < len(c.Switches) && i < maxRec; i++ {
			replay[i] = c.Switches[i]
			nreplay++
		}
	}
	for i := range blocked {
		blocked[i] = false
	}
	MapSalt = mix(c.Seed ^ 0x5bd1e995)
}

//go:norace
func start() int {
	active = true
	cur = 0
	first := 0
	if ntasks > 1 {
		tasks[0].state = stRunnable
		first = decide(1<<27, false)
	}
	cur = first
	return first
}

//go:norace
func collect(o *Outcome, n int) {
	active = false
	o.Steps = steps
	o.Deadlock = deadlock
	o.Hang = hang
	o.Overflow = overflow
	o.Hash = hash
	o.Switches = make([]Switch, nrec)
	for i := 0; i < nrec; i++ {
		o.Switches[i] = rec[i]
	}
	o.Panics = make([]interface{}, ntasks)
	o.Stacks = make([]string, ntasks)
	for i := 0; i < ntasks; i++ {
		o.Panics[i] = tasks[i].panicked
		o.Stacks[i] = tasks[i].stack
		if blocked[i] {
			o.Blocked = append(o.Blocked, i)
		}
	}
}

// Run executes the given tasks under the schedule c and returns when all have ended.
func Run(c *Config, fns ...func()) *Outcome {
	begin(c)
	wg := &sync.WaitGroup{}
	done = wg
	ids := make([]int, len(fns))
	for i := range fns {
		ids[i] = newTask()
	}
	for i, fn := range fns {
		wg.Add(1)
		go body(ids[i], fn, wg)
	}
	first := start()
	kick(first)
	wg.Wait()
	o := &Outcome{}
	collect(o, len(fns))
	return o
}

//go:norace
func kick(first int) {
	raceOff()
	tasks[first].wake <- struct{}{}
	raceOn()
}

// Catch runs fn and returns the value of a panic, if any. Panics with which the
// simulator unwinds tasks are passed on.
func Catch(fn func()) (val interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Abort); ok {
				panic(r)
			}
			if p, ok := r.(interface{ SimPassOn() }); ok {
				panic(p)
			}
			val = r
			stack = string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

func (o *Outcome) String() string {
	return fmt.Sprintf("steps=%d switches=%d deadlock=%v hang=%v blocked=%v", o.Steps, len(o.Switches), o.Deadlock, o.Hang, o.Blocked)
}
