package core

import (
	"fmt"
	"sort"
	"strings"

	"inisim/simrt"
)

// Plan is everything that decides one run: operations, documents, options, faults and
// schedule. It is plain data (JSON).
type Plan interface{}

// Scheduled is implemented by plans with more than one task.
type Scheduled interface {
	Schedule() *simrt.Config
}

// Violation describes how a property was broken.
type Violation struct {
	Class string   `json:"class"`
	Msg   string   `json:"message"`
	Trace []string `json:"trace,omitempty"`
}

// Known is a listed finding: a specific plan that fails on the unchanged tree.
type Known struct {
	ID   string
	What string
	Plan Plan
}

// Property is one check.
type Property struct {
	ID       string
	Gen      func(r *Rand, tier string) Plan
	New      func() Plan
	Run      func(p Plan, t *T) *Violation
	Quick    int // runs
	Thorough int
	Race     bool // needs the race-detector build
	Known    func() []Known
	Rule     string
	Real     string
	Stub     string
	MinRuns  int
	Probes   []string // conditions every sizeable batch has to reach
}

// T collects what happened in a run.
type T struct {
	Log      bool
	Events   []string
	Faults   map[string]int
	Probes   map[string]int
	Steps    int
	Hash     uint64 // identifies the case
	Inter    uint64 // identifies the interleaving
	Trivial  bool
	Invalid  bool // the plan breaks the property's own preconditions (while minimising)
	Switches []simrt.Switch
	Overflow bool
	Tasks    int
	EvHash   uint64

	Arg string `json:",omitempty"` // which part of the plan to execute, in a process of its own
	Out string `json:",omitempty"` // what that gave
}

// NewT returns an empty T.
func NewT() *T {
	return &T{Faults: map[string]int{}, Probes: map[string]int{}}
}

// Ev records an event.
func (t *T) Ev(format string, a ...interface{}) {
	if len(t.Events) < 400 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		t.EvHash = HashString(t.EvHash, s)
		t.Events = append(t.Events, s)
	}
}

// Probe counts that a condition was reached.
func (t *T) Probe(name string) { t.Probes[name]++ }

// Fault counts an injected fault.
func (t *T) Fault(name string, n int) {
	if n > 0 {
		t.Faults[name] += n
	}
}

// Discard marks the plan as outside the property.
func (t *T) Discard() *Violation {
	t.Invalid = true
	return nil
}

// V makes a violation.
func V(class, format string, a ...interface{}) *Violation {
	return &Violation{Class: class, Msg: fmt.Sprintf(format, a...)}
}

// Sim runs tasks under the scheduler and notes statistics. A wedged or panicking run is
// returned as a violation.
func (t *T) Sim(c *simrt.Config, fns ...func()) *Violation {
	o := simrt.Run(c, fns...)
	return t.Note(o)
}

// Note takes over the outcome of a simulated run.
func (t *T) Note(o *simrt.Outcome) *Violation {
	t.Steps += o.Steps
	t.Inter = Mix(t.Inter ^ o.Hash)
	if len(o.Panics) > 1 {
		t.Switches = append([]simrt.Switch(nil), o.Switches...)
		t.Overflow = t.Overflow || o.Overflow
	}
	if len(o.Panics) > t.Tasks {
		t.Tasks = len(o.Panics)
	}
	if len(o.Switches) > 0 {
		t.Probe("schedule:switches")
	}
	if o.Hang {
		return V("hang", "no end after %d steps", o.Steps)
	}
	if o.Deadlock {
		return V("deadlock", "tasks %v are blocked for ever", o.Blocked)
	}
	for i, p := range o.Panics {
		if p != nil {
			return &Violation{Class: "panic", Msg: fmt.Sprintf("task %d: panic: %v", i, p), Trace: Frames(o.Stacks[i])}
		}
	}
	return nil
}

// Seq runs one function as the only task.
func (t *T) Seq(fn func()) *Violation {
	return t.Sim(&simrt.Config{Kind: simrt.Stay, MaxSteps: 12000000}, fn)
}

// Frames extracts the function names of the code under test from a stack dump.
func Frames(stack string) []string {
	var l []string
	for _, s := range strings.Split(stack, "\n") {
		if strings.Contains(s, "go-ini/ini.") || strings.HasPrefix(s, "panic(") || strings.HasPrefix(s, "inisim/props") {
			if i := strings.LastIndexByte(s, '('); i > 0 {
				s = s[:i]
			}
			l = append(l, "  at "+s)
			if len(l) > 12 {
				break
			}
		}
	}
	return l
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
