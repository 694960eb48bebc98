package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// c03Plan: sources that may be damaged, fail or panic, loaded and then reloaded.
type c03Plan struct {
	Opts    ref.Opts   `json:"opts"`
	Docs    []*ref.Doc `json:"docs"`
	Damage  [][]Damage `json:"damage"`
	Sources []Source   `json:"sources"`
	Append  int        `json:"append"` // so many of the sources are appended afterwards
	Reloads int        `json:"reloads"`
	Share   bool       `json:"share,omitempty"` // byte slices have spare capacity
}

func genC03(r *core.Rand, tier string) core.Plan {
	p := &c03Plan{Opts: ref.GenOpts(r), Share: r.Bool()}
	p.Opts.Loose = r.Chance(1, 2)
	p.Opts.ShortCircuit = r.Chance(1, 3)
	n := r.Range(1, 4)
	if r.Chance(1, 20) {
		n = r.Range(5, 10)
	}
	for i := 0; i < n; i++ {
		d := ref.GenDoc(r, p.Opts)
		p.Docs = append(p.Docs, d)
		size := len(d.Text(p.Opts))
		s := genSource(r)
		var dm []Damage
		switch r.Intn(6) {
		case 0:
			for k := 1 + r.Small(3); k > 0; k-- {
				dm = append(dm, genDamage(r, size))
			}
		case 1:
			switch s.Kind {
			case "file":
				switch r.Intn(6) {
				case 0:
					s.Mode = "dir"
				case 1:
					s.Mode = "denied"
				case 2, 3:
					s.Missing = true
				default:
					s.Faults = append(s.Faults, genReadFault(r, 1))
				}
			case "bytes":
			default:
				if r.Chance(1, 3) {
					s.Delivery.Panic, s.Delivery.At = true, r.Intn(size+1)
				} else {
					s.Delivery.withFault(r, size)
				}
			}
		case 2:
			if s.Kind == "file" {
				s.Faults = append(s.Faults, simos.Fault{Op: "close", Nth: 1, Kind: r.Pick("EIO", "EINTR")})
			}
		}
		p.Damage = append(p.Damage, dm)
		p.Sources = append(p.Sources, s)
	}
	p.Append = r.Intn(n)
	if r.Chance(1, 2) {
		p.Reloads = r.Range(1, 2)
	}
	return p
}

func runC03(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c03Plan)
	n := len(p.Docs)
	if n == 0 || len(p.Sources) != n || len(p.Damage) != n || p.Append < 0 || p.Append >= n || p.Reloads < 0 || p.Reloads > 3 {
		return t.Discard()
	}
	k := simos.New()
	log := &opLog{}
	var srcs []*liveSource
	var faults []simos.Fault
	var args []interface{}
	var copies [][]byte
	for i := range p.Docs {
		if !p.Sources[i].valid() || p.Docs[i] == nil || !p.Docs[i].Valid(p.Opts) {
			return t.Discard()
		}
		text := []byte(p.Docs[i].Text(p.Opts))
		for _, d := range p.Damage[i] {
			text = d.apply(text)
		}
		l, fl := openSource(k, i, p.Sources[i], string(text), log)
		if l.bytes != nil && p.Share {
			big := make([]byte, len(l.bytes)+64)
			copy(big, l.bytes)
			for j := len(l.bytes); j < len(big); j++ {
				big[j] = '!'
			}
			l.bytes = big[:len(l.bytes)]
		}
		if len(p.Damage[i]) > 0 && !p.Sources[i].Missing {
			// A source that is malformed by itself ends the call, too.
			var aloneErr error
			if v := t.Seq(func() { _, aloneErr = ini.LoadSources(p.Opts.Load(), []byte(string(text))) }); v != nil {
				return v
			}
			if l.malformed = aloneErr != nil; l.malformed {
				t.Probe("malformed")
			}
		}
		copies = append(copies, append([]byte(nil), l.bytes[:cap(l.bytes)]...))
		srcs = append(srcs, l)
		faults = append(faults, fl...)
		args = append(args, l.arg())
	}
	k.SetFaults(faults)
	var f *ini.File
	first := args[:n-p.Append]
	rest := args[n-p.Append:]
	calls := 1 + p.Reloads
	if p.Append > 0 {
		calls++
	}
	for c := 0; c < calls; c++ {
		var err error
		var pan interface{}
		log.ops = nil
		k.Opened, k.Closed, k.Seen, k.Broken = nil, nil, map[string]int{}, map[string]int{}
		for _, s := range srcs {
			if s.reader != nil {
				s.reader.closes, s.reader.late = 0, false
				s.reader.off, s.reader.n, s.reader.fired = s.plan.Skip, 0, 0
			}
		}
		name := "load"
		part := srcs[:n-p.Append]
		v := t.Seq(func() {
			pan, _ = simrt.Catch(func() {
				switch {
				case c == 0:
					f, err = loadAll(p.Opts, first)
				case c == 1 && p.Append > 0:
					name = "append"
					err = f.Append(rest[0], rest[1:]...)
				default:
					name = "reload"
					err = f.Reload()
				}
			})
		})
		if v != nil {
			return v
		}
		if c > 0 && p.Append > 0 {
			part = srcs
		}
		t.Ev("%s: err=%v panic=%v", name, err, pan)
		t.Probe("call:" + name)
		if v := c03Check(p, k, log, srcs, part, err, pan, name, t); v != nil {
			return v
		}
		for i, s := range srcs {
			if s.bytes != nil && !bytes.Equal(s.bytes[:cap(s.bytes)], copies[i]) {
				return core.V("bytes-modified", "%s changed the byte slice of source %d", name, i)
			}
		}
		countFaults(t, k)
		k.Fired = map[string]int{}
		for _, s := range srcs {
			countReader(t, s.reader)
		}
		if f == nil {
			break
		}
	}
	return nil
}

// c03Check looks at what one call did to the sources.
func c03Check(p *c03Plan, k *simos.Kernel, log *opLog, all, part []*liveSource, err error, pan interface{}, name string, t *core.T) *core.Violation {
	if l := k.OpenFDs(); len(l) > 0 {
		return core.V("fd-leak", "after the %s (error %v, panic %v) these files are open: %v", name, err, pan, l)
	}
	opened := map[string]int{}
	for _, f := range k.Opened {
		opened[f]++
	}
	// The order in which sources were first used.
	at := -1
	for _, f := range k.Opened {
		for i, s := range all {
			if s.path == f {
				if i <= at {
					return core.V("order", "%s opened source %d after source %d, files in order %v", name, i, at, k.Opened)
				}
				at = i
			}
		}
	}
	at = -1
	closed := map[int]int{}
	for _, o := range log.ops {
		switch {
		case o.src < at:
			return core.V("order", "%s used source %d after source %d", name, o.src, at)
		case o.src > at && at >= 0 && closed[at] == 0 && all[at].plan.Kind == "readcloser":
			return core.V("overlap", "%s read source %d before it closed source %d", name, o.src, at)
		}
		at = o.src
		if o.what == "close" {
			closed[o.src]++
		}
	}
	last := -1 // the last source the call reached
	for i, s := range part {
		if s.reader != nil {
			for _, o := range log.ops {
				if o.src == i {
					last = i
				}
			}
		}
		if s.path != "" && k.Seen[s.path] > 0 {
			last = i
		}
	}
	used := 0
	for i, s := range all {
		inPart := i < len(part)
		touched := false
		if s.reader != nil {
			for _, o := range log.ops {
				touched = touched || o.src == i
			}
			if s.reader.closes > 1 {
				return core.V("double-close", "%s closed source %d %d times", name, i, s.reader.closes)
			}
			if s.reader.late {
				return core.V("late-read", "%s read source %d after closing it", name, i)
			}
			if touched && s.plan.Kind == "readcloser" && s.reader.closes != 1 {
				return core.V("not-closed", "%s read source %d but closed it %d times (error %v, panic %v)", name, i, s.reader.closes, err, pan)
			}
		}
		if s.path != "" {
			touched = k.Seen[s.path] > 0
			if opened[s.path] > 1 {
				return core.V("reopened", "%s opened %s %d times", name, s.path, opened[s.path])
			}
		}
		if touched && !inPart {
			return core.V("foreign-source", "%s touched source %d, which it was not given", name, i)
		}
		if touched {
			used++
			t.Probe("touched:" + s.plan.Kind)
		}
	}
	// What has to be reached, and what must not be.
	stop := len(part)
	why := ""
	for i, s := range part {
		bad := false
		switch {
		case s.path != "" && (s.plan.Mode != "" || s.plan.Missing && !p.Opts.Loose):
			bad = true
		case s.reader != nil && s.reader.fired > 0, s.path != "" && k.Broken[s.path] > 0, s.malformed:
			bad = true
		}
		if bad {
			stop, why = i+1, "failed"
			break
		}
		if p.Opts.ShortCircuit && !(s.path != "" && s.plan.Missing) {
			stop, why = i+1, "short-circuited"
			break
		}
	}
	if last >= stop {
		return core.V("touched-after-end", "%s touched source %d although source %d had %s", name, last, stop-1, why)
	}
	if why != "" {
		t.Probe("stopped:" + why)
	}
	if err == nil && pan == nil {
		for i, s := range part[:stop] {
			seen := s.bytes != nil || s.path != "" && k.Seen[s.path] > 0
			if s.reader != nil {
				seen = len(s.reader.data) == s.reader.off
				// The end has to have been seen.
			}
			if !seen {
				return core.V("not-read", "%s succeeded without reading source %d to its end", name, i)
			}
		}
	}
	if pan != nil && (len(log.ops) == 0 || !strings.Contains(fmt.Sprint(pan), errSim.Error())) {
		return core.V("panic", "%s panicked: %v", name, pan)
	}
	t.Trivial = t.Trivial && used == 0
	return nil
}

func init() {
	register(&core.Property{
		ID: "C03", Gen: genC03, New: func() core.Plan { return &c03Plan{} }, Run: runC03,
		Quick: 150000, Thorough: 4000000,
		Rule:   "one case is one to four sources (some damaged, missing, denied, failing or panicking) that are loaded, appended and reloaded, with the descriptor table and the reader calls checked after each call; distinct by plan",
		Real:   "all of go-ini/ini, bufio, os and io on top of the simulated kernel",
		Stub:   "io.Reader and io.ReadCloser sources, the kernel's files and descriptor table",
		Probes: []string{"reader:panic", "reader:error", "close:EIO", "read:EIO", "malformed", "call:append", "call:reload", "stopped:failed", "stopped:short-circuited", "touched:file", "touched:readcloser"},
	})
}
