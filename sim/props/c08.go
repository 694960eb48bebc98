package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

// c08Plan: a disk with files, a File, and saves of it, with faults and crashes.
type c08Plan struct {
	Opts    ref.Opts    `json:"opts"`
	Docs    []*ref.Doc  `json:"docs,omitempty"`
	Pretty  pretty      `json:"pretty"`
	NoLock  bool        `json:"no_lock,omitempty"`
	Big     int         `json:"big,omitempty"` // bytes of a large value
	Targets []c08Target `json:"targets"`
	Saves   []c08Save   `json:"saves"`
}

type c08Target struct {
	Mode string `json:"mode,omitempty"` // "": absent, file, readonly, dir, nodir
	Old  int    `json:"old,omitempty"`  // size of the old content
	Same bool   `json:"same,omitempty"` // the old content is the beginning of the rendering
}

type c08Save struct {
	Target int           `json:"target,omitempty"`
	Edits  []Edit        `json:"edits,omitempty"` // before it
	Plain  bool          `json:"plain,omitempty"`
	Indent string        `json:"indent,omitempty"`
	Faults []simos.Fault `json:"faults,omitempty"`
	Disk   int           `json:"disk,omitempty"` // bytes free
}

func genC08(r *core.Rand, tier string) core.Plan {
	p := &c08Plan{Opts: ref.GenOpts(r), Pretty: genPretty(r), NoLock: r.Chance(1, 5)}
	p.Opts.Loose, p.Opts.ShortCircuit = false, false
	size := 60
	if r.Chance(3, 4) {
		d := ref.GenDoc(r, p.Opts)
		if d.Apply(ref.NewEmptyModel(p.Opts)) {
			p.Docs = append(p.Docs, d)
			size += len(d.Text(p.Opts))
		}
	}
	if r.Chance(1, 60) {
		p.Big = bigSize(r)
		size += p.Big
	}
	for n := r.Range(1, 3); n > 0; n-- {
		p.Targets = append(p.Targets, c08Target{Mode: r.Pick("", "file", "file", "file", "file", "readonly", "dir", "nodir"), Old: r.Intn(size * 2), Same: r.Chance(1, 4)})
	}
	for n := r.Range(1, 6); n > 0; n-- {
		s := c08Save{Target: r.Intn(len(p.Targets)), Plain: r.Chance(1, 2), Indent: r.Pick("", "  ", "\t")}
		if s.Plain {
			s.Indent = ""
		}
		s.Edits = genEdits(r, []string{"", "s1", "s2", "s1.sub"}, []string{"a", "b", "k:y"}, 6)
		switch r.Intn(10) {
		case 0, 1:
		case 2:
			s.Disk = 1 + r.Intn(size)
		case 3, 4, 5, 6:
			s.Faults = append(s.Faults, genSaveFault(r, size))
			for r.Chance(1, 4) {
				s.Faults = append(s.Faults, genSaveFault(r, size))
			}
		default:
			f := simos.Fault{Op: "any", Nth: 1 + r.Small(7), Kind: r.Pick("crash", "crash", "crash-after"), N: r.Intn(size)}
			if r.Chance(1, 2) {
				f.Op, f.Nth = "write", 1
			}
			s.Faults = append(s.Faults, f)
			if r.Chance(1, 4) {
				s.Faults = append(s.Faults, simos.Fault{Op: "write", Nth: 1, Kind: "short", N: r.Intn(size), Sticky: r.Bool()})
			}
		}
		p.Saves = append(p.Saves, s)
	}
	return p
}

func genSaveFault(r *core.Rand, size int) simos.Fault {
	f := simos.Fault{Nth: 1 + r.Small(2), N: r.Intn(size + 1)}
	switch r.Intn(12) {
	case 0, 1:
		f.Op, f.Kind = "open", r.Pick("EACCES", "EROFS", "ENOSPC", "EMFILE", "EIO", "EDQUOT", "EISDIR", "EINTR")
	case 2:
		f.Op, f.Kind = "close", r.Pick("EIO", "ENOSPC", "EDQUOT")
	case 3, 4:
		f.Op, f.Kind = "write", "short"
	case 5:
		f.Op, f.Kind, f.Nth = "write", "EINTR", 1+r.Intn(3)
	case 6:
		f.Op, f.Kind = r.Pick("rename", "fsync", "chmod", "stat", "unlink", "truncate"), r.Pick("EIO", "ENOSPC", "EACCES")
	case 7, 8:
		f.Op, f.Kind = "write", "part-EIO"
	default:
		f.Op, f.Kind = "write", r.Pick("EIO", "ENOSPC", "EDQUOT", "EFBIG", "EROFS", "ESTALE")
	}
	f.Sticky = f.Kind != "EINTR" && r.Bool()
	return f
}

func validKernelFaults(fs []simos.Fault) bool {
	for _, x := range fs {
		if x.Nth < 1 || x.N < 0 || x.Kind == "EINTR" && x.Sticky || x.Kind == "" || x.Op == "" || x.Kind == "ENOENT" && x.Op != "read" {
			return false
		}
	}
	return true
}

// crashable runs fn as a process that may die; it tells whether it did.
func crashable(t *core.T, fn func()) (died bool, v *core.Violation) {
	v = t.Seq(func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(simos.Crash); !ok {
					panic(r)
				}
				died = true
			}
		}()
		fn()
	})
	return
}

func c08Path(i int, tg c08Target) string {
	if tg.Mode == "nodir" {
		return fmt.Sprintf("/simfs/none/t%d.ini", i)
	}
	return fmt.Sprintf("/simfs/t%d.ini", i)
}

func runC08(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c08Plan)
	o := p.Opts
	if o.Loose || o.ShortCircuit || p.Big < 0 || p.Big > 1<<20 || len(p.Targets) == 0 {
		return t.Discard()
	}
	defer p.Pretty.set()()
	args := []interface{}{[]byte(nil)}
	m := ref.NewEmptyModel(o)
	for _, d := range p.Docs {
		if d == nil || !d.Valid(o) || !d.Apply(m) {
			return t.Discard()
		}
		args = append(args, []byte(d.Text(o)))
	}
	k := simos.New()
	k.Put("/simfs/other.ini", []byte("[other]\nkeep = 1\n"))
	k.Put("/simfs/tmp/other", []byte("keep"))
	k.Put("/simfs/t0.ini.bak", []byte("backup"))
	k.Put("/simfs/t0.ini~", []byte("backup~"))
	k.Put("/simfs/t0.ini.tmp", []byte("somebody else's"))
	var f *ini.File
	var err error
	build := func(upto int) {
		if f, err = loadAll(o, args); err != nil {
			return
		}
		f.BlockMode = !p.NoLock
		setBig(f, p.Big)
		for i := 0; i <= upto && i < len(p.Saves); i++ {
			for _, e := range p.Saves[i].Edits {
				e.apply(f)
			}
		}
	}
	var first string
	if v := t.Seq(func() {
		build(-1)
		if err == nil {
			first, err = render(f, "")
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "%v", err)
	}
	for i, tg := range p.Targets {
		path := c08Path(i, tg)
		old := strings.Repeat("old line = 1\n", tg.Old/13+1)[:tg.Old%500000]
		if tg.Same && tg.Old <= len(first) {
			old = first[:tg.Old]
		}
		switch tg.Mode {
		case "":
		case "file":
			k.Put(path, []byte(old))
		case "readonly":
			k.Put(path, []byte(old))
			k.SetMode(path, 0o444)
		case "dir":
			k.Mkdir(path)
		case "nodir":
		default:
			return t.Discard()
		}
	}
	saved := 0
	for i, s := range p.Saves {
		if s.Target < 0 || s.Target >= len(p.Targets) || s.Disk < 0 || !validKernelFaults(s.Faults) || strings.Trim(s.Indent, " \t") != "" || s.Plain && s.Indent != "" {
			return t.Discard()
		}
		tg := p.Targets[s.Target]
		path := c08Path(s.Target, tg)
		bad := func(class, format string, a ...interface{}) *core.Violation {
			v := core.V(class, format, a...)
			v.Msg = fmt.Sprintf("save %d to %s (%s): %s", i+1, path, tg.Mode, v.Msg)
			if n := len(k.Log); n > 0 {
				from := n - 12
				if from < 0 {
					from = 0
				}
				for _, e := range k.Log[from:] {
					v.Trace = append(v.Trace, "  "+e.String())
				}
			}
			return v
		}
		var want, dump string
		if v := t.Seq(func() {
			for _, e := range s.Edits {
				e.apply(f)
			}
			want, err = render(f, s.Indent)
			dump = ref.DumpReal(f)
		}); v != nil {
			return v
		}
		if err != nil {
			return bad("healthy", "writing to memory failed: %v", err)
		}
		before := map[string]string{}
		for _, x := range k.List() {
			b, _ := k.Get(x)
			before[x] = string(b)
		}
		oldText, existed := before[path]
		fired := total(k.Fired)
		mark := len(k.Log)
		save := func() {
			if s.Plain {
				err = f.SaveTo(path)
			} else {
				err = f.SaveToIndent(path, s.Indent)
			}
		}
		if s.Disk > 0 {
			k.Capacity = k.Used() - len(oldText) + s.Disk
		}
		k.SetFaults(s.Faults)
		died, v := crashable(t, save)
		k.SetFaults(nil)
		k.Capacity = 0
		if v != nil {
			return v
		}
		fired = total(k.Fired) - fired
		now, exists := k.Get(path)
		for x, b := range before {
			if x == path {
				continue
			}
			if y, ok := k.Get(x); !ok || string(y) != b {
				return bad("other", "%s held %q before and holds %q (exists: %v) now", x, clip(b, 100), clip(string(y), 100), ok)
			}
		}
		partial := exists && strings.HasPrefix(want, string(now)) || exists && existed && string(now) == oldText || !exists && !existed
		t.Ev("save %d: died %v, error %v, %d of %d bytes", i, died, err, len(now), len(want))
		switch {
		case died:
			t.Probe("crash")
			if !partial {
				return bad("crash-state", "after the crash the file holds %q (exists: %v); before %q (existed: %v), saved was %q", clip(string(now), 200), exists, clip(oldText, 200), existed, clip(want, 200))
			}
			k.Restart()
			if v := t.Seq(func() { build(i) }); v != nil {
				return v
			}
		case err == nil:
			if !exists || string(now) != want {
				return bad("acknowledged", "no error, and the file holds %q (exists: %v), not %q", clip(string(now), 300), exists, clip(want, 300))
			}
			if e := swallowedClose(k.Log[mark:]); e != "" {
				return bad("close", "no error although %s", e)
			}
			saved++
			if fired > 0 {
				t.Probe("recovered")
			}
			if tg.Mode == "file" && len(oldText) > len(want) {
				t.Probe("shrunk")
			}
		default:
			if fired == 0 && tg.Mode != "dir" && tg.Mode != "nodir" && tg.Mode != "readonly" {
				return bad("spurious", "nothing failed, and yet: %v", err)
			}
			if !partial {
				return bad("failed-state", "after the error %v the file holds %q (exists: %v); before %q (existed: %v), saved was %q", err, clip(string(now), 200), exists, clip(oldText, 200), existed, clip(want, 200))
			}
			t.Probe("failed")
		}
		if !died {
			if l := k.OpenFDs(); len(l) > 0 {
				return bad("leak", "left open: %v", l)
			}
			var after string
			if v := t.Seq(func() { after = ref.DumpReal(f) }); v != nil {
				return v
			}
			if d := ref.Diff(dump, after); d != "" {
				return bad("changed", "saving changed the File: %s", d)
			}
		}
		// Once the fault is gone the save goes through.
		if died || err != nil {
			if tg.Mode == "dir" || tg.Mode == "nodir" {
				continue
			}
			if tg.Mode == "readonly" {
				k.SetMode(path, 0o644)
			}
			if v := t.Seq(save); v != nil {
				return v
			}
			now, _ := k.Get(path)
			if err != nil || string(now) != want {
				return bad("repeat", "repeated without faults: error %v, the file holds %q, not %q", err, clip(string(now), 300), clip(want, 300))
			}
			saved++
			if tg.Mode == "readonly" {
				k.SetMode(path, 0o444)
			}
		}
	}
	countFaults(t, k)
	t.Trivial = saved == 0
	return nil
}

func total(m map[string]int) int {
	n := 0
	for _, x := range m {
		n += x
	}
	return n
}

// swallowedClose finds a failed close after which nothing was written again.
func swallowedClose(log []simos.Event) string {
	fail := ""
	for _, e := range log {
		switch {
		case e.Op == "close" && e.Err != "":
			fail = e.String()
		case e.Op == "write" && e.Err == "":
			fail = ""
		}
	}
	return fail
}

func init() {
	register(&core.Property{
		ID: "C08", Gen: genC08, New: func() core.Plan { return &c08Plan{} }, Run: runC08,
		Quick: 150000, Thorough: 3000000,
		Rule:   "one case is a File made from load options, documents and edits, a simulated disk with absent, existing, read-only and impossible targets, and one to six saves with open, write and close faults, short and interrupted writes, a full disk or a process crash at any call or byte; after each save the disk is compared with what the outcome promises and a failed save is repeated; non-trivial if a save succeeded; distinct by plan",
		Real:   "all of go-ini/ini, os, io/ioutil and internal/poll on top of the simulated kernel",
		Stub:   "the kernel: files, descriptors, system calls, process death",
		Probes: []string{"crash", "failed", "recovered", "shrunk", "open:EACCES", "write:ENOSPC", "write:EIO", "write:part-EIO", "write:EINTR", "write:short", "close:EIO", "write:crash", "open:crash", "close:crash", "open:crash-after", "write:crash-after", "write:disk-full-partial"},
	})
}
