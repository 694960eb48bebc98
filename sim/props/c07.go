package props

import (
	"bytes"
	"os"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// c07Plan: a File, how it came about, and the writers it is written to.
type c07Plan struct {
	Opts   ref.Opts   `json:"opts"`
	Docs   []*ref.Doc `json:"docs,omitempty"`
	Edits  []Edit     `json:"edits,omitempty"`
	Pretty pretty     `json:"pretty"`
	NoLock bool       `json:"no_lock,omitempty"`
	Big    int        `json:"big,omitempty"` // bytes of a large value
	Writes []c07Write `json:"writes"`
}

type c07Write struct {
	Indent string        `json:"indent,omitempty"`
	Plain  bool          `json:"plain,omitempty"` // WriteTo instead of WriteToIndent
	Writer WriterPlan    `json:"writer"`
	File   bool          `json:"file,omitempty"` // an *os.File
	Faults []simos.Fault `json:"faults,omitempty"`
	Disk   int           `json:"disk,omitempty"` // capacity
}

var writerKinds = []string{"error", "error", "short", "panic", "unexpected-eof", "eof"}

func genC07(r *core.Rand, tier string) core.Plan {
	p := &c07Plan{Opts: ref.GenOpts(r), Pretty: genPretty(r), NoLock: r.Chance(1, 5)}
	p.Opts.Loose, p.Opts.ShortCircuit = false, false
	if r.Chance(1, 3) {
		p.Opts.DelimWrite = r.Pick(":", "=", "=>")
	}
	size := 40
	for n := r.Small(2); n > 0; n-- {
		d := ref.GenDoc(r, p.Opts)
		m := ref.NewEmptyModel(p.Opts)
		ok := true
		for _, x := range append(append([]*ref.Doc{}, p.Docs...), d) {
			ok = ok && x.Apply(m)
		}
		if ok {
			p.Docs = append(p.Docs, d)
			size += len(d.Text(p.Opts))
		}
	}
	p.Edits = genEdits(r, []string{"", "s1", "s2", "s1.sub", "raw"}, []string{"a", "b", "k:y", "x\"y", "c`d"}, 12)
	size += 12 * len(p.Edits)
	if r.Chance(1, 60) {
		p.Big = bigSize(r)
		size += p.Big
	}
	for n := r.Range(1, 5); n > 0; n-- {
		w := c07Write{Indent: r.Pick("", "", "  ", "\t"), Plain: r.Chance(1, 3)}
		if w.Plain {
			w.Indent = ""
		}
		if r.Chance(1, 3) {
			w.File = true
			switch r.Intn(5) {
			case 0:
				w.Disk = 1 + r.Intn(size)
			case 1:
				w.Faults = append(w.Faults, simos.Fault{Op: "write", Nth: 1, Kind: "EINTR"})
			case 2:
				w.Faults = append(w.Faults, simos.Fault{Op: "write", Nth: r.Range(1, 3), Kind: "short", N: 1 + r.Intn(size), Sticky: r.Bool()})
			case 3:
				w.Faults = append(w.Faults, simos.Fault{Op: "write", Nth: r.Range(1, 2), Kind: r.Pick("EIO", "ENOSPC", "EDQUOT", "EFBIG")})
			case 4:
				w.Faults = append(w.Faults, simos.Fault{Op: "write", Nth: 1, Kind: "short", N: 1 + r.Intn(size)}, simos.Fault{Op: "write", Nth: 2, Kind: r.Pick("EIO", "EINTR", "ENOSPC")})
			}
		} else if r.Chance(4, 5) {
			w.Writer.Kind = writerKinds[r.Intn(len(writerKinds))]
			w.Writer.Once = r.Chance(1, 3)
			w.Writer.Ext = r.Pick("", "", "string", "from", "string+from")
			w.Writer.At = r.Intn(size)
			if r.Chance(1, 3) {
				w.Writer.At = r.Intn(12)
			} else if p.Big > 0 && r.Bool() {
				w.Writer.At = r.PickInt(0, 1, 4095, 4096, 8192, 32767, 32768, 32769, 65536, p.Big)
			}
		}
		p.Writes = append(p.Writes, w)
	}
	return p
}

func runC07(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c07Plan)
	o := p.Opts
	k := simos.New()
	defer p.Pretty.set()()
	m := ref.NewEmptyModel(o)
	args := []interface{}{[]byte(nil)}
	for _, d := range p.Docs {
		if d == nil || !d.Valid(o) || !d.Apply(m) {
			return t.Discard()
		}
		args = append(args, []byte(d.Text(o)))
	}
	if o.Loose || o.ShortCircuit || p.Big < 0 || p.Big > 1<<20 {
		return t.Discard()
	}
	var f *ini.File
	var err error
	var before string
	if v := t.Seq(func() {
		if f, err = loadAll(o, args); err != nil {
			return
		}
		f.BlockMode = !p.NoLock
		for _, e := range p.Edits {
			e.apply(f)
		}
		setBig(f, p.Big)
		before = ref.DumpReal(f)
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "%v", err)
	}
	if p.Big > 0 {
		t.Probe("large")
	}
	full := 0
	for i, w := range p.Writes {
		if w.Writer.At < 0 || w.Disk < 0 || strings.Trim(w.Indent, " \t") != "" {
			return t.Discard()
		}
		for _, x := range w.Faults {
			if x.Nth < 1 || x.N < 0 || x.Op != "write" {
				return t.Discard()
			}
		}
		var want string
		if v := t.Seq(func() { want, err = render(f, w.Indent) }); v != nil {
			return v
		}
		if err != nil {
			return core.V("healthy", "writing to memory failed: %v", err)
		}
		var got []byte
		var n int64
		var pan interface{}
		var openErr, fail error
		fired := 0
		sw := &simWriter{plan: w.Writer}
		write := func(to interface{ Write([]byte) (int, error) }) {
			pan, _ = simrt.Catch(func() {
				if w.Plain {
					n, fail = f.WriteTo(to)
				} else {
					n, fail = f.WriteToIndent(to, w.Indent)
				}
			})
		}
		if w.File {
			base := len(k.Fired)
			_ = base
			if v := t.Seq(func() {
				var fd *os.File
				if fd, openErr = os.Create("/simfs/w.ini"); openErr != nil {
					return
				}
				k.SetFaults(w.Faults)
				if w.Disk > 0 {
					k.Capacity = w.Disk
				}
				write(fd)
				k.SetFaults(nil)
				k.Capacity = 0
				fd.Close()
			}); v != nil {
				return v
			}
			if openErr != nil {
				return core.V("harness", "%v", openErr)
			}
			got, _ = k.Get("/simfs/w.ini")
		} else {
			if v := t.Seq(func() { write(sw.extended()) }); v != nil {
				return v
			}
			got = sw.got
			fired = sw.fired
			t.Fault("writer:"+w.Writer.Kind, sw.fired)
		}
		bad := func(class, format string, a ...interface{}) *core.Violation {
			v := core.V(class, format, a...)
			v.Msg = "write " + itoa(i+1) + ": " + v.Msg
			return v
		}
		t.Ev("write %d: %d of %d bytes, count %d, error %v, panic %v", i, len(got), len(want), n, fail, pan)
		if !bytes.HasPrefix([]byte(want), got) {
			return bad("prefix", "the writer got %q, which is not a beginning of %q", clip(string(got), 300), clip(want, 300))
		}
		if pan != nil && (fired == 0 || w.Writer.Kind != "panic") {
			return bad("panic", "%v", pan)
		}
		if pan == nil {
			if fail == nil && string(got) != want {
				return bad("lost", "no error, but the writer accepted only %d of %d bytes", len(got), len(want))
			}
			if fired > 0 && fail == nil {
				return bad("swallowed", "the writer failed (%s) and no error was returned", w.Writer.Kind)
			}
			if n != int64(len(got)) {
				return bad("count", "the writer accepted %d bytes, the count is %d (error %v)", len(got), n, fail)
			}
			if fail != nil && fired == 0 && !w.File {
				return bad("spurious", "the writer accepted everything, and yet: %v", fail)
			}
			if fail == nil {
				full++
			}
		}
		if w.File && fail == nil && len(w.Faults) > 0 {
			t.Probe("recovered")
		}
		var after, again string
		if v := t.Seq(func() {
			after = ref.DumpReal(f)
			again, err = render(f, w.Indent)
		}); v != nil {
			return v
		}
		if d := ref.Diff(before, after); d != "" {
			return bad("changed", "writing changed the File: %s", d)
		}
		if err != nil || again != want {
			return bad("again", "the next rendering differs (error %v): %s", err, ref.Diff(want, again))
		}
		if full > 0 {
			t.Probe("complete")
		}
		if len(want) > 4096 {
			t.Probe("long")
		}
		if len(got) > 0 && len(got) < len(want) {
			t.Probe("partial")
		}
	}
	countFaults(t, k)
	t.Trivial = len(p.Writes) == 0 || before == ""
	return nil
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n >= 10 {
		return itoa(n/10) + itoa(n%10)
	}
	return string(rune('0' + n))
}

func init() {
	register(&core.Property{
		ID: "C07", Gen: genC07, New: func() core.Plan { return &c07Plan{} }, Run: runC07,
		Quick: 150000, Thorough: 3000000,
		Rule:   "one case is a File made from load options, up to two documents and up to 12 edits, and one to five writes of it to simulated writers (failing, accepting less, panicking after any number of bytes) or to files of the simulated kernel (short, interrupted and failing writes, full disk); non-trivial if the File has any content; distinct by plan",
		Real:   "all of go-ini/ini, os, bytes and io on top of the simulated kernel",
		Stub:   "the writers, the kernel's files",
		Probes: []string{"partial", "complete", "long", "large", "recovered", "writer:error", "writer:short", "writer:panic", "write:EIO", "write:EINTR", "write:short"},
	})
}
