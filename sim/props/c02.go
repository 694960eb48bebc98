package props

import (
	"reflect"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

// c02Plan: several sources, at least one of which fails.
type c02Plan struct {
	Opts    ref.Opts   `json:"opts"`
	Docs    []*ref.Doc `json:"docs"`
	Sources []Source   `json:"sources"`
	API     string     `json:"api"`
	MaxFDs  int        `json:"max_fds,omitempty"`
	Odd     int        `json:"odd,omitempty"` // the source with this number (from 1) is nothing that can be read
}

var c02APIs = []string{"LoadSources", "LoadSources", "LoadSources", "Load", "LooseLoad", "InsensitiveLoad", "ShadowLoad",
	"MapTo", "StrictMapTo", "MapToWithMapper", "StrictMapToWithMapper", "Append", "Reload"}

func apiOpts(api string, o ref.Opts) ref.Opts {
	switch api {
	case "Load", "MapTo", "StrictMapTo", "MapToWithMapper", "StrictMapToWithMapper":
		return ref.Opts{}
	case "LooseLoad":
		return ref.Opts{Loose: true}
	case "InsensitiveLoad":
		return ref.Opts{Insensitive: true}
	case "ShadowLoad":
		return ref.Opts{Shadows: true}
	}
	return o
}

func genC02(r *core.Rand, tier string) core.Plan {
	p := &c02Plan{API: c02APIs[r.Intn(len(c02APIs))]}
	p.Opts = ref.GenOpts(r)
	p.Opts.Loose = r.Chance(1, 3)
	p.Opts.ShortCircuit = r.Chance(1, 8)
	if r.Chance(1, 4) {
		p.Opts.Python, p.Opts.Nested = true, false
	}
	p.Opts = apiOpts(p.API, p.Opts)
	n := 1 + r.Small(2)
	if r.Chance(1, 25) {
		n = r.Range(4, 9)
	}
	bad := r.Intn(n)
	for i := 0; i < n; i++ {
		d := ref.GenDoc(r, p.Opts)
		p.Docs = append(p.Docs, d)
		s := genSource(r)
		if p.API == "Reload" && s.Kind != "file" {
			s = Source{Kind: "bytes"}
		}
		if i == bad {
			size := len(d.Text(p.Opts))
			if s.Kind == "bytes" {
				s = Source{Kind: "reader", Delivery: genDelivery(r)}
			}
			if p.API == "Reload" {
				s = Source{Kind: "file"}
			}
			if s.Kind == "file" {
				switch r.Intn(12) {
				case 0:
					s.Mode = "dir"
				case 1:
					s.Mode = "denied"
				case 2:
					s.Missing = true
				default:
					calls := 1
					if len(s.Faults) > 0 {
						calls = size
					}
					s.Faults = append(s.Faults, genReadFault(r, calls))
				}
			} else {
				s.Delivery.withFault(r, size)
			}
		}
		p.Sources = append(p.Sources, s)
	}
	if p.API != "Reload" && !p.Opts.ShortCircuit && r.Chance(1, 60) {
		p.Odd = 1 + bad
		p.Sources[bad] = Source{Kind: "bytes"}
	}
	return p
}

type c02Target struct {
	Name string
	N    int
	S1   struct{ K, A string }
	L    []string
	P    *c02Sub
}

type c02Sub struct{ B, C string }

func newC02Target() *c02Target {
	t := &c02Target{Name: "before", N: 77, L: []string{"x"}, P: &c02Sub{"b", "c"}}
	t.S1.K = "keep"
	return t
}

func runC02(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c02Plan)
	o := apiOpts(p.API, p.Opts)
	if p.Odd < 0 || p.Odd > len(p.Docs) || p.Odd > 0 && (p.API == "Reload" || o.ShortCircuit) {
		return t.Discard()
	}
	if len(p.Docs) == 0 || len(p.Docs) != len(p.Sources) || !reflect.DeepEqual(o, p.Opts) {
		return t.Discard()
	}
	known := false
	for _, a := range c02APIs {
		known = known || a == p.API
	}
	if !known {
		return t.Discard()
	}
	k := simos.New()
	var faults []simos.Fault
	var srcs []*liveSource
	var args []interface{}
	model := ref.NewEmptyModel(o)
	usable := true
	for i := range p.Docs {
		s := p.Sources[i]
		if !s.valid() || p.Docs[i] == nil || !p.Docs[i].Valid(o) || s.Delivery.Panic {
			return t.Discard()
		}
		for _, f := range s.Faults {
			if f.Kind == "ENOENT" && f.Op == "open" || f.Op != "read" && f.Op != "open" {
				return t.Discard()
			}
		}
		l, fl := openSource(k, i, s, p.Docs[i].Text(o), nil)
		srcs = append(srcs, l)
		faults = append(faults, fl...)
		args = append(args, l.arg())
		if p.Odd == i+1 {
			args[i] = []interface{}{42, nil, 'x', []string{"a=1"}}[i%4]
		}
		if !(s.Missing && o.Loose) || p.API == "Reload" {
			usable = p.Docs[i].Apply(model) && usable
		} else {
			model.NewSection("DEFAULT")
		}
	}
	if o.NonUnique && len(p.Docs) > 1 {
		usable = false
	}
	var f, early *ini.File
	var err error
	if p.API == "Reload" {
		// First loaded without any trouble.
		for i, l := range srcs {
			if l.path == "" && l.bytes == nil {
				return t.Discard()
			}
			if l.path != "" {
				k.Remove(l.path)
				k.Put(l.path, []byte(p.Docs[i].Text(o)))
			}
		}
		if v := t.Seq(func() { early, err = loadAll(o, args) }); v != nil {
			return v
		}
		if err != nil {
			if usable {
				return core.V("spurious", "loading failed with %v although nothing did", err)
			}
			return nil
		}
		for i, l := range srcs {
			if l.path != "" {
				k.Remove(l.path)
				openSource(k, i, p.Sources[i], l.text, nil)
			}
		}
		k.Seen = map[string]int{}
		usable = false // loading again may fail for other reasons
	}
	k.SetFaults(faults)
	target := newC02Target()
	mapped := false
	if v := t.Seq(func() {
		switch p.API {
		case "Load":
			f, err = ini.Load(args[0], args[1:]...)
		case "LooseLoad":
			f, err = ini.LooseLoad(args[0], args[1:]...)
		case "InsensitiveLoad":
			f, err = ini.InsensitiveLoad(args[0], args[1:]...)
		case "ShadowLoad":
			f, err = ini.ShadowLoad(args[0], args[1:]...)
		case "MapTo":
			mapped = true
			err = ini.MapTo(target, args[0], args[1:]...)
		case "StrictMapTo":
			mapped = true
			err = ini.StrictMapTo(target, args[0], args[1:]...)
		case "MapToWithMapper":
			mapped = true
			err = ini.MapToWithMapper(target, ini.SnackCase, args[0], args[1:]...)
		case "StrictMapToWithMapper":
			mapped = true
			err = ini.StrictMapToWithMapper(target, ini.TitleUnderscore, args[0], args[1:]...)
		case "Append":
			e := ini.Empty(o.Load())
			err = e.Append(args[0], args[1:]...)
		case "Reload":
			err = early.Reload()
		default:
			f, err = ini.LoadSources(o.Load(), args[0], args[1:]...)
		}
	}); v != nil {
		return v
	}
	countFaults(t, k)
	fired := false
	which := ""
	for i, s := range srcs {
		countReader(t, s.reader)
		if s.reader != nil && s.reader.fired > 0 {
			fired, which = true, p.Sources[i].Delivery.Err
		}
		if s.path == "" {
			continue
		}
		reached := i == 0 && p.API != "Append" || !o.ShortCircuit
		if (p.Sources[i].Mode != "" || p.Sources[i].Missing && !o.Loose) && reached && !fired {
			if k.Seen[s.path] == 0 {
				if usable {
					return core.V("not-read", "%s ended with %v without opening %s", p.API, err, s.path)
				}
			} else {
				fired, which = true, p.Sources[i].Mode+" file"
				t.Fault("open:file-"+map[bool]string{true: "missing", false: p.Sources[i].Mode}[p.Sources[i].Missing], 1)
			}
		}
	}
	for name, n := range k.Fired {
		if n > 0 && name != "read:short" && name != "read:EINTR" && name != "open:EINTR" {
			fired, which = true, name
		}
	}
	if p.Odd > 0 {
		fired, which = true, "a type that is no source"
	}
	t.Ev("%s: fault %q fired %v, error %v", p.API, which, fired, err)
	t.Trivial = !fired
	if fired {
		t.Probe("api:" + p.API)
		if err == nil {
			return core.V("swallowed", "%s returned no error although a source failed with %s", p.API, which)
		}
		if f != nil {
			return core.V("file-with-error", "%s returned a File along with error %v", p.API, err)
		}
		if mapped && !reflect.DeepEqual(target, newC02Target()) {
			return core.V("target-touched", "%s returned %v but changed its target", p.API, err)
		}
		return nil
	}
	if err != nil && usable && !mapped && p.API != "Append" && p.API != "Reload" {
		return core.V("spurious", "%s failed with %v although nothing did", p.API, err)
	}
	if err == nil && f != nil && !o.ShortCircuit && usable {
		var got string
		if v := t.Seq(func() { got = ref.DumpReal(f) }); v != nil {
			return v
		}
		if d := ref.Diff(model.Dump(), got); d != "" {
			return core.V("content", "%s", d)
		}
	}
	return nil
}

func init() {
	register(&core.Property{
		ID: "C02", Gen: genC02, New: func() core.Plan { return &c02Plan{} }, Run: runC02,
		Quick: 150000, Thorough: 4000000,
		Rule:   "one case is one to three sources made from known documents, one of which fails to open or fails at some byte, read by one of the Load, MapTo, Append or Reload functions; non-trivial if the fault fired; distinct by plan",
		Real:   "all of go-ini/ini, bufio, os and io on top of the simulated kernel",
		Stub:   "io.Reader and io.ReadCloser sources, the kernel's files",
		Probes: []string{"reader:error", "reader:unexpected-eof", "reader:timeout", "read:EIO", "read:part-EIO", "open:EMFILE", "open:EACCES", "api:LoadSources", "api:MapTo", "api:StrictMapTo", "api:Append", "api:Reload", "api:LooseLoad"},
	})
}
