package props

import (
	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

// c04Plan: several sources, some of which cannot be opened.
type c04Plan struct {
	Opts    ref.Opts   `json:"opts"`
	Docs    []*ref.Doc `json:"docs"`
	Sources []Source   `json:"sources"`
	Append  int        `json:"append"`
	Variant bool       `json:"variant,omitempty"`
	Same    []int      `json:"same,omitempty"` // Same[i] = j+1: source i is source j once more
}

// same returns which source source i really is.
func (p *c04Plan) same(i int) int {
	if i < len(p.Same) && p.Same[i] > 0 {
		return p.Same[i] - 1
	}
	return i
}

func genC04(r *core.Rand, tier string) core.Plan {
	p := &c04Plan{Opts: ref.GenOpts(r)}
	p.Opts.NonUnique = false
	p.Opts.Loose = r.Chance(1, 2)
	p.Opts.ShortCircuit = r.Chance(1, 3)
	if r.Chance(1, 5) {
		p.Variant = true
		p.Opts = ref.Opts{Loose: r.Chance(2, 3)}
	}
	n := r.Range(1, 4)
	if r.Chance(1, 15) {
		n = r.Range(5, 10)
	}
	names := []string{"k", "K", "a", "b", "c"}
	bad := r.Chance(1, 3)
	for i := 0; i < n; i++ {
		d := ref.GenDocNames(r, p.Opts, []string{"s1", "s2", "S1", "s1.sub", "DEFAULT", "default", "raw"}, names)
		p.Docs = append(p.Docs, d)
		s := genSource(r)
		if r.Chance(1, 4) {
			s = Source{Kind: "file", Missing: true}
		} else if bad && r.Chance(1, 2) {
			s = Source{Kind: "file"}
			switch r.Intn(4) {
			case 0:
				s.Mode = "dir"
			case 1:
				s.Mode = "denied"
			default:
				s.Faults = []simos.Fault{genReadFault(r, 1)}
			}
		}
		p.Sources = append(p.Sources, s)
	}
	if r.Chance(1, 5) || n > 4 && r.Chance(2, 3) {
		p.Same = make([]int, n)
		for i := 1; i < n; i++ {
			if j := r.Intn(i); r.Chance(2, 3) && p.Same[j] == 0 {
				p.Same[i] = j + 1
				if k := p.Sources[j].Kind; k == "reader" || k == "readcloser" {
					p.Sources[j] = Source{Kind: "file"}
				}
				p.Sources[j].Faults = nil
			}
		}
	}
	if o := p.Opts; !bad && r.Chance(1, 3) && !o.Shadows && !o.Nested && len(o.Raw) == 0 {
		p.Append = r.Intn(n)
		for i := 0; i < n-p.Append; i++ {
			if k := p.Sources[i].Kind; k != "file" {
				p.Sources[i] = Source{Kind: "bytes"}
			}
		}
	}
	return p
}

func runC04(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c04Plan)
	o := p.Opts
	n := len(p.Docs)
	if n == 0 || len(p.Sources) != n || p.Append < 0 || p.Append >= n || o.NonUnique ||
		p.Append > 0 && (o.Shadows || o.Nested || len(o.Raw) > 0) || p.Variant && !equalOpts(o, ref.Opts{Loose: o.Loose}) {
		return t.Discard()
	}
	k := simos.New()
	var faults []simos.Fault
	var args []interface{}
	var srcs []*liveSource
	for i := range p.Docs {
		if j := p.same(i); j != i {
			if j < 0 || j > i || p.same(j) != j || p.Sources[j].Kind != "file" && p.Sources[j].Kind != "bytes" || len(p.Sources[j].Faults) > 0 ||
				p.Append > 0 && p.Sources[j].Mode != "" {
				return t.Discard()
			}
			srcs = append(srcs, srcs[j])
			args = append(args, args[j])
			t.Probe("same-source-twice")
			continue
		}
		s := p.Sources[i]
		if !s.valid() || s.Delivery.Err != "" || s.Delivery.Panic || p.Docs[i] == nil || !p.Docs[i].Valid(o) {
			return t.Discard()
		}
		if p.Append > 0 && (s.Mode != "" || i < n-p.Append && s.Kind != "bytes" && s.Kind != "file") {
			return t.Discard() // appending reads the earlier sources again
		}
		for _, f := range s.Faults {
			if f.Kind == "ENOENT" && f.Op == "open" || f.Op != "read" && f.Op != "open" {
				return t.Discard()
			}
			if p.Append > 0 && !harmless(f) {
				return t.Discard()
			}
		}
		l, fl := openSource(k, i, s, p.Docs[i].Text(o), nil)
		srcs = append(srcs, l)
		faults = append(faults, fl...)
		args = append(args, l.arg())
	}
	k.SetFaults(faults)
	var f *ini.File
	var err error
	var got string
	early := false
	if v := t.Seq(func() {
		load := func(a []interface{}) {
			switch {
			case p.Variant && o.Loose:
				f, err = ini.LooseLoad(a[0], a[1:]...)
			case p.Variant:
				f, err = ini.Load(a[0], a[1:]...)
			default:
				f, err = loadAll(o, a)
			}
		}
		load(args[:n-p.Append])
		early = err != nil
		if err == nil && p.Append > 0 {
			err = f.Append(args[n-p.Append], args[n-p.Append+1:]...)
		}
		if err == nil {
			got = ref.DumpReal(f)
		}
	}); v != nil {
		return v
	}
	countFaults(t, k)

	// What should have come of it.
	model := ref.NewEmptyModel(o)
	why := ""
	for i := range p.Sources {
		i = p.same(i)
		s := p.Sources[i]
		missing := s.Kind == "file" && s.Missing
		if missing && o.Loose {
			model.NewSection("DEFAULT")
			t.Probe("skipped-missing")
			continue
		}
		if missing {
			why = "a missing file"
			t.Probe("missing-is-error")
		} else if s.Mode != "" {
			why = "a file that cannot be read (" + s.Mode + ")"
			t.Fault("open:"+s.Mode, 1)
		} else if srcs[i].path != "" && k.Broken[srcs[i].path] > 0 {
			why = "an injected error"
		} else if !p.Docs[i].Apply(model) {
			why = "a conflict"
		}
		if why != "" {
			break
		}
		if o.ShortCircuit {
			t.Probe("short-circuit")
			break
		}
	}
	if p.Append > 0 && why == "a conflict" {
		return nil
	}
	t.Ev("error %v, expected because of %q, early %v", err, why, early)
	if why == "a conflict" {
		return nil
	}
	if why != "" {
		if o.Loose {
			t.Probe("loose-error")
		}
		if err == nil {
			return core.V("swallowed", "no error although there is %s (loose %v)", why, o.Loose)
		}
		if f != nil && (p.Append == 0 || early) {
			return core.V("file-with-error", "a File along with error %v", err)
		}
		return nil
	}
	if err != nil {
		return core.V("spurious", "error %v although every source is there or may be skipped", err)
	}
	if d := ref.Diff(model.Dump(), got); d != "" {
		return core.V("merge", "%s", d)
	}
	if n > 1 {
		t.Probe("merged")
	}
	return nil
}

func init() {
	register(&core.Property{
		ID: "C04", Gen: genC04, New: func() core.Plan { return &c04Plan{} }, Run: runC04,
		Quick: 120000, Thorough: 4000000,
		Rule:   "one case is one to four sources made from known documents that share names, some of them missing or failing, in strict or loose mode, with or without short-circuit; compared with the merge of their meanings; distinct by plan",
		Real:   "all of go-ini/ini, bufio, os and io on top of the simulated kernel",
		Stub:   "io.Reader and io.ReadCloser sources, the kernel's files",
		Probes: []string{"skipped-missing", "missing-is-error", "same-source-twice", "short-circuit", "loose-error", "merged", "open:dir", "open:denied", "open:EACCES", "read:EIO"},
	})
}
