package props

import (
	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

type c01Plan struct {
	Opts   ref.Opts `json:"opts"`
	Doc    *ref.Doc `json:"doc"`
	Damage []Damage `json:"damage,omitempty"`
	Ways   []c01Way `json:"ways"`
}

type c01Way struct {
	Source Source `json:"source"`
	Buf    int    `json:"buf,omitempty"`
	Via    string `json:"via,omitempty"` // "", append, reload, variant
}

func genC01(r *core.Rand, tier string) core.Plan {
	p := &c01Plan{Opts: ref.GenOpts(r)}
	p.Doc = ref.GenDoc(r, p.Opts)
	if r.Chance(1, 250) {
		p.Doc.Lengthen(r, p.Opts)
	}
	if r.Chance(1, 4) {
		n := len(p.Doc.Text(p.Opts))
		for k := 1 + r.Small(4); k > 0; k-- {
			p.Damage = append(p.Damage, genDamage(r, n))
		}
	}
	for n := r.Range(2, 4); n > 0; n-- {
		w := c01Way{Source: genSource(r), Buf: p.Opts.BufSize}
		if r.Chance(1, 10) {
			w.Source = Source{Kind: r.Pick("buffer", "strings", "bufio", "osfile", "osfile"), Skip: r.PickInt(0, 0, 1, 7, 100)}
			if w.Source.Kind == "osfile" && r.Bool() {
				w.Source.Faults = append(w.Source.Faults, simos.Fault{Op: "read", Nth: 1, Kind: "short", N: r.PickInt(1, 2, 7, 100), Sticky: true})
			}
		}
		if r.Chance(1, 3) {
			w.Buf = r.PickInt(0, 1, 4096, 4097, 4100, 5000, 9000, 100000)
		}
		switch r.Intn(6) {
		case 0:
			w.Via = "append"
		case 1:
			if w.Source.Kind == "bytes" || w.Source.Kind == "file" {
				w.Via = "reload"
			}
		case 2:
			w.Via = "variant"
		}
		if w.Via == "reload" {
			// A reload of these adds to what is there.
			o := p.Opts
			if o.Nested || o.Shadows || o.NonUnique || len(o.Raw) > 0 {
				w.Via = ""
			}
		}
		if w.Via == "append" && p.Opts.NonUnique {
			w.Via = ""
		}
		p.Ways = append(p.Ways, w)
	}
	return p
}

// loadWay loads one source with the given function.
func loadWay(o ref.Opts, via string, arg interface{}) (f *ini.File, err error) {
	switch via {
	case "append":
		f = ini.Empty(o.Load())
		if err = f.Append(arg); err != nil {
			return nil, err
		}
		return f, nil
	case "reload":
		if f, err = ini.LoadSources(o.Load(), arg); err != nil {
			return nil, err
		}
		if err = f.Reload(); err != nil {
			return nil, err
		}
		return f, nil
	case "variant":
		o.BufSize = 0
		only := func(p ref.Opts) bool { return sameOpts(o, p) }
		switch {
		case only(ref.Opts{}):
			return ini.Load(arg)
		case only(ref.Opts{Loose: true}):
			return ini.LooseLoad(arg)
		case only(ref.Opts{Insensitive: true}):
			return ini.InsensitiveLoad(arg)
		case only(ref.Opts{Shadows: true}):
			return ini.ShadowLoad(arg)
		}
	}
	return ini.LoadSources(o.Load(), arg)
}

func sameOpts(a, b ref.Opts) bool {
	if len(a.Raw) > 0 || len(b.Raw) > 0 {
		return false
	}
	a.Raw, b.Raw = nil, nil
	a.Debug, b.Debug = false, false
	return equalOpts(a, b)
}

func runC01(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c01Plan)
	if p.Doc == nil || len(p.Ways) == 0 || !p.Doc.Valid(p.Opts) {
		return t.Discard()
	}
	for _, w := range p.Ways {
		if !w.Source.valid() || w.Source.Missing || w.Source.Mode != "" || w.Source.Delivery.Err != "" || w.Source.Delivery.Panic {
			return t.Discard()
		}
		o := p.Opts
		if w.Via == "reload" && (o.Nested || o.Shadows || o.NonUnique || len(o.Raw) > 0 || w.Source.Kind != "bytes" && w.Source.Kind != "file") ||
			w.Via == "append" && o.NonUnique {
			return t.Discard()
		}
		for _, f := range w.Source.Faults {
			if !harmless(f) {
				return t.Discard()
			}
		}
	}
	model := ref.NewEmptyModel(p.Opts)
	p.Doc.Apply(model)
	text := p.Doc.Text(p.Opts)
	want, wantErr := model.Dump(), false
	damaged := len(p.Damage) > 0
	if damaged {
		b := []byte(text)
		for _, d := range p.Damage {
			b = d.apply(b)
		}
		text = string(b)
		t.Probe("malformed-document")
		t.Fault("media:damaged", len(p.Damage))
	}
	t.Trivial = len(text) == 0
	for i, w := range p.Ways {
		k := simos.New()
		src, faults := openSource(k, 0, w.Source, text, nil)
		k.SetFaults(faults)
		o := p.Opts
		o.BufSize = w.Buf
		var f *ini.File
		var err error
		var got string
		if v := t.Seq(func() {
			f, err = loadWay(o, w.Via, src.arg())
			if err == nil {
				got = ref.DumpReal(f)
			}
		}); v != nil {
			return v
		}
		if l := k.OpenFDs(); len(l) > 0 {
			return core.V("leak", "left open: %v", l)
		}
		countFaults(t, k)
		countReader(t, src.reader)
		t.Probe("source:" + w.Source.Kind)
		t.Ev("%s via %q: err=%v", w.Source.Kind, w.Via, err)
		if damaged {
			if i == 0 {
				want, wantErr = got, err != nil
				if !wantErr {
					t.Probe("malformed-but-accepted")
				}
				continue
			}
			if (err != nil) != wantErr {
				return core.V("delivery", "delivered as %s %v: error %v; but delivered as %s %v: error is %v", w.Source.Kind, w.Source, err, p.Ways[0].Source.Kind, p.Ways[0].Source, wantErr)
			}
			if d := ref.Diff(want, got); d != "" {
				return core.V("delivery", "content depends on delivery (%s %v, not %s %v): %s", w.Source.Kind, w.Source, p.Ways[0].Source.Kind, p.Ways[0].Source, d)
			}
			continue
		}
		if err != nil {
			return core.V("rejected", "a well-formed document delivered as %s %v: %v; document %q", w.Source.Kind, w.Source, err, clip(text, 600))
		}
		if d := ref.Diff(want, got); d != "" {
			return core.V("content", "delivered as %s %v: %s; document %q", w.Source.Kind, w.Source, d, clip(text, 600))
		}
	}
	if len(text) > 4096 {
		t.Probe("document-longer-than-buffer")
	}
	if p.Doc.CRLF {
		t.Probe("crlf")
	}
	if p.Doc.BOM != "" {
		t.Probe("bom")
	}
	return nil
}

func init() {
	register(&core.Property{
		ID: "C01", Gen: genC01, New: func() core.Plan { return &c01Plan{} }, Run: runC01,
		Quick: 120000, Thorough: 2000000,
		Rule:   "one case is a document made from a known meaning (or damaged from one), a combination of load options and 2-4 ways of delivering its bytes; non-trivial if the document is not empty; distinct by plan",
		Real:   "all of go-ini/ini, bufio, os and io on top of the simulated kernel",
		Stub:   "io.Reader and io.ReadCloser sources, the kernel's files",
		Probes: []string{"malformed-document", "source:bytes", "source:reader", "source:readcloser", "source:file", "source:osfile", "source:bufio", "document-longer-than-buffer", "crlf", "bom", "read:EINTR", "read:short", "reader:empty-read", "reader:eof-with-data"},
	})
}
