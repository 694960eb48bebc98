package props

import (
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

// c06Plan: documents, what became of them on the disk, and how they are used.
type c06Plan struct {
	Opts   ref.Opts   `json:"opts"`
	Docs   []*ref.Doc `json:"docs"`
	Junk   core.Bin   `json:"junk,omitempty"` // instead of documents
	Torn   int        `json:"torn,omitempty"` // the second document's first bytes, then the first document
	Damage []Damage   `json:"damage"`
	Source Source     `json:"source"`
	Delim  string     `json:"delim"`
	Indent string     `json:"indent,omitempty"`
	Pretty pretty     `json:"pretty"`
	Then   []string   `json:"then,omitempty"` // map, store, reflect, save, again, append
}

func genC06(r *core.Rand, tier string) core.Plan {
	p := &c06Plan{Opts: ref.GenOpts(r), Delim: batDelims[r.Intn(len(batDelims))], Indent: r.Pick("", "", "\t", "    "), Pretty: genPretty(r)}
	n := 0
	switch r.Intn(8) {
	case 2, 3:
		p.Junk = core.Bin(junkLines(r))
		n = len(p.Junk)
	case 0:
		var b strings.Builder
		for n := r.Range(1, 30); n > 0; n-- {
			if r.Chance(2, 3) {
				b.WriteString(damageTokens[r.Intn(len(damageTokens))])
			} else {
				b.WriteString(ref.Text(r, 6))
			}
		}
		p.Junk = core.Bin(b.String())
		n = len(p.Junk)
	case 1:
		p.Docs = []*ref.Doc{ref.GenDoc(r, p.Opts), ref.GenDoc(r, p.Opts)}
		n = len(p.Docs[0].Text(p.Opts))
		p.Torn = r.Intn(len(p.Docs[1].Text(p.Opts)) + 1)
	default:
		p.Docs = []*ref.Doc{ref.GenDoc(r, p.Opts)}
		n = len(p.Docs[0].Text(p.Opts))
	}
	if len(p.Docs) > 0 && r.Chance(1, 4) {
		genRefs(r, p.Docs[0])
	}
	for k := r.Small(5); k > 0; k-- {
		p.Damage = append(p.Damage, genDamage(r, n))
	}
	if len(p.Damage) == 0 && p.Junk == "" {
		p.Damage = append(p.Damage, genDamage(r, n))
	}
	p.Source = genSource(r)
	if r.Chance(1, 3) {
		// Parse under other options than the document was made for.
		o := ref.GenOpts(r)
		o.Debug = p.Opts.Debug
		p.Opts = o
	}
	for _, s := range []string{"map", "store", "reflect", "save", "again", "append"} {
		if r.Bool() {
			p.Then = append(p.Then, s)
		}
	}
	return p
}

func runC06(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c06Plan)
	o := p.Opts
	if !p.Source.valid() || p.Delim == "" || p.Source.Missing || p.Source.Delivery.Panic {
		return t.Discard()
	}
	text := string(p.Junk)
	for _, d := range p.Docs {
		if d == nil {
			return t.Discard()
		}
	}
	if len(p.Docs) > 0 {
		text = p.Docs[0].Text(o)
	}
	if len(p.Docs) > 1 && p.Torn > 0 {
		b := p.Docs[1].Text(o)
		if p.Torn < len(b) {
			b = b[:p.Torn]
		}
		if len(b) < len(text) {
			text = b + text[len(b):]
		} else {
			text = b
		}
		t.Fault("media:torn", 1)
	}
	b := []byte(text)
	for _, d := range p.Damage {
		if d.N < 0 || d.N > 1000 {
			return t.Discard()
		}
		b = d.apply(b)
		t.Fault("media:"+d.Kind, 1)
	}
	text = string(b)
	restore := p.Pretty.set()
	defer restore()
	var k *simos.Kernel
	var src *liveSource
	var f *ini.File
	var err error
	for {
		k = simos.New()
		var faults []simos.Fault
		src, faults = openSource(k, 0, p.Source, text, nil)
		k.SetFaults(faults)
		growing := false
		if v := t.Seq(func() {
			f, err = loadAll(o, []interface{}{src.arg()})
			growing = err == nil && f != nil && multiplies(f)
		}); v != nil {
			v.Msg = "while loading: " + v.Msg
			return v
		}
		if !growing {
			break
		}
		// References that multiply themselves are not claimed.
		text = strings.ReplaceAll(text, "%(", "%[")
	}
	if strings.Contains(text, "%(") {
		t.Probe("references")
	}
	countFaults(t, k)
	countReader(t, src.reader)
	t.Ev("load: %v", err)
	if err != nil {
		t.Probe("rejected")
		if f != nil {
			return core.V("file-with-error", "File along with error %v", err)
		}
		return nil
	}
	if f == nil {
		return core.V("no-file", "neither File nor error")
	}
	t.Probe("accepted")
	has := func(s string) bool {
		for _, x := range p.Then {
			if x == s {
				return true
			}
		}
		return false
	}
	use := func(what string, fn func()) *core.Violation {
		v := t.Seq(fn)
		if v != nil {
			v.Msg = "while " + what + ": " + v.Msg
		}
		return v
	}
	if v := use("reading", func() { exercise(t, f, p.Delim, has("map")) }); v != nil {
		return v
	}
	if has("store") {
		if v := use("storing", func() {
			for _, s := range f.Sections() {
				for i, key := range s.Keys() {
					if i < 20 {
						readKey(key, p.Delim, true)
						_ = key.AddShadow("more")
						_ = key.AddNestedValue("nested")
					}
				}
				_, _ = s.NewKey("new", "value")
				_, _ = s.NewBooleanKey("yes")
				s.SetBody("body")
			}
			_ = f.Section("s1.new").Key("k").MustInt(5)
		}); v != nil {
			return v
		}
	}
	if has("reflect") {
		if v := use("reflecting", func() {
			v := &batTarget{A: "a", E: []string{"x", "y"}, S2: &batInner{K: "v"}}
			_ = f.ReflectFrom(v)
		}); v != nil {
			return v
		}
	}
	var out string
	if v := use("saving", func() {
		out, err = render(f, p.Indent)
		if err == nil && has("save") {
			err = f.SaveToIndent("/simfs/out.ini", p.Indent)
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("save", "saving: %v", err)
	}
	if has("save") {
		got, ok := k.Get("/simfs/out.ini")
		if !ok || string(got) != out {
			return core.V("save", "saved %q, rendered %q", clip(string(got), 300), clip(out, 300))
		}
		var g *ini.File
		if v := use("loading what was saved", func() {
			if g, err = loadAll(o, []interface{}{"/simfs/out.ini"}); err == nil {
				if !multiplies(g) {
					exercise(t, g, p.Delim, false)
				}
				_, _ = render(g, "")
			}
		}); v != nil {
			return v
		}
	}
	if has("append") {
		if v := use("appending", func() {
			_ = f.Append([]byte(out))
			if !multiplies(f) {
				exercise(t, f, p.Delim, false)
			}
		}); v != nil {
			return v
		}
	} else if has("again") && p.Source.Kind != "readcloser" && p.Source.Kind != "reader" {
		if v := use("reloading", func() {
			_ = f.Reload()
			if !multiplies(f) {
				exercise(t, f, p.Delim, false)
			}
			_, _ = render(f, "")
		}); v != nil {
			return v
		}
	}
	return nil
}

// multiplies tells whether some value holds several references, which can grow without bound.
func multiplies(f *ini.File) bool {
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			for _, v := range append(k.ValueWithShadows(), k.NestedValues()...) {
				if strings.Count(v, "%(") > 1 {
					return true
				}
			}
		}
	}
	return false
}

// genRefs makes values refer to other keys, and to each other in circles.
func genRefs(r *core.Rand, d *ref.Doc) {
	var names []string
	for _, s := range d.Secs {
		for _, it := range s.Items {
			if it.Kind == "kv" {
				names = append(names, string(it.Key))
			}
		}
	}
	most := 40 // following references takes long
	for i := range d.Secs {
		for j := range d.Secs[i].Items {
			it := &d.Secs[i].Items[j]
			if most--; most < 0 {
				return
			}
			if (it.Kind == "kv" || it.Kind == "auto") && it.Style == "bare" && len(it.Nested) == 0 && len(names) > 0 && r.Chance(2, 3) {
				it.Val = core.Bin(r.Pick("", "", "x", "1") + "%(" + names[r.Intn(len(names))] + ")s" + r.Pick("", "", "y", "2"))
			}
		}
	}
}

func init() {
	register(&core.Property{
		ID: "C06", Gen: genC06, New: func() core.Plan { return &c06Plan{} }, Run: runC06,
		Quick: 80000, Thorough: 4000000,
		Rule:   "one case is a document, a torn mixture of two, or junk, the damage done to its bytes, load options, and what is done with the File if it loads; every run is non-trivial; distinct by plan",
		Real:   "all of go-ini/ini, bufio, os and io on top of the simulated kernel",
		Stub:   "io.Reader and io.ReadCloser sources, the kernel's files",
		Probes: []string{"references", "accepted", "rejected", "media:flip", "media:set", "media:drop", "media:zero", "media:dup", "media:trunc", "media:insert", "media:torn"},
	})
}
