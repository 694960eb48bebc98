package props

import (
	"fmt"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

// c05Plan: a File, its sources and what happens to both over time.
type c05Plan struct {
	Opts    ref.Opts  `json:"opts"`
	Sources []c05Src  `json:"sources"`
	Steps   []c05Step `json:"steps"`
	Same    bool      `json:"same,omitempty"` // only reloads unchanged sources
}

type c05Src struct {
	File bool     `json:"file,omitempty"`
	Gone bool     `json:"gone,omitempty"`
	Doc  *ref.Doc `json:"doc"`
}

type c05Step struct {
	Op     string        `json:"op"` // edit, remove, reload, append, set, new, delkey, delsec, newsec
	Src    int           `json:"src,omitempty"`
	Doc    *ref.Doc      `json:"doc,omitempty"`
	File   bool          `json:"file,omitempty"`
	Sec    string        `json:"sec,omitempty"`
	Key    string        `json:"key,omitempty"`
	Val    string        `json:"val,omitempty"`
	Faults []simos.Fault `json:"faults,omitempty"`
}

var c05Secs = []string{"s1", "s2", "s1.sub", "DEFAULT", "S1"}
var c05Keys = []string{"a", "b", "c", "K", "k"}

func genC05(r *core.Rand, tier string) core.Plan {
	p := &c05Plan{Opts: ref.GenOpts(r)}
	p.Opts.NonUnique = false
	if r.Chance(2, 3) {
		p.Opts.Nested, p.Opts.Raw = false, nil
	}
	p.Opts.DuplicateShadows = false
	p.Opts.Loose = r.Chance(1, 2)
	p.Opts.ShortCircuit = r.Chance(1, 6)
	if p.Opts.Shadows = r.Chance(1, 8); p.Opts.Shadows {
		p.Same = true
		p.Opts.BoolKeys, p.Opts.Nested, p.Opts.Raw = false, false, nil
	}
	doc := func() *ref.Doc {
		secs := c05Secs
		if len(p.Opts.Raw) > 0 {
			secs = append([]string{"raw", "Body"}, secs...)
		}
		d := ref.GenDocNames(r, p.Opts, secs, c05Keys)
		if p.Opts.Shadows {
			for i := range d.Secs {
				var items []ref.DocItem
				for _, it := range d.Secs[i].Items {
					if it.Kind != "auto" {
						items = append(items, it)
					}
				}
				d.Secs[i].Items = items
			}
			d.Prune(p.Opts)
		}
		return d
	}
	for n := r.Range(1, 3); n > 0; n-- {
		p.Sources = append(p.Sources, c05Src{File: r.Chance(2, 3), Doc: doc()})
		if s := &p.Sources[len(p.Sources)-1]; s.File && p.Opts.Loose && r.Chance(1, 5) {
			s.Gone = true
		}
	}
	total := len(p.Sources)
	for n := r.Range(1, 8); n > 0; n-- {
		st := c05Step{Op: r.Pick("reload", "reload", "reload", "edit", "edit", "remove", "append", "set", "new", "delkey", "delsec", "newsec")}
		if p.Same {
			st.Op = "reload"
		}
		switch st.Op {
		case "edit":
			st.Src, st.Doc = r.Intn(total), doc()
		case "remove":
			st.Src = r.Intn(total)
		case "append":
			st.Doc, st.File = doc(), r.Bool()
			total++
		case "set", "new", "delkey", "delsec", "newsec":
			st.Sec, st.Key, st.Val = c05Secs[r.Intn(len(c05Secs))], c05Keys[r.Intn(len(c05Keys))], r.Pick("mem1", "mem2", "")
		}
		if (st.Op == "reload" || st.Op == "append") && !p.Opts.Shadows && r.Chance(1, 3) {
			f := genReadFault(r, 6)
			if f.Op == "read" && r.Bool() {
				// Small reads let a failure strike within the document.
				st.Faults = append(st.Faults, simos.Fault{Op: "read", Nth: 1, Kind: "short", N: r.PickInt(1, 3, 10), Sticky: true})
				f.Nth = r.Range(1, 60)
				f.Sticky = true
			}
			f.Path = srcPath(r.Intn(total))
			st.Faults = append(st.Faults, f)
		}
		p.Steps = append(p.Steps, st)
		if (st.Op != "reload" || len(st.Faults) > 0) && r.Chance(1, 2) {
			p.Steps = append(p.Steps, c05Step{Op: "reload"})
		}
	}
	p.Steps = append(p.Steps, c05Step{Op: "reload"})
	return p
}

type c05Run struct {
	t     *core.T
	k     *simos.Kernel
	f     *ini.File
	model *ref.File
	srcs  []c05Src
	o     ref.Opts
}

func runC05(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c05Plan)
	o := p.Opts
	if len(p.Sources) == 0 || !p.Same && (o.NonUnique || o.Shadows || o.DuplicateShadows) {
		return t.Discard()
	}
	c := &c05Run{t: t, k: simos.New(), o: o, model: ref.NewEmptyModel(o)}
	var args []interface{}
	for i, s := range p.Sources {
		if s.Doc == nil || !s.Doc.Valid(o) || s.Gone && (!s.File || !o.Loose) {
			return t.Discard()
		}
		args = append(args, c.add(i, s))
	}
	if !c.apply() {
		return t.Discard()
	}
	if p.Same {
		return c.same(p, args)
	}
	var err error
	if v := t.Seq(func() { c.f, err = loadAll(o, args) }); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "%v", err)
	}
	for i, st := range p.Steps {
		if v := c.step(st); v != nil {
			if t.Invalid {
				return nil
			}
			v.Msg = fmt.Sprintf("step %d (%s): %s", i, st.Op, v.Msg)
			return v
		}
		if t.Invalid {
			return nil
		}
	}
	countFaults(t, c.k)
	return nil
}

// add makes a source available and returns what to pass to Load.
func (c *c05Run) add(i int, s c05Src) interface{} {
	c.srcs = append(c.srcs, s)
	text := []byte(s.Doc.Text(c.o))
	if !s.File {
		return text
	}
	if !s.Gone {
		c.k.Put(srcPath(i), text)
	}
	return srcPath(i)
}

// apply lets the model read all sources. It returns false where reading has to fail.
func (c *c05Run) apply() bool {
	for _, s := range c.srcs {
		if s.Gone {
			if !c.o.Loose {
				return false
			}
			c.model.NewSection("DEFAULT")
			continue
		}
		if !s.Doc.Apply(c.model) {
			return false
		}
		if c.o.ShortCircuit {
			break
		}
	}
	return true
}

func (c *c05Run) same(p *c05Plan, args []interface{}) *core.Violation {
	var err error
	var before, after, text, again string
	if v := c.t.Seq(func() {
		if c.f, err = loadAll(c.o, args); err == nil {
			before = ref.DumpReal(c.f)
			text, _ = render(c.f, "")
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "%v", err)
	}
	for i := range p.Steps {
		if v := c.t.Seq(func() {
			err = c.f.Reload()
			after = ref.DumpReal(c.f)
			again, _ = render(c.f, "")
		}); v != nil {
			return v
		}
		if err != nil {
			return core.V("reload-unchanged", "reload %d of unchanged sources fails: %v", i+1, err)
		}
		if d := ref.Diff(before, after); d != "" {
			return core.V("reload-unchanged", "reload %d of unchanged sources changes the content: %s", i+1, d)
		}
		if d := ref.Diff(text, again); d != "" {
			return core.V("reload-unchanged", "reload %d of unchanged sources changes the rendering: %s", i+1, d)
		}
	}
	c.t.Probe("reload-unchanged")
	return nil
}

func (c *c05Run) step(st c05Step) *core.Violation {
	t := c.t
	var v *core.Violation
	switch st.Op {
	case "edit", "remove":
		if st.Src < 0 || st.Src >= len(c.srcs) {
			return t.Discard()
		}
		s := &c.srcs[st.Src]
		if !s.File {
			return nil
		}
		if st.Op == "remove" {
			s.Gone = true
			c.k.Remove(srcPath(st.Src))
			return nil
		}
		if st.Doc == nil || !st.Doc.Valid(c.o) {
			return t.Discard()
		}
		s.Gone, s.Doc = false, st.Doc
		c.k.Put(srcPath(st.Src), []byte(st.Doc.Text(c.o)))
		return nil
	case "reload", "append":
		for _, f := range st.Faults {
			if f.Nth < 1 || f.Op != "read" && f.Op != "open" || f.Kind == "ENOENT" && f.Op == "open" || f.N < 0 || f.Path == "" && !harmless(f) {
				return t.Discard()
			}
		}
		return c.reload(st)
	}
	if st.Sec == "" || st.Key == "" {
		return t.Discard()
	}
	v = t.Seq(func() {
		switch st.Op {
		case "set":
			c.f.Section(st.Sec).Key(st.Key).SetValue(st.Val)
		case "new":
			_, _ = c.f.Section(st.Sec).NewKey(st.Key, st.Val)
		case "delkey":
			c.f.Section(st.Sec).DeleteKey(st.Key)
		case "delsec":
			c.f.DeleteSection(st.Sec)
		case "newsec":
			_, _ = c.f.NewSection(st.Sec)
		}
	})
	m := c.model
	switch st.Op {
	case "set":
		m.Section(st.Sec).Key(st.Key).Value = st.Val
	case "new":
		m.Section(st.Sec).NewKey(st.Key, st.Val)
	case "delkey":
		m.Section(st.Sec).DeleteKey(st.Key)
	case "delsec":
		m.Delete(st.Sec)
	case "newsec":
		m.NewSection(st.Sec)
	default:
		return t.Discard()
	}
	if v != nil {
		return v
	}
	return c.compare()
}

func (c *c05Run) compare() *core.Violation {
	var got string
	// Raw bodies and nested values add up, see known-findings.txt.
	if v := c.t.Seq(func() { got = ref.DumpRealPlain(c.f) }); v != nil {
		return v
	}
	if d := ref.Diff(c.model.DumpPlain(), got); d != "" {
		return core.V("content", "%s", d)
	}
	return nil
}

func (c *c05Run) reload(st c05Step) *core.Violation {
	t := c.t
	var arg interface{}
	if st.Op == "append" {
		if st.Doc == nil || !st.Doc.Valid(c.o) {
			return t.Discard()
		}
		arg = c.add(len(c.srcs), c05Src{File: st.File, Doc: st.Doc})
	}
	old := c.model.Clone()
	defined := map[string][]string{}
	c.model.OnSet = func(s, k, v string) {
		id := s + "\x00" + k
		defined[id] = append(defined[id], v)
	}
	readable := c.apply()
	// All definitions count, also those after a missing file.
	scratch := ref.NewEmptyModel(c.o)
	scratch.OnSet = c.model.OnSet
	for _, s := range c.srcs {
		if !s.Gone {
			s.Doc.Apply(scratch)
		}
	}
	c.model.OnSet = nil

	c.k.SetFaults(st.Faults)
	c.k.Broken = map[string]int{}
	var err error
	if v := t.Seq(func() {
		if st.Op == "append" {
			err = c.f.Append(arg)
		} else {
			err = c.f.Reload()
		}
	}); v != nil {
		return v
	}
	broken := len(c.k.Broken) > 0
	c.k.SetFaults(nil)
	t.Ev("%s: error %v (fault %v, missing %v)", st.Op, err, broken, !readable)
	if err == nil {
		if broken || !readable {
			return core.V("swallowed", "no error although a source could not be read")
		}
		t.Probe("reloaded")
		return c.compare()
	}
	if !broken && readable {
		return core.V("spurious", "error %v although nothing failed", err)
	}
	t.Probe("failed-reload")
	return c.torn(old, scratch, defined)
}

// torn checks the content after a reload that failed midway, and lets the model follow.
func (c *c05Run) torn(old, srcs *ref.File, defined map[string][]string) *core.Violation {
	now := ref.NewEmptyModel(c.o)
	if v := c.t.Seq(func() {
		for _, s := range c.f.Sections() {
			m := now.NewSection(s.Name())
			m.Comment = s.Comment
			for _, k := range s.Keys() {
				mk := m.NewKey(k.Name(), k.Value())
				mk.Comment = k.Comment
			}
		}
	}); v != nil {
		return v
	}
	// Old sections and keys are all there, in their order, new ones follow.
	for i, s := range old.Secs {
		if i >= len(now.Secs) || now.Secs[i].Name != s.Name {
			return core.V("torn-order", "failed reload turned sections %q into %q", old.Names(), now.Names())
		}
	}
	for i, s := range now.Secs {
		var was *ref.Sec
		if i < len(old.Secs) {
			was = old.Secs[i]
		} else if srcs.Get(s.Name) == nil && s.Name != c.o.FoldSec("DEFAULT") {
			return core.V("torn-section", "failed reload made section %q, which no source has", s.Name)
		}
		for j, k := range s.Keys {
			if was != nil && j < len(was.Keys) {
				if was.Keys[j].Name != k.Name {
					return core.V("torn-order", "failed reload turned keys %q of %q into %q", was.KeyNames(), s.Name, s.KeyNames())
				}
				if was.Keys[j].Value == k.Value {
					continue
				}
			}
			ok := false
			for _, v := range defined[s.Name+"\x00"+k.Name] {
				ok = ok || v == k.Value
			}
			if !ok {
				return core.V("torn-value", "after a failed reload key %q of %q is %q, which is neither its old value nor one a source defines", k.Name, s.Name, k.Value)
			}
			c.t.Probe("partly-reloaded")
		}
		if was != nil && len(s.Keys) < len(was.Keys) {
			return core.V("torn-lost", "failed reload turned keys %q of %q into %q", was.KeyNames(), s.Name, s.KeyNames())
		}
	}
	c.model = now
	return nil
}

func kvDoc(items ...ref.DocItem) *ref.Doc {
	return &ref.Doc{Secs: []ref.DocSec{{Name: "s", Items: items}}}
}

func knownC05() []core.Known {
	reload := []c05Step{{Op: "reload"}}
	kv := func(k, v string) ref.DocItem {
		return ref.DocItem{Kind: "kv", Key: core.Bin(k), Delim: "=", Style: "bare", Val: core.Bin(v)}
	}
	nested := kv("k", "")
	nested.Nested = []core.Bin{"n"}
	plan := func(o ref.Opts, d *ref.Doc) *c05Plan {
		return &c05Plan{Opts: o, Same: true, Sources: []c05Src{{Doc: d}}, Steps: reload}
	}
	return []core.Known{
		{ID: "nested-values", What: "reloading unchanged sources duplicates nested values (AllowNestedValues)",
			Plan: plan(ref.Opts{Nested: true}, kvDoc(nested))},
		{ID: "raw-bodies", What: "reloading unchanged sources duplicates the bodies of raw sections (UnparseableSections)",
			Plan: plan(ref.Opts{Raw: []string{"s"}}, kvDoc(ref.DocItem{Kind: "raw", Val: "line"}))},
		{ID: "non-unique-sections", What: "reloading unchanged sources duplicates all sections (AllowNonUniqueSections)",
			Plan: plan(ref.Opts{NonUnique: true}, kvDoc(kv("k", "v")))},
		{ID: "shadows-auto-increment", What: "reloading unchanged sources with an auto-increment key fails (AllowShadows)",
			Plan: plan(ref.Opts{Shadows: true}, kvDoc(ref.DocItem{Kind: "auto", Delim: "=", Style: "bare", Val: "v"}))},
		{ID: "shadows-boolean", What: "reloading unchanged sources with a boolean key fails (AllowShadows and AllowBooleanKeys)",
			Plan: plan(ref.Opts{Shadows: true, BoolKeys: true}, kvDoc(ref.DocItem{Kind: "bool", Key: "flag"}))},
		{ID: "duplicate-shadows", What: "reloading unchanged sources adds every value to its key again (AllowShadows and AllowDuplicateShadowValues)",
			Plan: plan(ref.Opts{Shadows: true, DuplicateShadows: true}, kvDoc(kv("k", "v")))},
	}
}

func init() {
	register(&core.Property{
		ID: "C05", Gen: genC05, New: func() core.Plan { return &c05Plan{} }, Run: runC05, Known: knownC05,
		Quick: 90000, Thorough: 2000000,
		Rule:   "one case is a File with one to four sources made from known documents and a history of source edits, source deletions, edits of the File, and reloads and appends with and without injected failures; compared with a model after each step; distinct by plan",
		Real:   "all of go-ini/ini, bufio, os and io on top of the simulated kernel",
		Stub:   "the kernel's files",
		Probes: []string{"reloaded", "failed-reload", "partly-reloaded", "reload-unchanged", "read:EIO", "read:part-EIO", "open:EACCES"},
	})
}
