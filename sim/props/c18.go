package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

// c18Plan: a File's sources and what several clients do with it, one step at a time.
type c18Plan struct {
	Opts      ref.Opts   `json:"opts"`
	Docs      []*ref.Doc `json:"docs,omitempty"`
	Plain     bool       `json:"plain,omitempty"` // what is rendered can be loaded back
	Pretty    pretty     `json:"pretty"`
	Block     bool       `json:"block,omitempty"`   // keep block mode on
	Look      int        `json:"look,omitempty"`    // compare all views only after every so many steps
	Twin      int        `json:"twin,omitempty"`    // compare one in so many reads with those of a new File
	Refs      bool       `json:"refs,omitempty"`    // values may refer to others
	LongKey   string     `json:"longkey,omitempty"` // what names were lengthened by
	LongSec   string     `json:"longsec,omitempty"`
	LongVal   string     `json:"longval,omitempty"`
	LongFront bool       `json:"longfront,omitempty"`
	Steps     []c18Step  `json:"steps"`
}

type c18Step struct {
	Client int `json:"c,omitempty"`
	Op
	Doc    *ref.Doc      `json:"doc,omitempty"`
	Faults []simos.Fault `json:"faults,omitempty"`
}

var c18Secs = []string{"s1", "s2", "S1", "s1.sub", "s1.sub.deep", "DEFAULT", "default", "", "s2.kid", "s10"}
var c18Keys = []string{"a", "b", "A", "c", "é", "É"}
var c18Vals = []string{"", "v1", "v2", "7", "true", "-3", "1.5", "2s", "2001-02-03T04:05:06Z"}

// c18More are numbers at the ends of their types and in other notations.
var c18More = []string{"9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "4611686018427387904", "0x1F", "0b101", "017", "1_000", "1e400", "1e-5", "NaN", "0.1", "T", "off", "1h2m3s", "2s5ms", "1", "0", "-1"}

var fileOps = []string{"fnew", "fnew", "fnews", "fsec", "fsec", "fget", "fget", "fhas", "fidx", "fby", "fsecs", "fnames", "fkids", "fdel", "fdelidx", "fdelidx", "fraw"}
var secOps = []string{"snew", "snew", "snew", "sbool", "sget", "sget", "skey", "skey", "shas", "shasv", "skeys", "snames", "shash", "sparents", "skids", "sdel", "sdel", "sname", "sbody", "ssetbody"}
var keyOps = []string{"kset", "kset", "kval", "kstr", "kname", "kint", "kall", "kshadow", "knested", "knest", "kmuststr", "kmustint", "kmustbool", "kmust64", "kmustuint", "kmustuint64", "kmustfloat", "kmustdur", "kmusttime"}

func genC18(r *core.Rand, tier string) core.Plan {
	p := &c18Plan{Opts: ref.GenOpts(r), Pretty: genPretty(r), Block: r.Chance(3, 4)}
	p.Opts.Loose, p.Opts.ShortCircuit = false, false
	p.Opts.NonUnique = r.Chance(1, 3)
	p.Opts.Raw = nil
	if r.Chance(1, 3) {
		p.Look = 2 + r.Small(20)
	}
	if r.Chance(1, 8) {
		p.Opts.ChildDelim = r.Pick("/", "::")
	}
	p.Plain = r.Chance(2, 3)
	names := genLong(r)
	p.LongKey, p.LongSec, p.LongVal, p.LongFront = names.key, names.sec, names.val, names.front
	secs, keys := names.Secs(c18Secs, "."), names.Keys(c18Keys)
	if p.Plain {
		p.Opts.Delims, p.Opts.UnescapeDQ, p.Opts.UnescapeComment = "", false, false
	}
	name := func() string {
		n := secs[r.Intn(len(secs))]
		if r.Chance(1, 2) {
			n = secs[r.Intn(4)]
		}
		return strings.ReplaceAll(n, ".", p.Opts.Child())
	}
	for n := r.Small(2); n > 0; n-- {
		var dn []string
		for _, s := range secs {
			if s != "" {
				dn = append(dn, strings.ReplaceAll(s, ".", p.Opts.Child()))
			}
		}
		p.Docs = append(p.Docs, ref.GenDocNames(r, p.Opts, dn, keys))
	}
	m := ref.NewEmptyModel(p.Opts)
	for i, d := range p.Docs {
		if !d.Apply(m) { // shadows of auto-increment keys do not load
			p.Docs = p.Docs[:i]
			break
		}
	}
	if len(p.Docs) > 0 {
		p.Plain = false
	}
	if r.Chance(1, 4) {
		p.Twin = r.PickInt(1, 5, 20, 100)
		p.Refs = r.Bool()
		for _, d := range p.Docs {
			d.Shorten(p.Opts)
		}
	}
	clients := 1 + r.Small(3)
	n := r.Range(5, 40)
	if r.Chance(1, 30) {
		crowd := crowdOps(r, p.Opts, []string{name(), name()}, keys)
		names.Vals(crowd)
		for _, op := range crowd {
			p.Steps = append(p.Steps, c18Step{Op: op})
		}
	}
	if tier == "thorough" && r.Chance(1, 5) {
		n = r.Range(40, 200)
	}
	for i := 0; i < n; i++ {
		st := c18Step{Client: r.Intn(clients)}
		st.S, st.K, st.To = r.Intn(slots), r.Intn(slots), r.Intn(slots)
		if r.Chance(1, 2) {
			st.S, st.K = r.Intn(2), r.Intn(2)
		}
		st.Idx = r.Intn(4)
		st.Val = names.Val(c18Vals[r.Intn(len(c18Vals))])
		switch k := r.Intn(40); {
		case i < 3 || k < 12:
			st.Do, st.Name = fileOps[r.Intn(len(fileOps))], name()
			if st.Do == "fnews" {
				st.Val = name()
			}
		case i < 6 || k < 26:
			st.Do, st.Name = secOps[r.Intn(len(secOps))], keys[r.Intn(len(keys))]
			if r.Chance(1, 25) {
				st.Name = ""
			}
			if len(p.Docs) > 0 && (st.Do == "sget" || st.Do == "skey") && r.Chance(1, 6) {
				st.Name = "#1" // an auto-numbered one
			}
			if r.Chance(1, 6) {
				st.Val = c18More[r.Intn(len(c18More))]
			}
		case k < 37:
			st.Do = keyOps[r.Intn(len(keyOps))]
			if p.Opts.Shadows && r.Chance(1, 5) {
				st.Do = "kshadow"
			}
			if r.Chance(1, 3) {
				st.Val = c18More[r.Intn(len(c18More))]
			}
			if expands(st.Do) && p.Refs {
				st.Do = "kset"
			}
			if strings.HasPrefix(st.Do, "kmust") && r.Chance(1, 3) {
				st.Idx = r.Intn(1 << 20)
			}
		case k < 38:
			st.Do = "xsave"
			if r.Chance(2, 3) {
				st.Faults = append(st.Faults, genWriteFault(r))
			}
		case k < 39 && !p.Plain:
			st.Do = "xreload"
		case !p.Plain:
			st.Do = "xappend"
			st.Doc = ref.GenDocNames(r, p.Opts, names.Secs([]string{"s1", "s2", "S1"}, "."), keys)
			if p.Twin > 0 {
				st.Doc.Shorten(p.Opts)
			}
		default:
			st.Do = "xsave"
		}
		if p.Refs && r.Chance(1, 4) && st.Do != "fnews" {
			st.Val = c18Refs[r.Intn(len(c18Refs))]
		}
		if p.Plain && st.Do == "fraw" {
			st.Do = "fnew"
		}
		p.Steps = append(p.Steps, st)
	}
	return p
}

var c18Refs = []string{"%(a)s", "%(b)s", "%(c)s x", "1%(a)s", "%(A)s", "%(none)s", "x,%(b)s"}

// expands tells whether an operation replaces references in values.
func expands(do string) bool {
	return do == "kstr" || do == "kint" || strings.HasPrefix(do, "kmust")
}

func genWriteFault(r *core.Rand) simos.Fault {
	op := r.Pick("open", "write", "write", "close")
	f := simos.Fault{Op: op, Nth: 1 + r.Small(3), Kind: r.Pick("EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS"), Sticky: r.Bool()}
	if op == "write" && r.Chance(1, 3) {
		f.Kind, f.N = "part-EIO", r.Intn(40)
	}
	return f
}

func (p *c18Plan) reloadable() bool {
	o := p.Opts
	return !o.Nested && !o.NonUnique && !o.Shadows && len(o.Raw) == 0
}

func runC18(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c18Plan)
	o := p.Opts
	if o.Loose || o.ShortCircuit || len(o.Raw) > 0 || p.Plain && (len(p.Docs) > 0 || o.Delims != "" || o.UnescapeDQ || o.UnescapeComment) {
		return t.Discard()
	}
	k := simos.New()
	restore := p.Pretty.set()
	defer restore()
	model := ref.NewEmptyModel(o)
	var args []interface{}
	var docs []*ref.Doc
	for _, d := range p.Docs {
		if d == nil || !d.Valid(o) || !d.Apply(model) {
			return t.Discard()
		}
		docs = append(docs, d)
		args = append(args, []byte(d.Text(o)))
	}
	if len(args) == 0 {
		args = []interface{}{[]byte{}}
		docs = append(docs, &ref.Doc{})
		docs[0].Apply(model)
	}
	var f *ini.File
	var err error
	if v := t.Seq(func() {
		if f, err = loadAll(o, args); err == nil {
			f.BlockMode = p.Block
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "%v", err)
	}
	real := NewReal(f)
	real.Hold = true
	world := NewWorld(model)
	clients := map[int]*Client{}
	done := 0
	for i, st := range p.Steps {
		c := clients[st.Client]
		if c == nil {
			c = &Client{W: real}
			clients[st.Client] = c
		}
		if st.Do == "" || p.Twin < 0 || p.Refs && expands(st.Do) || strings.Count(st.Val, "%") > 1 || !p.Refs && strings.Contains(st.Val, "%") {
			return t.Discard()
		}
		bad := func(class, format string, a ...interface{}) *core.Violation {
			return core.V(class, "step %d, client %d: %s: %s", i, st.Client, st.Op, fmt.Sprintf(format, a...))
		}
		switch st.Do {
		case "xsave":
			for _, x := range st.Faults {
				if x.Nth < 1 || x.N < 0 {
					return t.Discard()
				}
			}
			k.SetFaults(st.Faults)
			if v := t.Seq(func() { err = f.SaveTo("/simfs/c18.ini") }); v != nil {
				return v
			}
			k.SetFaults(nil)
			t.Probe("save-" + map[bool]string{true: "ok", false: "failed"}[err == nil])
		case "xreload", "xappend":
			if p.Plain || st.Do == "xappend" && (st.Doc == nil || !st.Doc.Valid(o)) {
				return t.Discard()
			}
			if !p.reloadable() {
				continue
			}
			if v := t.Seq(func() {
				if st.Do == "xreload" {
					err = f.Reload()
				} else {
					err = f.Append([]byte(st.Doc.Text(o)))
				}
			}); v != nil {
				return v
			}
			if st.Do == "xappend" {
				docs = append(docs, st.Doc)
			}
			if err != nil {
				return bad("reload", "%v", err)
			}
			for _, d := range docs {
				if !d.Apply(model) {
					return t.Discard()
				}
			}
			t.Probe(st.Do)
		default:
			var r Res
			if v := t.Seq(func() { r = c.Do(st.Op) }); v != nil {
				v.Msg = fmt.Sprintf("step %d: %s: %s", i, st.Op, v.Msg)
				return v
			}
			if r.Skipped {
				continue
			}
			done++
			t.Ev("client %d: %s -> %s", st.Client, st.Op, r)
			if d := world.Step(st.Op, r); d != "" {
				return bad("result", "%s", d)
			}
		}
		if p.Look > 1 && (i+1)%p.Look != 0 && i < len(p.Steps)-1 {
			continue
		}
		var got, views string
		if v := t.Seq(func() { got, views = ref.DumpReal(f), viewsAgree(f, o) }); v != nil {
			v.Msg = fmt.Sprintf("after step %d (%s): %s", i, st.Op, v.Msg)
			return v
		}
		if views != "" {
			return bad("views", "%s", views)
		}
		if d := ref.Diff(model.Dump(), got); d != "" {
			return bad("content", "%s", d)
		}
		var looked string
		if v := t.Seq(func() { looked = p.lookups(f, model) }); v != nil {
			v.Msg = fmt.Sprintf("after step %d (%s): %s", i, st.Op, v.Msg)
			return v
		}
		if looked != "" {
			return bad("lookup", "%s", looked)
		}
		if p.Twin > 0 && model.Get("DEFAULT") != nil {
			differ := ""
			if v := t.Seq(func() {
				if twin := makeTwin(o, model); twin != nil {
					t.Probe("twin")
					differ = unlike(f, twin, i*7, p.Twin)
				}
				got = ref.DumpReal(f)
			}); v != nil {
				v.Msg = fmt.Sprintf("after step %d (%s): %s", i, st.Op, v.Msg)
				return v
			}
			if differ != "" {
				return bad("twin", "%s", differ)
			}
			if d := ref.Diff(model.Dump(), got); d != "" {
				return bad("reading", "%s", d)
			}
		}
		if d := world.detached(real); d != "" {
			return bad("detached", "%s", d)
		}
		if d := real.changed(); d != "" {
			return bad("list", "%s", d)
		}
		if p.Plain {
			if v := p.rendered(t, f, model); v != nil {
				v.Msg = fmt.Sprintf("after step %d, client %d: %s: %s", i, st.Client, st.Op, v.Msg)
				return v
			}
		}
	}
	countFaults(t, k)
	t.Trivial = done < 3
	return nil
}

// lookups compares what is found under any name and value with the model.
func (p *c18Plan) lookups(f *ini.File, model *ref.File) string {
	names := long{key: p.LongKey, sec: p.LongSec, val: p.LongVal, front: p.LongFront}
	for _, n := range append([]string{"none"}, names.Secs(c18Secs, ".")...) {
		n = strings.ReplaceAll(n, ".", p.Opts.Child())
		if got, want := f.HasSection(n), model.Get(n) != nil; got != want {
			return fmt.Sprintf("HasSection(%q) is %v, want %v", n, got, want)
		}
	}
	for i, s := range f.Sections() {
		m := model.Secs[i]
		for _, n := range append([]string{"none"}, names.Keys(c18Keys)...) {
			k, err := s.GetKey(n)
			w := m.Lookup(n)
			if (err == nil) != (w != nil) {
				return fmt.Sprintf("section %q: GetKey(%q) gives error %v, want a key: %v", m.Name, n, err, w != nil)
			}
			if w != nil && (k.Name() != w.Name || k.Value() != w.Value) {
				return fmt.Sprintf("section %q: GetKey(%q) gives %q=%q, want %q=%q", m.Name, n, k.Name(), k.Value(), w.Name, w.Value)
			}
			if got := s.HasKey(n); got != (w != nil) {
				return fmt.Sprintf("section %q: HasKey(%q) is %v", m.Name, n, got)
			}
		}
		for _, v := range append([]string{"none", names.Val("v1"), names.Val("v2")}, c18Vals...) {
			if got, want := s.HasValue(v), m.HasValue(v); got != want {
				return fmt.Sprintf("section %q: HasValue(%q) is %v, want %v", m.Name, v, got, want)
			}
		}
	}
	return ""
}

// detached compares sections and keys that are no longer part of the File.
func (w *World) detached(real *Real) string {
	for id, s := range w.secOf {
		if got, want := ref.HashString(real.SecP[id].KeysHash()), ref.HashString(s.Hash()); got != want {
			return fmt.Sprintf("section %q (sec#%d) holds %s, want %s", s.Name, id, got, want)
		}
		if got, want := strings.Join(real.SecP[id].KeyStrings(), "\x00"), strings.Join(s.KeyNames(), "\x00"); got != want {
			return fmt.Sprintf("section %q (sec#%d) lists %q, want %q", s.Name, id, got, want)
		}
	}
	for id, k := range w.keyOf {
		if got := real.KeyP[id].Value(); got != k.Value {
			return fmt.Sprintf("key %q (key#%d) is %q, want %q", k.Name, id, got, k.Value)
		}
	}
	return ""
}

// rendered compares what is written with the model, by loading it.
func (p *c18Plan) rendered(t *core.T, f *ini.File, model *ref.File) *core.Violation {
	o := p.Opts
	if o.NonUnique && p.Pretty.Header {
		return nil // loading it adds a default section
	}
	for _, s := range model.Secs {
		for _, k := range s.Keys {
			if k.Bool && !o.BoolKeys {
				return nil
			}
			if o.Nested && len(k.Nested) > 0 && (len(k.WithShadows()) > 0 || o.Python) {
				return nil
			}
			for _, n := range k.Nested {
				if n == "" {
					return nil
				}
			}
		}
	}
	var text, got string
	var err error
	if v := t.Seq(func() {
		if text, err = render(f, ""); err != nil {
			return
		}
		var g *ini.File
		if g, err = ini.LoadSources(o.Load(), []byte(text)); err == nil {
			got = flat(real2model(g, o), o)
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("rendering", "%q does not load: %v", clip(text, 500), err)
	}
	if d := ref.Diff(flat(model, o), got); d != "" {
		return core.V("rendering", "%s; rendering %q", d, clip(text, 500))
	}
	t.Probe("rendering-compared")
	return nil
}

// real2model reads a File into a model.
func real2model(f *ini.File, o ref.Opts) *ref.File {
	m := ref.NewEmptyModel(o)
	for _, s := range f.Sections() {
		ms := &ref.Sec{F: m, Name: s.Name(), Comment: s.Comment, Body: s.Body()}
		for _, k := range s.Keys() {
			mk := &ref.Key{S: ms, Name: k.Name(), Comment: k.Comment, Nested: k.NestedValues()}
			if l := k.ValueWithShadows(); len(l) > 0 {
				mk.Value, mk.Shadows = l[0], l[1:]
			}
			ms.Keys = append(ms.Keys, mk)
		}
		m.Secs = append(m.Secs, ms)
	}
	return m
}

// flat writes what a rendering can tell about a File: an empty default section is not
// written, and the default section is the first one when it is loaded.
func flat(f *ref.File, o ref.Opts) string {
	var head, rest strings.Builder
	def := o.FoldSec("DEFAULT")
	for i, s := range f.Secs {
		b := &rest
		if s.Name == def {
			if len(s.Keys) == 0 {
				continue
			}
			if i == 0 || !o.NonUnique {
				b = &head
			}
		}
		fmt.Fprintf(b, "[%q]\n", s.Name)
		for _, k := range s.Keys {
			fmt.Fprintf(b, "  %q=%q nested=%q\n", k.Name, unique(k.WithShadows(), o), k.Nested)
		}
	}
	return head.String() + rest.String()
}

// unique drops values that loading would drop.
func unique(l []string, o ref.Opts) []string {
	if o.DuplicateShadows {
		return l
	}
	seen := map[string]bool{}
	out := []string{}
	for _, v := range l {
		if !seen[v] {
			out = append(out, v)
		}
		seen[v] = true
	}
	return out
}

func init() {
	register(&core.Property{
		ID: "C18", Gen: genC18, New: func() core.Plan { return &c18Plan{} }, Run: runC18,
		Quick: 90000, Thorough: 1500000,
		Rule:   "one case is a set of load options, up to two source documents and a history of up to 40 (thorough: 200) operations by up to four clients, who keep handles, with saves (some failing), reloads and appends in between; after each operation its result and (in a third of the cases only now and then) all views of the File are compared with the model; in a quarter of the cases reads of every kind are compared with those of a new File of the same content; non-trivial if at least three operations took place; distinct by plan",
		Real:   "all of go-ini/ini, os and io on top of the simulated kernel",
		Stub:   "the kernel's files",
		Probes: []string{"twin", "rendering-compared", "save-ok", "save-failed", "xreload", "xappend"},
	})
}
