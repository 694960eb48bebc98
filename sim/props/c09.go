package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

// c09Plan: the life of a configuration over several processes.
type c09Plan struct {
	Opts   ref.Opts   `json:"opts"`
	Docs   []*ref.Doc `json:"docs,omitempty"`
	Pretty pretty     `json:"pretty"`
	NoLock bool       `json:"no_lock,omitempty"`
	Steps  []c09Step  `json:"steps"`
}

type c09Step struct {
	Edits   []Edit        `json:"edits,omitempty"`
	Target  int           `json:"target,omitempty"`
	Plain   bool          `json:"plain,omitempty"`
	Indent  string        `json:"indent,omitempty"`
	Faults  []simos.Fault `json:"faults,omitempty"`
	Restart bool          `json:"restart,omitempty"` // the process ends after the save
}

var c09KeyParts = []string{"a", "b", "K", "z", "0", "_", "-", ".", " ", "é", "日", "%", "$", "=", ":", "\"", "'", "#", ";", "[", "]", "\\", "(", ",", "|", "\t", "`"}

// keyName draws a key name of the kind C09 speaks of.
func c09Key(r *core.Rand, o ref.Opts) string {
	for i := 0; i < 20; i++ {
		n := ref.Word(r, 4)
		if r.Chance(1, 2) {
			n = ""
			for m := 1 + r.Small(6); m > 0; m-- {
				n += c09KeyParts[r.Intn(len(c09KeyParts))]
			}
		}
		if c09KeyOK(n, o) {
			return n
		}
	}
	return "k"
}

func c09KeyOK(n string, o ref.Opts) bool {
	if n == "" || n == "-" || strings.TrimSpace(n) != n || strings.ContainsAny(n, "\r\n\f\v") || strings.ContainsAny(n[:1], "#;['\"`") {
		return false
	}
	return !twoQuotes(n, o)
}

// twoQuotes: no quotes could keep such a name together.
func twoQuotes(n string, o ref.Opts) bool {
	return strings.Contains(n, "`") && strings.ContainsAny(n, "\""+o.DelimSet())
}

var c09SecNames = []string{"", "", "s1", "s2", "s1.sub", "S2", "x y", "q]r", "[b", "a#b", "é日", "s;t", "k=v", "`w`", "\"q\"", "default"}

func genC09(r *core.Rand, tier string) core.Plan {
	p := &c09Plan{Opts: ref.GenOpts(r), Pretty: genPretty(r), NoLock: r.Chance(1, 6)}
	p.Opts.Loose, p.Opts.ShortCircuit = false, false
	if r.Chance(1, 3) {
		d := p.Opts.DelimSet()
		p.Opts.DelimWrite = d[r.Intn(len(d)):][:1]
	}
	p.fit()
	for n := r.Small(2); n > 0; n-- {
		p.Docs = append(p.Docs, ref.GenDoc(r, p.Opts))
	}
	m := ref.NewEmptyModel(p.Opts)
	for i, d := range p.Docs {
		if !d.Apply(m) {
			p.Docs = p.Docs[:i]
			break
		}
	}
	var keys []string
	for n := 2 + r.Small(4); n > 0; n-- {
		k := c09Key(r, p.Opts)
		if r.Chance(1, 30) {
			k += strings.Repeat("l", r.PickInt(20, 40, 64, 100, 300))
		}
		keys = append(keys, k)
	}
	for n := r.Range(1, 5); n > 0; n-- {
		s := c09Step{Target: r.Intn(2), Plain: r.Chance(1, 2), Restart: r.Chance(2, 3)}
		if !s.Plain && !p.Opts.Nested && !p.Opts.Python {
			s.Indent = r.Pick("", "  ", "\t")
		}
		s.Edits = genEdits(r, c09SecNames, keys, 8)
		var l []Edit
		for _, e := range s.Edits {
			switch {
			case e.Do == "bool":
				e.Key = core.Bin(fmt.Sprintf("flag%d", r.Intn(9)))
			case e.Do == "nested":
				e.Key = core.Bin(fmt.Sprintf("nest%d", r.Intn(3)))
				if e.Val = core.Bin(strings.TrimSpace(strings.ReplaceAll(string(e.Val), "\n", " "))); e.Val == "" {
					e.Val = "x = y"
				}
			case e.Do == "secnote" && (e.Sec == "" || strings.EqualFold(string(e.Sec), "default")):
				e.Do = "keynote"
			}
			if p.editOK(e) {
				l = append(l, e)
			}
		}
		s.Edits = l
		switch r.Intn(6) {
		case 0:
			s.Faults = append(s.Faults, genSaveFault(r, 300))
		case 1:
			s.Faults = append(s.Faults, simos.Fault{Op: "any", Nth: 1 + r.Small(7), Kind: r.Pick("crash", "crash", "crash-after"), N: r.Intn(300)})
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

// fit makes options comparable.
func (p *c09Plan) fit() {
	o := &p.Opts
	if o.DelimWrite == "" && !strings.Contains(o.DelimSet(), "=") {
		o.DelimWrite = o.DelimSet()[:1]
	}
	if o.IgnoreInline && o.UnescapeComment {
		o.UnescapeComment = false
	}
	if o.NonUnique {
		p.Pretty.Header = false
	}
}

func (p *c09Plan) optsOK() bool {
	o := p.Opts
	w := o.DelimWrite
	if w == "" {
		w = "="
	}
	return !o.Loose && !o.ShortCircuit && len(w) == 1 && strings.Contains(o.DelimSet(), w) && !(o.IgnoreInline && o.UnescapeComment) && !(o.NonUnique && p.Pretty.Header)
}

func (p *c09Plan) editOK(e Edit) bool {
	o := p.Opts
	if strings.ContainsAny(string(e.Sec), "\r\n") {
		return false
	}
	v := string(e.Val)
	def := e.Sec == "" || strings.EqualFold(string(e.Sec), "default")
	switch e.Do {
	case "newsec", "delsec":
		return true
	case "secnote":
		return !def
	case "bool":
		return o.BoolKeys && strings.Trim(string(e.Key), "abcdefghijklmnopqrstuvwxyz0123456789") == "" && e.Key != ""
	case "delkey":
		return e.Key != "" && e.Key[0] != '#'
	case "nested":
		return o.Nested && !o.Python && c09KeyOK(string(e.Key), o) && v != "" && strings.TrimSpace(v) == v && !strings.ContainsAny(v, "\r\n")
	case "keynote", "set", "new", "shadow":
		if !c09KeyOK(string(e.Key), o) {
			return false
		}
		if e.Do == "keynote" {
			return true
		}
		return c09ValueOK(v)
	}
	return false
}

func c09ValueOK(v string) bool {
	return !(strings.Contains(v, `"""`) && strings.ContainsAny(v, "\n`"))
}

// comparable tells whether the File is in a state that C09 speaks of.
func (p *c09Plan) comparable(f *ini.File) string {
	o := p.Opts
	def := o.FoldSec("DEFAULT")
	if p.Pretty.Header && !f.HasSection("") {
		return "no default section"
	}
	for i, s := range f.Sections() {
		if s.Name() == def && i > 0 && (!o.NonUnique || f.Sections()[0].Name() != def) {
			return "default section not first"
		}
		if s.Name() == def && s.Comment != "" && !p.Pretty.Header {
			return "default section with a comment"
		}
		for _, k := range s.Keys() {
			if n := k.NestedValues(); len(n) > 0 && (k.Value() != "" || o.Python) {
				return "nested values under a value"
			}
			if n := k.Name(); !c09KeyOK(n, o) && n[0] != '#' {
				return "key name"
			}
			if !c09ValueOK(k.Value()) {
				return "value"
			}
			if !o.Shadows {
				continue
			}
			l := k.ValueWithShadows()
			if len(l) > 0 && l[0] != k.Value() {
				return "empty shadow"
			}
			if len(l) > 1 && strings.HasPrefix(k.Name(), "flag") {
				return "boolean key with shadows"
			}
			seen := map[string]bool{}
			for _, v := range l {
				if seen[v] && !o.DuplicateShadows {
					return "shadows repeat"
				}
				seen[v] = true
			}
		}
	}
	return ""
}

// saved describes what a restart has to bring back.
func (p *c09Plan) saved(f *ini.File) string {
	o := p.Opts
	var b strings.Builder
	def := o.FoldSec("DEFAULT")
	for _, s := range f.Sections() {
		if s.Name() == def && len(s.Keys()) == 0 && s.Comment == "" {
			continue
		}
		fmt.Fprintf(&b, "[%q] comment=%q body=%q\n", s.Name(), normComment(s.Comment), s.Body())
		for _, k := range s.Keys() {
			fmt.Fprintf(&b, "  %q=%q all=%q nested=%q comment=%q\n", k.Name(), k.Value(), k.ValueWithShadows(), k.NestedValues(), normComment(k.Comment))
		}
	}
	return b.String()
}

func normComment(c string) string {
	if c == "" {
		return ""
	}
	lines := strings.Split(c, "\n")
	for i, l := range lines {
		if l == "" || l[0] != '#' && l[0] != ';' {
			l = ";" + l
		}
		lines[i] = strings.TrimSpace(l[:1] + " " + strings.TrimSpace(l[1:]))
	}
	return strings.Join(lines, "\n")
}

func runC09(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c09Plan)
	o := p.Opts
	if !p.optsOK() {
		return t.Discard()
	}
	defer p.Pretty.set()()
	k := simos.New()
	args := []interface{}{[]byte(nil)}
	m := ref.NewEmptyModel(o)
	for _, d := range p.Docs {
		if d == nil || !d.Valid(o) || !d.Apply(m) {
			return t.Discard()
		}
		args = append(args, []byte(d.Text(o)))
	}
	var f *ini.File
	var err error
	load := func(args ...interface{}) *core.Violation {
		if v := t.Seq(func() {
			if f, err = loadAll(o, args); err == nil {
				f.BlockMode = !p.NoLock
			}
		}); v != nil {
			return v
		}
		if err != nil {
			return core.V("load", "%v", err)
		}
		return nil
	}
	if v := load(args...); v != nil {
		return v
	}
	type slot struct {
		ok      bool
		content string
		bytes   string
		indent  string
	}
	var disk [2]slot
	last := -1
	compared := 0
	for i, s := range p.Steps {
		if s.Target < 0 || s.Target > 1 || !validKernelFaults(s.Faults) || strings.Trim(s.Indent, " \t") != "" || s.Plain && s.Indent != "" || s.Indent != "" && (o.Nested || o.Python) {
			return t.Discard()
		}
		for _, e := range s.Edits {
			if !p.editOK(e) {
				return t.Discard()
			}
		}
		path := fmt.Sprintf("/simfs/conf%d.ini", s.Target)
		var not, content string
		if v := t.Seq(func() {
			for _, e := range s.Edits {
				e.apply(f)
			}
			if not = p.comparable(f); not == "" {
				content = p.saved(f)
			}
		}); v != nil {
			return v
		}
		k.SetFaults(s.Faults)
		died, v := crashable(t, func() {
			if s.Plain {
				err = f.SaveTo(path)
			} else {
				err = f.SaveToIndent(path, s.Indent)
			}
		})
		if v != nil {
			return v
		}
		k.SetFaults(nil)
		if died || err != nil {
			disk[s.Target] = slot{}
			if last == s.Target {
				last = -1
				if disk[1-s.Target].ok {
					last = 1 - s.Target
				}
			}
			t.Probe(map[bool]string{true: "crash", false: "failed-save"}[died])
		} else {
			b, _ := k.Get(path)
			disk[s.Target] = slot{not == "", content, string(b), s.Indent}
			last = s.Target
			if not != "" {
				t.Probe("outside: " + not)
			}
		}
		if !died && !s.Restart {
			continue
		}
		// A new process.
		k.Restart()
		if last < 0 || !disk[last].ok {
			if v := load(args...); v != nil {
				return v
			}
			continue
		}
		was := disk[last]
		path = fmt.Sprintf("/simfs/conf%d.ini", last)
		bad := func(class, format string, a ...interface{}) *core.Violation {
			return core.V(class, "restart after save %d: %s; the file holds %q", i+1, fmt.Sprintf(format, a...), clip(was.bytes, 500))
		}
		if v := load(path); v != nil {
			return bad(v.Class, "%s", v.Msg)
		}
		var now, again string
		if v := t.Seq(func() {
			now = p.saved(f)
			again, err = render(f, was.indent)
		}); v != nil {
			return bad(v.Class, "%s", v.Msg)
		}
		compared++
		if d := ref.Diff(was.content, now); d != "" {
			return bad("content", "%s", d)
		}
		if err != nil || again != was.bytes {
			return bad("again", "saved again (error %v): %s", err, ref.Diff(was.bytes, again))
		}
		if strings.Contains(was.bytes, "`") {
			t.Probe("quoted")
		}
	}
	countFaults(t, k)
	t.Trivial = compared == 0
	if compared > 0 {
		t.Probe("compared")
	}
	return nil
}

func init() {
	register(&core.Property{
		ID: "C09", Gen: genC09, New: func() core.Plan { return &c09Plan{} }, Run: runC09,
		Quick: 200000, Thorough: 4000000,
		Rule:   "one case is a configuration living through up to five processes: load options, documents, edits with values of every kind, saves to two alternating files (some failing, some cut short by a crash) and restarts, each of which loads the last acknowledged save and compares it with what the File held when it was saved; non-trivial if at least one restart was compared; distinct by plan",
		Real:   "all of go-ini/ini, os and io on top of the simulated kernel",
		Stub:   "the kernel: files, descriptors, process death",
		Probes: []string{"compared", "crash", "failed-save", "quoted"},
	})
}
