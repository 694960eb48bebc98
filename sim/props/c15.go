package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// ReadOp is a look at a File: at the File itself, at one of its sections, or at
// one of its keys.
type ReadOp struct {
	What string `json:"what"` // file, sec, key, save
	S    int    `json:"s"`    // which section of those there are, in order
	K    int    `json:"k"`    // which key of the section
	Fn   int    `json:"fn"`   // which way of reading
	By   string `json:"by"`   // the section and key are looked up by: name, list, index
	Arg  string `json:"arg"`  // a delimiter, or the name of something that may not exist
}

func (o ReadOp) String() string {
	return fmt.Sprintf("read %s %d of section %d, key %d by %s (%q)", o.What, o.Fn, o.S, o.K, o.By, o.Arg)
}

// c15Plan: clients read from one File at the same time, without locks.
type c15Plan struct {
	Opts    ref.Opts      `json:"opts"`
	Pretty  pretty        `json:"pretty"`
	Docs    []*ref.Doc    `json:"docs"`
	Expand  bool          `json:"expand,omitempty"`
	Mapper  bool          `json:"mapper,omitempty"`
	Block   bool          `json:"block,omitempty"` // block mode stays on
	Setup   []Op          `json:"setup,omitempty"`
	Cold    bool          `json:"cold,omitempty"` // in a fresh process
	Clients [][]ReadOp    `json:"clients"`
	Sched   *simrt.Config `json:"sched"`
}

// Schedule makes the plan core.Scheduled.
func (p *c15Plan) Schedule() *simrt.Config { return p.Sched }

// IsCold makes the plan core.Coldable.
func (p *c15Plan) IsCold() bool { return p.Cold }

var c15Setup = []string{"fnew", "fnews", "fdel", "fraw", "snew", "snew", "sbool", "sdel", "ssetbody", "kset", "kshadow", "knest", "kmuststr"}

func genC15(r *core.Rand, tier string) core.Plan {
	p := &c15Plan{Cold: r.Chance(1, 40), Opts: ref.GenOpts(r), Pretty: genPretty(r), Expand: r.Chance(1, 6), Mapper: r.Chance(1, 6), Block: r.Chance(1, 10)}
	o := &p.Opts
	o.Loose, o.ShortCircuit = false, false
	secs := []string{"s1", "s2", "s1.sub", "s1.sub.deep", "raw"}
	keys := []string{"a", "b", "c", "k", "x"}
	names := genLong(r)
	secs, keys = names.Secs(secs, o.Child()), names.Keys(keys)
	docs := 1
	if r.Chance(1, 4) && !o.NonUnique && !o.Shadows {
		docs = 2
	}
	for ; docs > 0; docs-- {
		switch r.Intn(3) {
		case 0:
			p.Docs = append(p.Docs, ref.GenDoc(r, *o))
		default:
			p.Docs = append(p.Docs, ref.GenDocNames(r, *o, secs[:1+r.Intn(len(secs))], keys))
		}
	}
	for _, d := range p.Docs {
		d.Shorten(*o)
		for i := range d.Secs {
			for j := range d.Secs[i].Items {
				if it := &d.Secs[i].Items[j]; it.Kind == "kv" && it.Style == "bare" && len(it.Nested) == 0 && r.Chance(1, 3) {
					was := it.Val
					it.Val = core.Bin(c14Vals[r.Intn(len(c14Vals))])
					if !d.Valid(*o) {
						it.Val = was
					}
				}
			}
		}
	}
	if r.Chance(1, 3) {
		p.Setup = append(p.Setup, Op{Do: "fsec", Name: secs[0]}, Op{Do: "fsec", Name: secs[r.Intn(3)], To: 1})
		for n := r.Intn(5); n > 0; n-- {
			x := Op{Do: c15Setup[r.Intn(len(c15Setup))], S: r.Intn(2), K: r.Intn(2), To: r.Intn(2), Val: c14Vals[r.Intn(len(c14Vals))]}
			if r.Chance(1, 4) {
				x.Val = ""
			}
			switch x.Do[0] {
			case 'f':
				x.Name = secs[r.Intn(len(secs))]
			case 's':
				x.Name = keys[r.Intn(len(keys))]
			}
			p.Setup = append(p.Setup, x)
		}
	}
	if (o.Nested || o.Shadows) && r.Chance(1, 3) {
		// A key with values that were added one by one.
		p.Setup = append(p.Setup, Op{Do: "fsec", Name: secs[r.Intn(2)]}, Op{Do: "snew", Name: keys[r.Intn(3)], Val: c14Vals[r.Intn(len(c14Vals))]})
		do := "knest"
		if !o.Nested || o.Shadows && r.Bool() {
			do = "kshadow"
		}
		for n := 1 + r.Intn(4); n > 0; n-- {
			p.Setup = append(p.Setup, Op{Do: do, Val: r.Pick("", "", "v1", "v2", "7", "%(b)s")})
		}
	}
	if r.Chance(1, 15) {
		p.Setup = append(crowdOps(r, *o, secs, keys), p.Setup...)
	}
	read := func() ReadOp {
		x := ReadOp{What: r.Pick("file", "sec", "key", "key"), S: r.Intn(8), K: r.Intn(8), By: r.Pick("name", "name", "list", "index")}
		switch x.What {
		case "file":
			x.Fn, x.Arg = r.Intn(len(fileReads)), names.Sec(r.Pick("s1", "s2", "", "S1", "none"), ".")
		case "sec":
			x.Fn, x.Arg = r.Intn(len(secReads)), names.Key(r.Pick("a", "b", "A", "none", "v1"))
		case "key":
			x.Fn, x.Arg = r.Intn(len(keyReads)), r.Pick(",", "|", " ")
		}
		return x
	}
	same := []ReadOp{read(), read()}
	n, max := 2+r.Small(1), 4
	if tier == "thorough" {
		n, max = 2+r.Intn(3), 8
	}
	for i := 0; i < n; i++ {
		var l []ReadOp
		for k := 1 + r.Intn(max); k > 0; k-- {
			if r.Chance(1, 3) {
				l = append(l, same[r.Intn(2)])
			} else {
				l = append(l, read())
			}
		}
		if i == 0 && r.Chance(1, 5) {
			l = append(l, ReadOp{What: "save"})
		}
		p.Clients = append(p.Clients, l)
	}
	names.Vals(p.Setup)
	c := core.SchedConfig(r, r.PickInt(50, 300, 1000))
	p.Sched = &c
	return p
}

func (p *c15Plan) valid() bool {
	if p.Sched == nil || len(p.Clients) == 0 || len(p.Clients) > 6 || len(p.Docs) == 0 || p.Opts.Loose || p.Opts.ShortCircuit {
		return false
	}
	for _, d := range p.Docs {
		if d == nil || !d.Valid(p.Opts) {
			return false
		}
	}
	for i, l := range p.Clients {
		for _, op := range l {
			if op.S < 0 || op.K < 0 || op.Fn < 0 || op.What == "key" && op.Arg == "" || op.What == "save" && i > 0 {
				return false
			}
		}
	}
	for _, op := range p.Setup {
		// The default section is there in every loaded File.
		if op.Do == "" || op.Idx < 0 || op.Do[0] == 'x' || strings.Count(op.Val, "%") > 1 ||
			op.Do == "fdel" && (op.Name == "" || strings.EqualFold(op.Name, ini.DefaultSection)) || op.Do == "fdelidx" {
			return false
		}
	}
	return true
}

// look carries out a read. names are the sections there were, by position.
func look(f *ini.File, op ReadOp, k *simos.Kernel) string {
	if op.What == "file" {
		return fileReads[op.Fn%len(fileReads)](f, op.Arg)
	}
	if op.What == "save" {
		if err := f.SaveTo("/simfs/saved.ini"); err != nil {
			return "error: " + err.Error()
		}
		b, _ := k.Get("/simfs/saved.ini")
		return string(b)
	}
	var s *ini.Section
	names := f.SectionStrings()
	if len(names) == 0 {
		return "no section"
	}
	at := op.S % len(names)
	name := names[at]
	switch op.By {
	case "list":
		s = f.Sections()[at]
	case "index":
		nth := 0
		for _, n := range names[:at] {
			if n == name {
				nth++
			}
		}
		s = f.SectionWithIndex(name, nth)
	default:
		s = f.Section(name)
	}
	if op.What == "sec" {
		return secReads[op.Fn%len(secReads)](s, op.Arg)
	}
	keys := s.KeyStrings()
	if len(keys) == 0 {
		return "no key"
	}
	at = op.K % len(keys)
	var key *ini.Key
	if op.By == "list" {
		key = s.Keys()[at]
	} else {
		key = s.Key(keys[at])
	}
	return keyReads[op.Fn%len(keyReads)](key, op.Arg)
}

// stateOf shows a File: how it is written first, as reading it must not change
// that either.
func stateOf(f *ini.File) string {
	first := rendering(f, "")
	return first + ref.DumpReal(f) + rendering(f, "")
}

func runC15(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c15Plan)
	if !p.valid() {
		return t.Discard()
	}
	k := simos.New()
	restore := p.Pretty.set()
	defer restore()
	var srcs []interface{}
	for _, d := range p.Docs {
		srcs = append(srcs, []byte(d.Text(p.Opts)))
	}
	load := func() (*ini.File, error) {
		f, err := loadAll(p.Opts, srcs)
		if err != nil {
			return nil, err
		}
		c := &Client{W: NewReal(f)}
		for _, op := range p.Setup {
			doAny(c, op)
		}
		if p.Expand {
			f.ValueMapper = strings.ToUpper
		}
		if p.Mapper {
			f.NameMapper = ini.SnackCase
		}
		f.BlockMode = p.Block
		return f, nil
	}
	var f *ini.File
	var err error
	if v := t.Seq(func() { f, err = load() }); v != nil {
		return v
	}
	if err != nil {
		return t.Discard() // what this gives is for C04 and C06 to say
	}
	got := make([][]string, len(p.Clients))
	fns := make([]func(), len(p.Clients))
	for i := range p.Clients {
		i := i
		fns[i] = func() {
			for _, op := range p.Clients[i] {
				got[i] = append(got[i], look(f, op, k))
			}
		}
	}
	c := *p.Sched
	if c.MaxSteps == 0 {
		c.MaxSteps = 4000000
	}
	if v := t.Sim(&c, fns...); v != nil {
		return v
	}
	countFaults(t, k)
	var before string
	want := make([][]string, len(p.Clients))
	if v := t.Seq(func() {
		var twin *ini.File
		if twin, err = load(); err != nil {
			return
		}
		before = stateOf(twin)
		for i, l := range p.Clients {
			// What the client would see alone.
			if twin, err = load(); err != nil {
				return
			}
			for _, op := range l {
				want[i] = append(want[i], look(twin, op, k))
			}
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "loading the same once more: %v", err)
	}
	for i, l := range p.Clients {
		for n, op := range l {
			t.Ev("client %d: %s: %s", i, op, got[i][n])
			if got[i][n] != want[i][n] {
				return core.V("result", "client %d, %s: %s; alone: %s", i, op, got[i][n], want[i][n])
			}
		}
	}
	var after string
	if v := t.Seq(func() { after = stateOf(f) }); v != nil {
		return v
	}
	if d := ref.Diff(before, after); d != "" {
		return core.V("changed", "the File was changed by reading it: %s", d)
	}
	t.Trivial = len(p.Clients) < 2 || t.Probes["schedule:switches"] == 0
	return nil
}

func init() {
	register(&core.Property{
		ID: "C15", Gen: genC15, New: func() core.Plan { return &c15Plan{} }, Run: runC15, Race: true,
		Quick: 40000, Thorough: 2000000,
		Rule: "one case is a loaded File (with block mode off), 2 or 3 (thorough: 4) clients with up to 4 (8) reads each and a schedule, run under the race detector; non-trivial if two clients took turns; distinct by document, reads and interleaving",
		Real: "all of go-ini/ini, os and io on top of the simulated kernel, the race detector",
		Stub: "the kernel's files, the scheduling of goroutines",
	})
}
