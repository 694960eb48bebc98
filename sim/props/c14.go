package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// c14Plan: clients do anything with one File at the same time.
type c14Plan struct {
	Opts    ref.Opts      `json:"opts"`
	Pretty  pretty        `json:"pretty"`
	Doc     *ref.Doc      `json:"doc,omitempty"`
	Source  string        `json:"source,omitempty"` // bytes, file
	Expand  bool          `json:"expand,omitempty"` // a value mapper is set
	Setup   []Op          `json:"setup,omitempty"`
	Cold    bool          `json:"cold,omitempty"` // in a fresh process
	Clients [][]Op        `json:"clients"`
	Sched   *simrt.Config `json:"sched"`
}

// Schedule makes the plan core.Scheduled.
func (p *c14Plan) Schedule() *simrt.Config { return p.Sched }

// IsCold makes the plan core.Coldable.
func (p *c14Plan) IsCold() bool { return p.Cold }

var (
	c14Reads  = []string{"rkey", "rkey", "rkey", "rsec", "rsec", "rfile", "rfile"}
	c14Writes = []string{"fnew", "fnews", "fsec", "fidx", "fdel", "fdelidx", "fraw", "fkids", "snew", "snew", "sbool", "skey", "sdel", "ssetbody",
		"kset", "kset", "kshadow", "knest", "kmuststr", "kmustint", "kmustbool", "kmust64", "kmustuint", "kmustuint64", "kmustfloat", "kmustdur", "kmusttime",
		"xreload", "xappend"}
	c14Pairs = []string{"fnew", "fnews", "fsec", "fidx", "fdel", "fdelidx", "fraw", "snew", "snew", "sbool", "skey", "sdel", "sdel", "ssetbody",
		"kset", "kset", "kshadow", "knest", "kmust", "xreload", "xappend"}
	c14Vals = []string{"", "v1", "7", "true", "1.5", "2s", "1,2,3", "a|b", "%(b)s", "%(c)s x", "2001-02-03T04:05:06Z"}
)

// genPair draws a plan in which few calls of one kind meet few of another one.
func genPair(r *core.Rand) *c14Plan {
	p := &c14Plan{Cold: r.Chance(1, 200), Opts: genConcOpts(r), Expand: r.Chance(1, 4), Source: "bytes"}
	secs, keys := []string{"p", "p.q"}, []string{"a", "b"}
	if r.Chance(1, 5) {
		secs[0] = "DEFAULT"
	}
	vals := c14Vals
	if r.Bool() {
		vals = c14Vals[1:3]
	}
	kind := func(reads bool) Op {
		if !reads {
			x := Op{Do: c14Pairs[r.Intn(len(c14Pairs))], Idx: r.Intn(3)}
			if x.Do == "kmust" {
				x.Do = r.Pick("kmuststr", "kmustint", "kmustbool", "kmust64", "kmustuint", "kmustuint64", "kmustfloat", "kmustdur", "kmusttime")
			}
			return x
		}
		switch n := r.Intn(10); {
		case n < 3:
			if r.Bool() { // most of the others read the value in the same way
				return Op{Do: "rkey", Idx: r.PickInt(1, 2, 3, 3, 4, 4, 21, 22, 22)}
			}
			return Op{Do: "rkey", Idx: r.Intn(len(keyReads))}
		case n < 7:
			return Op{Do: "rsec", Idx: r.Intn(len(secReads))}
		}
		return Op{Do: "rfile", Idx: r.Intn(len(fileReads))}
	}
	a, b := kind(r.Chance(3, 4)), kind(false)
	p.Opts.Shadows = p.Opts.Shadows || b.Do == "kshadow"
	p.Opts.Nested = p.Opts.Nested || b.Do == "knest"
	for i := range secs {
		p.Setup = append(p.Setup, Op{Do: "fsec", Name: secs[i], To: i})
	}
	for i := range secs {
		p.Setup = append(p.Setup, Op{Do: "snew", S: i, Name: keys[i], Val: vals[r.Intn(len(vals))], To: i})
		if r.Chance(1, 3) {
			p.Setup = append(p.Setup, Op{Do: "kshadow", K: i, Val: vals[r.Intn(len(vals))]})
		}
		if p.Opts.Nested && r.Bool() {
			p.Setup = append(p.Setup, Op{Do: "knest", K: i, Val: "v1"})
		}
		if r.Chance(1, 5) {
			p.Setup = append(p.Setup, Op{Do: "snew", S: i, Name: keys[1-i], Val: vals[r.Intn(len(vals))], To: 2})
		}
	}
	fill := func(x Op) Op {
		x.S, x.K, x.To, x.Val = r.Intn(2), r.Intn(2), r.Intn(2), vals[r.Intn(len(vals))]
		switch x.Do {
		case "rkey":
			x.Val = r.Pick(",", "|", " ")
		case "rsec":
			x.Name = keys[r.Intn(2)]
		case "fnews":
			x.Val = secs[r.Intn(2)]
		case "xappend":
			x.Val = "p"
		}
		switch x.Do[0] {
		case 's':
			x.Name = keys[r.Intn(2)]
		case 'f':
			x.Name = secs[r.Intn(2)]
		}
		if x.Do == "rfile" {
			x.Name = secs[r.Intn(2)]
		}
		return x
	}
	if r.Chance(1, 12) {
		p.Setup = append(crowdOps(r, p.Opts, secs, keys), p.Setup...)
	}
	for _, x := range []Op{a, b} {
		var l []Op
		n := 1
		if r.Chance(1, 2) {
			n += r.Intn(3)
		}
		for ; n > 0; n-- {
			l = append(l, fill(x))
			if r.Chance(1, 8) {
				l = append(l, fill(kind(r.Bool())))
			}
		}
		p.Clients = append(p.Clients, l)
	}
	c := core.SchedConfig(r, r.PickInt(20, 50, 200))
	p.Sched = &c
	return p
}

func genC14(r *core.Rand, tier string) core.Plan {
	if r.Chance(3, 5) {
		p := genPair(r)
		names := genLong(r)
		names.Ops(p.Setup, p.Opts.Child())
		for _, l := range p.Clients {
			names.Ops(l, p.Opts.Child())
			for i := range l {
				if l[i].Do == "xappend" {
					l[i].Val = fmt.Sprintf("[%s]\n%s = 2\n[%s]\n%s = 3\n", names.Sec("p", "."), names.Key("a"), names.Sec("p.q", "."), names.Key("b"))
				}
			}
		}
		return p
	}
	p := &c14Plan{Cold: r.Chance(1, 40), Opts: ref.GenOpts(r), Pretty: genPretty(r), Expand: r.Chance(1, 4), Source: r.Pick("bytes", "bytes", "file")}
	o := &p.Opts
	o.Loose, o.ShortCircuit = r.Chance(1, 10), r.Chance(1, 10)
	secs := []string{"s1", "s2", "s1.sub", "DEFAULT", "", "raw", "S1"}
	keys := []string{"a", "b", "c", "A", "k"}
	names := genLong(r)
	secs, keys = names.Secs(secs, o.Child()), names.Keys(keys)
	if r.Chance(1, 2) {
		p.Doc = ref.GenDocNames(r, *o, secs[:4], keys)
	}
	nsec, nkey := 1+r.Small(3), 1+r.Small(3)
	secs, keys = secs[r.Intn(2):][:nsec], keys[:nkey]
	op := func(pool []string) Op {
		x := Op{Do: pool[r.Intn(len(pool))], S: r.Intn(2), K: r.Intn(2), To: r.Intn(2), Idx: r.Intn(3), Val: c14Vals[r.Intn(len(c14Vals))]}
		switch x.Do {
		case "rkey":
			x.Idx = r.Intn(len(keyReads))
			x.Val = r.Pick(",", "|", " ")
		case "rsec":
			x.Idx = r.Intn(len(secReads))
			x.Name = keys[r.Intn(len(keys))]
		case "rfile":
			x.Idx = r.Intn(len(fileReads))
			x.Name = secs[r.Intn(len(secs))]
		case "fnews":
			x.Name, x.Val = secs[r.Intn(len(secs))], secs[r.Intn(len(secs))]
		case "xappend":
			x.Val = ref.GenDocNames(r, *o, names.Secs([]string{"s1", "s2"}, o.Child()), keys).Text(*o)
		}
		switch x.Do[0] {
		case 'f':
			x.Name = secs[r.Intn(len(secs))]
		case 's':
			x.Name = keys[r.Intn(len(keys))]
		}
		return x
	}
	for i, s := range secs {
		p.Setup = append(p.Setup, Op{Do: "fsec", Name: s, To: i % 2})
	}
	for i, k := range keys {
		p.Setup = append(p.Setup, Op{Do: "snew", S: r.Intn(2), Name: k, Val: c14Vals[r.Intn(len(c14Vals))], To: i % 2})
	}
	if o.Shadows && r.Chance(1, 2) {
		for k := r.Intn(4); k > 0; k-- {
			p.Setup = append(p.Setup, Op{Do: "kshadow", K: r.Intn(2), Val: r.Pick("", "", "v1", "7", "8")})
		}
	}
	if r.Chance(1, 12) {
		p.Setup = append(crowdOps(r, *o, secs, keys), p.Setup...)
	}
	n := 2 + r.Small(1)
	max := 3
	if tier == "thorough" {
		n, max = 2+r.Intn(3), 6
	}
	some := []string{c14Writes[r.Intn(len(c14Writes))], c14Writes[r.Intn(len(c14Writes))]}
	for i := 0; i < n; i++ {
		var l []Op
		for k := 1 + r.Intn(max); k > 0; k-- {
			switch {
			case r.Chance(1, 2):
				l = append(l, op(c14Reads))
			case r.Chance(1, 2):
				l = append(l, op(some))
			default:
				l = append(l, op(c14Writes))
			}
		}
		if i == 0 && r.Chance(1, 6) {
			l = append(l, Op{Do: "xsave"})
		}
		if i > 0 && p.Source == "file" {
			var m []Op
			for _, x := range l {
				if x.Do != "xreload" && x.Do != "xappend" {
					m = append(m, x)
				}
			}
			l = m
		}
		p.Clients = append(p.Clients, l)
	}
	names.Vals(p.Setup)
	for _, l := range p.Clients {
		names.Vals(l)
	}
	c := core.SchedConfig(r, r.PickInt(50, 300, 1000))
	p.Sched = &c
	return p
}

func (p *c14Plan) valid() bool {
	if p.Sched == nil || len(p.Clients) == 0 || len(p.Clients) > 6 || p.Doc != nil && !p.Doc.Valid(p.Opts) {
		return false
	}
	selfish := func(op Op) bool { return strings.Count(op.Val, "%") > 1 && op.Do != "xappend" }
	for i, l := range p.Clients {
		for _, op := range l {
			if op.Do == "" || op.Idx < 0 || selfish(op) {
				return false
			}
			// What several clients do with simulated files would order them.
			if i > 0 && (op.Do == "xsave" || p.Source == "file" && (op.Do == "xreload" || op.Do == "xappend")) {
				return false
			}
		}
	}
	for _, op := range p.Setup {
		if op.Do == "" || op.Idx < 0 || op.Do[0] == 'x' || selfish(op) {
			return false
		}
	}
	return true
}

// doAny carries out an operation of any kind. It returns what it led to, roughly.
func doAny(c *Client, op Op) string {
	f := c.W.F
	switch op.Do {
	case "rkey":
		k := c.keys[op.K%slots]
		d := op.Val
		if d == "" {
			d = ","
		}
		if k == nil {
			return "skipped"
		}
		return keyReads[op.Idx%len(keyReads)](k, d)
	case "rsec":
		s := c.secs[op.S%slots]
		if s == nil {
			return "skipped"
		}
		return secReads[op.Idx%len(secReads)](s, op.Name)
	case "rfile":
		return fileReads[op.Idx%len(fileReads)](f, op.Name)
	case "xsave":
		if err := f.SaveTo("/simfs/saved.ini"); err != nil {
			return err.Error()
		}
	case "xreload":
		if err := f.Reload(); err != nil {
			return err.Error()
		}
	case "xappend":
		if err := f.Append([]byte(op.Val)); err != nil {
			return err.Error()
		}
	default:
		return c.Do(op).String()
	}
	return ""
}

func runC14(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c14Plan)
	if !p.valid() {
		return t.Discard()
	}
	o := p.Opts
	k := simos.New()
	restore := p.Pretty.set()
	defer restore()
	text := ""
	if p.Doc != nil {
		text = p.Doc.Text(o)
	}
	var src interface{} = []byte(text)
	if p.Source == "file" {
		k.Put("/simfs/src.ini", []byte(text))
		src = "/simfs/src.ini"
	}
	var f *ini.File
	var err error
	first := &Client{}
	if v := t.Seq(func() {
		if f, err = loadAll(o, []interface{}{src}); err != nil {
			return
		}
		if p.Expand {
			f.ValueMapper = strings.ToUpper
		}
		first.W = NewReal(f)
		for _, op := range p.Setup {
			doAny(first, op)
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "%v", err)
	}
	fns := make([]func(), len(p.Clients))
	total := 0
	for i := range p.Clients {
		i := i
		c := &Client{W: NewReal(f), secs: first.secs, keys: first.keys}
		if len(p.Clients[i]) > 0 {
			total++
		}
		fns[i] = func() {
			for _, op := range p.Clients[i] {
				doAny(c, op)
			}
		}
	}
	c := *p.Sched
	if c.MaxSteps == 0 {
		c.MaxSteps = 4000000
	}
	for i, l := range p.Clients {
		for _, op := range l {
			t.Ev("client %d: %s", i, op)
		}
	}
	v := t.Sim(&c, fns...)
	countFaults(t, k)
	t.Trivial = total < 2 || t.Probes["schedule:switches"] == 0
	return v
}

func init() {
	register(&core.Property{
		ID: "C14", Gen: genC14, New: func() core.Plan { return &c14Plan{} }, Run: runC14, Race: true,
		Quick: 120000, Thorough: 4000000,
		Rule: "one case is a File in block mode, 2 or 3 (thorough: 4) clients with up to 3 (6) operations of any kind and a schedule, run under the race detector; non-trivial if two clients took turns; distinct by operations and interleaving",
		Real: "all of go-ini/ini, os and io on top of the simulated kernel, the race detector",
		Stub: "the kernel's files, the scheduling of goroutines; package sync's locks are granted by the simulator and then really taken",
	})
}
