package props

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// c17Plan: clients use one File in block mode, and the functions they hand to it call
// back into it, fail or panic.
type c17Plan struct {
	Opts    ref.Opts      `json:"opts"`
	Doc     *ref.Doc      `json:"doc,omitempty"`
	Source  string        `json:"source,omitempty"` // bytes, reader, file
	Faults  []simos.Fault `json:"faults,omitempty"` // of the file system
	Setup   []Op          `json:"setup,omitempty"`
	Clients [][]Op        `json:"clients"`
	Acts    []cbAct       `json:"acts"`
	Sched   *simrt.Config `json:"sched"`
}

// cbAct is what happens at one invocation of a callback.
type cbAct struct {
	At int    `json:"at"` // after so many further invocations of any callback
	Do string `json:"do"` // panic, enter, yield, fail
	Op *Op    `json:"op,omitempty"`
}

// Schedule makes the plan core.Scheduled.
func (p *c17Plan) Schedule() *simrt.Config { return p.Sched }

// cbPanic is what callbacks panic with.
type cbPanic struct{ n int }

func (p cbPanic) String() string { return fmt.Sprintf("callback panic %d", p.n) }

// callbacks decides what the callbacks of one run do.
type callbacks struct {
	p     *c17Plan
	on    bool
	next  int // act
	wait  int
	cls   []*Client
	f     *ini.File
	t     *core.T
	depth [64]int
	fired map[int]int // panics by task
}

// call is called by each callback. It returns an error for callbacks that can fail.
func (c *callbacks) call(kind string) error {
	if !c.on || c.next >= len(c.p.Acts) {
		return nil
	}
	if c.wait < c.p.Acts[c.next].At {
		c.wait++
		return nil
	}
	a := c.p.Acts[c.next]
	c.next++
	c.wait = 0
	me := simrt.Cur()
	c.t.Probe("callback " + kind)
	switch a.Do {
	case "panic":
		c.t.Fault("panic in "+kind, 1)
		c.fired[me]++
		panic(cbPanic{c.next})
	case "enter":
		if a.Op != nil && me < len(c.cls) {
			c.t.Fault("re-entry in "+kind, 1)
			c.do(c.cls[me], *a.Op)
		}
	case "fail":
		c.t.Fault("error from "+kind, 1)
		return errSim
	default:
		for i := 0; i < 20; i++ {
			simrt.Yield(1)
		}
	}
	return nil
}

// c17Refl is a struct type that writes itself.
type c17Refl struct{ c *callbacks }

func (r c17Refl) ReflectINIStruct(f *ini.File) error {
	if r.c == nil {
		return nil
	}
	if f != r.c.f {
		return errors.New("the reflector was given another File")
	}
	return r.c.call("struct reflector")
}

type c17Struct struct {
	Ab   string
	N    int
	S1   batInner `ini:"s1"`
	Self c17Refl
}

// cbReader is a source that calls back. It can be read again once closed.
type cbReader struct {
	c    *callbacks
	data []byte
	off  int
}

func (r *cbReader) Read(b []byte) (int, error) {
	if err := r.c.call("reader"); err != nil {
		return 0, err
	}
	if r.off >= len(r.data) {
		return 0, io.EOF
	}
	n := copy(b, r.data[r.off:])
	r.off += n
	return n, nil
}

func (r *cbReader) Close() error {
	r.off = 0
	return r.c.call("closer")
}

type cbWriter struct{ c *callbacks }

func (w cbWriter) Write(b []byte) (int, error) {
	if err := w.c.call("writer"); err != nil {
		return 0, err
	}
	return len(b), nil
}

// do carries out an operation of any kind, with callbacks where there can be some.
func (c *callbacks) do(cl *Client, op Op) string {
	f := c.f
	var err error
	switch op.Do {
	case "xvalidate":
		k := cl.keys[op.K%slots]
		if k == nil {
			return "skipped"
		}
		return k.Validate(func(s string) string { _ = c.call("validator"); return s + "!" })
	case "xwriteto":
		_, err = f.WriteTo(cbWriter{c})
	case "xreflect":
		err = f.ReflectFrom(&c17Struct{Ab: op.Val, N: 1, Self: c17Refl{c}})
	case "xsreflect":
		s := cl.secs[op.S%slots]
		if s == nil {
			return "skipped"
		}
		err = s.ReflectFrom(&c17Struct{Ab: op.Val, N: 1, Self: c17Refl{c}})
	case "xmap":
		err = f.MapTo(&c17Struct{})
	case "xappendr":
		err = f.Append(&cbReader{c: c, data: []byte(op.Val)})
	default:
		return doAny(cl, op)
	}
	if err != nil {
		return "error: " + err.Error()
	}
	return "done"
}

func genC17(r *core.Rand, tier string) core.Plan {
	p := &c17Plan{Opts: ref.GenOpts(r), Source: r.Pick("bytes", "reader", "reader", "file")}
	o := &p.Opts
	o.Debug = r.Chance(1, 2)
	o.Python = o.Python || o.Debug && r.Chance(3, 4)
	o.Loose, o.ShortCircuit = r.Chance(1, 10), r.Chance(1, 10)
	secs := []string{"s1", "s2", "s1.sub", "DEFAULT", "", "S1"}
	keys := []string{"ab", "n", "a", "b", "c", "k"}
	names := genLong(r)
	secs, keys = names.Secs(secs, o.Child()), names.Keys(keys)
	if r.Chance(2, 3) {
		ds := secs[:3:3]
		if len(o.Raw) > 0 {
			ds = append(ds, "raw", "raw")
		}
		p.Doc = ref.GenDocNames(r, *o, ds, keys)
		p.Doc.Shorten(*o)
	}
	pool := append([]string{"rkey", "rkey", "rkey", "rsec", "rfile", "xvalidate", "xvalidate", "xwriteto", "xwriteto", "xreflect", "xsreflect", "xmap",
		"xappendr", "xreload", "xreload", "xsave"}, c14Writes...)
	op := func() Op {
		x := Op{Do: pool[r.Intn(len(pool))], S: r.Intn(2), K: r.Intn(2), To: r.Intn(2), Idx: r.Intn(3), Val: c14Vals[r.Intn(len(c14Vals))]}
		switch x.Do {
		case "rkey":
			x.Idx = r.Intn(len(keyReads))
			x.Val = r.Pick(",", "|", " ")
		case "rsec":
			x.Idx = r.Intn(len(secReads))
			x.Name = keys[r.Intn(len(keys))]
		case "rfile":
			x.Idx = r.Intn(len(fileReads))
			x.Name = secs[r.Intn(len(secs))]
		case "fnews":
			x.Name, x.Val = secs[r.Intn(len(secs))], secs[r.Intn(len(secs))]
		case "xappend", "xappendr":
			d := ref.GenDocNames(r, *o, names.Secs([]string{"s1", "s2", "raw"}, o.Child()), keys)
			d.Shorten(*o)
			x.Val = d.Text(*o)
		}
		switch x.Do[0] {
		case 'f':
			x.Name = secs[r.Intn(len(secs))]
		case 's':
			x.Name = keys[r.Intn(len(keys))]
		}
		return x
	}
	p.Setup = []Op{{Do: "fsec", Name: secs[0]}, {Do: "fsec", Name: secs[r.Intn(3)], To: 1}}
	for i := 0; i < 2; i++ {
		p.Setup = append(p.Setup, Op{Do: "snew", S: i, Name: keys[r.Intn(3)], Val: c14Vals[r.Intn(len(c14Vals))], To: i})
	}
	if r.Chance(1, 80) {
		p.Setup = append(crowdOps(r, *o, secs, keys), p.Setup...)
	}
	n, max, acts := 1+r.Intn(3), 4, 3
	if tier == "thorough" {
		n, max, acts = 1+r.Intn(4), 8, 8
	}
	for i := 0; i < n; i++ {
		var l []Op
		for k := 1 + r.Intn(max); k > 0; k-- {
			l = append(l, op())
		}
		p.Clients = append(p.Clients, l)
	}
	names.Vals(p.Setup)
	for _, l := range p.Clients {
		names.Vals(l)
	}
	for k := r.Intn(acts + 1); k > 0; k-- {
		a := cbAct{At: r.Small(6), Do: r.Pick("panic", "panic", "enter", "enter", "enter", "fail", "yield")}
		if r.Chance(1, 8) {
			a.At = r.Intn(60)
		}
		if a.Do == "enter" {
			x := op()
			a.Op = &x
		}
		p.Acts = append(p.Acts, a)
	}
	for k := r.Small(2); k > 0 && r.Chance(1, 2); k-- {
		ft := genWriteFault(r)
		if ft.Op != "close" && r.Bool() {
			ft.Op, ft.Kind = r.Pick("open", "read"), r.Pick("EIO", "EACCES", "EMFILE")
		}
		p.Faults = append(p.Faults, ft)
	}
	c := core.SchedConfig(r, r.PickInt(50, 300, 1000))
	p.Sched = &c
	return p
}

func (p *c17Plan) valid() bool {
	if p.Sched == nil || len(p.Clients) == 0 || len(p.Clients) > 6 || p.Doc != nil && !p.Doc.Valid(p.Opts) {
		return false
	}
	ok := func(op Op) bool {
		doc := op.Do == "xappend" || op.Do == "xappendr"
		return op.Do != "" && op.Idx >= 0 && (doc || strings.Count(op.Val, "%") <= 1)
	}
	for _, l := range append([][]Op{p.Setup}, p.Clients...) {
		for _, op := range l {
			if !ok(op) {
				return false
			}
		}
	}
	for _, a := range p.Acts {
		if a.At < 0 || a.Op != nil && !ok(*a.Op) {
			return false
		}
	}
	return true
}

func runC17(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c17Plan)
	if !p.valid() {
		return t.Discard()
	}
	o := p.Opts
	kern := simos.New()
	restore := pretty{}.set()
	defer restore()
	text := ""
	if p.Doc != nil {
		text = p.Doc.Text(o)
	}
	c := &callbacks{p: p, t: t, fired: map[int]int{}}
	var src interface{} = []byte(text)
	switch p.Source {
	case "reader":
		src = &cbReader{c: c, data: []byte(text)}
	case "file":
		kern.Put("/simfs/src.ini", []byte(text))
		src = "/simfs/src.ini"
	}
	lo := o.Load()
	if o.Debug {
		lo.DebugFunc = func(string) { _ = c.call("debug function") }
	}
	first := &Client{}
	var err error
	if v := t.Seq(func() {
		if c.f, err = ini.LoadSources(lo, src); err != nil {
			return
		}
		first.W = NewReal(c.f)
		for _, op := range p.Setup {
			doAny(first, op)
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "%v", err)
	}
	f := c.f
	f.ValueMapper = func(s string) string { _ = c.call("value mapper"); return s }
	f.NameMapper = func(s string) string { _ = c.call("name mapper"); return ini.SnackCase(s) }
	fns := make([]func(), len(p.Clients))
	var bad *core.Violation
	for i := range p.Clients {
		i := i
		cl := &Client{W: NewReal(f), secs: first.secs, keys: first.keys}
		c.cls = append(c.cls, cl)
		fns[i] = func() {
			for n, op := range p.Clients[i] {
				c.fired[i] = 0
				res := ""
				val, stack := simrt.Catch(func() { res = c.do(cl, op) })
				_, ours := val.(cbPanic)
				switch {
				case bad != nil:
				case val != nil && !ours:
					bad = &core.Violation{Class: "panic", Msg: fmt.Sprintf("client %d, %s: panic: %v", i, op, val), Trace: core.Frames(stack)}
				case val == nil && c.fired[i] > 0:
					bad = core.V("swallowed", "client %d, %s: the panic of a callback did not reach the caller: %s", i, op, res)
				}
				if val != nil {
					res = fmt.Sprint("panic: ", val)
				}
				t.Ev("client %d, step %d: %s: %s", i, n, op, res)
			}
		}
	}
	sc := *p.Sched
	if sc.MaxSteps == 0 {
		sc.MaxSteps = 4000000
	}
	c.on = true
	kern.SetFaults(p.Faults)
	if v := t.Sim(&sc, fns...); v != nil {
		v.Trace = append(v.Trace, t.Events...)
		return v
	}
	if bad != nil {
		return bad
	}
	sw, fl := t.Switches, t.Overflow
	c.on = false
	countFaults(t, kern)
	kern.SetFaults(nil)
	// Everybody can still read and write.
	for i := range p.Clients {
		i := i
		fns[i] = func() {
			name := fmt.Sprintf("probe%d", i)
			s, err := f.NewSection(name)
			if err != nil {
				bad = core.V("probe", "NewSection after all: %v", err)
				return
			}
			k, err := s.NewKey("key", "1")
			if err != nil {
				bad = core.V("probe", "NewKey after all: %v", err)
				return
			}
			k.SetValue("2")
			if got := f.Section(name).Key("key").String(); got != "2" {
				bad = core.V("probe", "the value set after all is %q", got)
			}
			if txt := rendering(f, ""); !strings.Contains(txt, "["+name+"]") {
				bad = core.V("probe", "section %s is missing from what is written after all", name)
			}
			_ = f.SectionStrings()
			f.DeleteSection(name)
			if f.HasSection(name) {
				bad = core.V("probe", "DeleteSection had no effect after all")
			}
		}
	}
	cfg := sc
	if cfg.Kind == simrt.Replay {
		cfg = simrt.Config{Kind: simrt.Stay, MaxSteps: sc.MaxSteps}
	}
	if v := t.Sim(&cfg, fns...); v != nil {
		v.Msg = "after all operations: " + v.Msg
		return v
	}
	t.Switches, t.Overflow = sw, fl
	if bad != nil {
		return bad
	}
	t.Trivial = t.Probes["schedule:switches"] == 0 && c.next == 0
	return nil
}

func init() {
	register(&core.Property{
		ID: "C17", Gen: genC17, New: func() core.Plan { return &c17Plan{} }, Run: runC17,
		Quick: 250000, Thorough: 10000000,
		Rule: "one case is a File in block mode, up to 3 (thorough: 4) clients with up to 4 (8) operations each, what the callbacks do at up to 3 (8) of their invocations, and a schedule; non-trivial if two clients took turns or a callback did something; distinct by operations, callbacks and interleaving",
		Real: "all of go-ini/ini",
		Stub: "the user's value mappers, name mappers, validators, debug functions, struct reflectors, readers and writers; the scheduling of goroutines and the granting of locks",
		Probes: []string{"callback value mapper", "callback name mapper", "callback validator", "callback debug function", "callback struct reflector",
			"callback reader", "callback closer", "callback writer"},
	})
}
