package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// c16Plan: clients each work on Files of their own.
type c16Plan struct {
	Opts    []ref.Opts    `json:"opts"` // of each client, or of all
	Pretty  pretty        `json:"pretty"`
	Docs    []*ref.Doc    `json:"docs"` // what the sources have in them
	Files   bool          `json:"files,omitempty"`
	Cold    bool          `json:"cold,omitempty"` // everything in fresh processes
	Clients [][]sessOp    `json:"clients"`
	Sched   *simrt.Config `json:"sched"`
}

// sessOp is a step of a session.
type sessOp struct {
	Do   string  `json:"do"`            // load, edit, read, reflect, map, save, append, reload, render, new
	Src  string  `json:"src,omitempty"` // bytes, reader, closer, file
	N    int     `json:"n,omitempty"`   // which source, struct, indent
	Op   *Op     `json:"op,omitempty"`
	Read *ReadOp `json:"read,omitempty"`
}

func (o sessOp) String() string {
	s := o.Do
	if o.Src != "" {
		s += " from " + o.Src
	}
	if o.Op != nil {
		s += " " + o.Op.String()
	}
	if o.Read != nil {
		s += " " + o.Read.String()
	}
	return fmt.Sprintf("%s %d", s, o.N)
}

// Schedule makes the plan core.Scheduled.
func (p *c16Plan) Schedule() *simrt.Config { return p.Sched }

// IsCold makes the plan core.Coldable.
func (p *c16Plan) IsCold() bool { return p.Cold }

type (
	c16Inner struct {
		K string `comment:"k"`
		N int
		L []int `delim:"|"`
	}
	c16All struct {
		A  string        `ini:"a" comment:"one\ntwo"`
		B  int           `ini:"b,omitempty"`
		C  bool          `ini:"c"`
		D  time.Duration `ini:"k"`
		T  time.Time     `ini:"x"`
		F  float64
		U  uint64
		L  []string  `delim:"|"`
		W  []int     `ini:"w,omitempty,allowshadow"`
		P  *string   `ini:"p"`
		S1 c16Inner  `ini:"s1" comment:"section"`
		S2 *c16Inner `ini:"s2"`
		Em c16Inner  `ini:"s1.sub"`
		batEmbed
		ConnectionTimeoutLimit string
		MaxOpenConnections     int
	}
	c16Pre struct {
		L  []string  `ini:"a" delim:" "`
		W  []int     `ini:"b"`
		B  []bool    `ini:"c,omitempty,allowshadow"`
		X  []float64 `ini:"x" delim:"|"`
		P  *string   `ini:"k"`
		In c16Inner  `ini:"s1"`
	}
	c16Rep struct {
		V  level
		S1 []c16Inner  `ini:"s1,,,nonunique"`
		S2 []*c16Inner `ini:"s2,,,nonunique"`
	}
)

// c16Values are written by several clients at the same time.
func c16Values() []interface{} {
	s := "pointed to"
	in := c16Inner{K: "v ; w", N: 3, L: []int{1, 2}}
	return []interface{}{
		&c16All{A: "x", B: 2, C: true, D: time.Minute, T: someTimes[0], F: 1.5, U: 9, L: []string{"p", "q"}, W: []int{4, 5}, P: &s, S1: in, S2: &in, Em: in, batEmbed: batEmbed{C: "emb", T: someTimes[1]}, ConnectionTimeoutLimit: "none", MaxOpenConnections: 12},
		&c16All{},
		&c16Rep{V: "lev", S1: []c16Inner{in, {K: "2"}}, S2: []*c16Inner{&in}},
		&in,
		&c16Pre{L: []string{"d1", "d2", "d3"}, W: []int{7, 8}, B: []bool{true, true}, X: []float64{1, 2}, P: &s, In: in},
	}
}

func genC16(r *core.Rand, tier string) core.Plan {
	p := &c16Plan{Pretty: genPretty(r), Files: r.Chance(1, 5), Cold: r.Chance(1, 25)}
	n, max := 2+r.Small(1), 6
	if tier == "thorough" {
		n, max = 2+r.Intn(3), 12
	}
	o := ref.GenOpts(r)
	o.Loose, o.ShortCircuit = false, false
	p.Opts = []ref.Opts{o}
	if r.Chance(1, 3) {
		for len(p.Opts) < n {
			o := ref.GenOpts(r)
			o.Loose, o.ShortCircuit = false, false
			p.Opts = append(p.Opts, o)
		}
	}
	secs := []string{"s1", "s2", "s1.sub", "s1.sub.deep", "raw"}
	keys := []string{"a", "b", "c", "k", "x"}
	names := genLong(r)
	secs, keys = names.Secs(secs, o.Child()), names.Keys(keys)
	for k := 1 + r.Small(2); k > 0; k-- {
		d := ref.GenDocNames(r, o, secs[:1+r.Intn(len(secs))], keys)
		d.Shorten(o)
		p.Docs = append(p.Docs, d)
	}
	src := func() string {
		if p.Files {
			return r.Pick("bytes", "reader", "closer", "file", "file")
		}
		return r.Pick("bytes", "bytes", "reader", "closer")
	}
	step := func() sessOp {
		x := sessOp{Do: r.Pick("load", "edit", "edit", "edit", "read", "read", "reflect", "map", "save", "append", "reload", "render", "new"), N: r.Intn(4)}
		switch x.Do {
		case "load", "map", "append":
			x.Src = src()
		case "save":
			if !p.Files {
				x.Do = "render"
			}
		case "edit":
			e := Op{Do: c14Writes[r.Intn(len(c14Writes)-2)], S: r.Intn(2), K: r.Intn(2), To: r.Intn(2), Idx: r.Intn(2), Val: c14Vals[r.Intn(len(c14Vals))]}
			switch e.Do[0] {
			case 'f':
				e.Name = secs[r.Intn(len(secs))]
			case 's':
				e.Name = keys[r.Intn(len(keys))]
			}
			e.Val = names.Val(e.Val)
			x.Op = &e
		case "read":
			e := ReadOp{What: r.Pick("file", "sec", "key", "key"), S: r.Intn(8), K: r.Intn(8), Fn: r.Intn(64), By: r.Pick("name", "list", "index"), Arg: r.Pick(",", "|", "a", "s1")}
			x.Read = &e
		}
		return x
	}
	var shared []sessOp
	for k := r.Intn(max); k >= 0; k-- {
		shared = append(shared, step())
	}
	for i := 0; i < n; i++ {
		l := []sessOp{{Do: "load", Src: src(), N: r.Intn(4)}}
		if r.Chance(1, 2) {
			l = append(l, shared...) // all do the same
		} else {
			for k := r.Intn(max); k >= 0; k-- {
				l = append(l, step())
			}
		}
		p.Clients = append(p.Clients, l)
	}
	c := core.SchedConfig(r, r.PickInt(200, 1000, 4000))
	p.Sched = &c
	return p
}

func (p *c16Plan) valid() bool {
	if p.Sched == nil || len(p.Clients) == 0 || len(p.Clients) > 6 || len(p.Docs) == 0 || len(p.Opts) == 0 {
		return false
	}
	for _, d := range p.Docs {
		if d == nil || !d.Valid(p.Opts[0]) {
			return false
		}
	}
	for _, o := range p.Opts {
		if o.Loose || o.ShortCircuit {
			return false
		}
	}
	for _, l := range p.Clients {
		for _, op := range l {
			files := op.Src == "file" || op.Do == "save"
			if op.N < 0 || files && !p.Files || (op.Do == "edit") != (op.Op != nil) || (op.Do == "read") != (op.Read != nil) {
				return false
			}
			if e := op.Op; e != nil && (e.Do == "" || e.Idx < 0 || e.Do[0] == 'x' || strings.Count(e.Val, "%") > 1) {
				return false
			}
			if e := op.Read; e != nil && (e.S < 0 || e.K < 0 || e.Fn < 0 || e.Arg == "" || e.What == "save") {
				return false
			}
		}
	}
	return true
}

// session carries out what a client does. It returns what each step led to.
func (p *c16Plan) session(i int, lo []ini.LoadOptions, shared [][]byte, vals []interface{}, k *simos.Kernel) []string {
	var out []string
	f := ini.Empty()
	c := &Client{W: NewReal(f)}
	opt := lo[i%len(lo)]
	mapper := []ini.NameMapper{ini.SnackCase, ini.TitleUnderscore, strings.ToLower}[i%3]
	path := fmt.Sprintf("/simfs/out%d.ini", i)
	for _, op := range p.Clients[i] {
		res := "done"
		fail := func(err error) {
			if err != nil {
				res = "error: " + err.Error()
			}
		}
		var src interface{}
		at := op.N % len(shared)
		switch op.Src {
		case "bytes":
			src = shared[at]
		case "reader":
			src = bytes.NewReader(shared[at])
		case "closer":
			src = io.NopCloser(bytes.NewReader(shared[at]))
		case "file":
			src = fmt.Sprintf("/simfs/src%d.ini", at)
		}
		switch op.Do {
		case "load":
			g, err := ini.LoadSources(opt, src)
			fail(err)
			if err == nil {
				f = g
				if op.N >= 2 {
					f.NameMapper = mapper
				}
				if op.N == 3 {
					f.ValueMapper = strings.ToUpper
				}
				c = &Client{W: NewReal(f)}
				res = ref.DumpReal(f)
			}
		case "new":
			f = ini.Empty(opt)
			c = &Client{W: NewReal(f)}
		case "edit":
			res = doAny(c, *op.Op)
		case "read":
			res = look(f, *op.Read, k)
		case "reflect":
			if op.N == 1 {
				f = ini.Empty(opt)
				c = &Client{W: NewReal(f)}
				fail(ini.ReflectFromWithMapper(f, vals[0], mapper))
			} else {
				fail(f.ReflectFrom(vals[op.N%len(vals)]))
			}
		case "map":
			var v interface{}
			switch op.N {
			case 0:
				v = &c16All{}
				fail(ini.MapTo(v, src))
			case 1:
				// Preset values: the slices are shared, as defaults would be.
				preset := *vals[len(vals)-1].(*c16Pre)
				v = &preset
				fail(ini.MapTo(v, src))
			case 2:
				v = &c16All{}
				if at == 1 {
					fail(ini.StrictMapToWithMapper(v, mapper, src))
				} else {
					fail(ini.MapToWithMapper(v, mapper, src))
				}
			default:
				v = &c16Rep{}
				fail(f.MapTo(v))
			}
			res += ref.Show(v)
		case "save":
			fail(f.SaveToIndent(path, []string{"", "\t"}[op.N%2]))
			b, err := os.ReadFile(path)
			fail(err)
			res += string(b)
		case "append":
			fail(f.Append(src))
		case "reload":
			fail(f.Reload())
		case "render":
			res = rendering(f, []string{"", "\t"}[op.N%2])
		default:
			res = "skipped"
		}
		out = append(out, res)
	}
	return append(out, stateOf(f))
}

func runC16(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c16Plan)
	if !p.valid() {
		return t.Discard()
	}
	restore := p.Pretty.set()
	defer restore()
	var k *simos.Kernel
	var texts []string
	for _, d := range p.Docs {
		texts = append(texts, d.Text(p.Opts[0]))
	}
	var shared [][]byte
	var lo []ini.LoadOptions
	begin := func() {
		lo = nil
		for _, o := range p.Opts {
			lo = append(lo, o.Load())
		}
		k = simos.New()
		shared = nil
		for i, s := range texts {
			shared = append(shared, []byte(s))
			k.Put(fmt.Sprintf("/simfs/src%d.ini", i), []byte(s))
		}
	}
	want := make([][]string, len(p.Clients))
	alone := func(i int) *core.Violation {
		// What the session leads to when nobody else is around.
		begin()
		return t.Seq(func() { want[i] = p.session(i, lo, shared, c16Values(), k) })
	}
	if t.Arg != "" {
		i, _ := strconv.Atoi(t.Arg)
		if v := alone(i); v != nil {
			return v
		}
		b, err := json.Marshal(bins(want[i]))
		t.Out = string(b)
		if err != nil {
			t.Out = err.Error()
		}
		return nil
	}
	for i := range p.Clients {
		if !p.Cold {
			if v := alone(i); v != nil {
				return v
			}
			continue
		}
		v, t2 := core.Cold("C16", p, strconv.Itoa(i))
		if v != nil {
			return v
		}
		var l []core.Bin
		if err := json.Unmarshal([]byte(t2.Out), &l); err != nil {
			panic(err)
		}
		for _, b := range l {
			want[i] = append(want[i], string(b))
		}
		t.Probe("sessions alone in a process of their own")
	}
	begin()
	vals := c16Values()
	got := make([][]string, len(p.Clients))
	fns := make([]func(), len(p.Clients))
	for i := range p.Clients {
		i := i
		fns[i] = func() { got[i] = p.session(i, lo, shared, vals, k) }
	}
	c := *p.Sched
	if c.MaxSteps == 0 {
		c.MaxSteps = 4000000
	}
	if v := t.Sim(&c, fns...); v != nil {
		return v
	}
	countFaults(t, k)
	for i, l := range p.Clients {
		for n := range want[i] {
			step := "at the end"
			if n < len(l) {
				step = l[n].String()
			}
			t.Ev("client %d: %s: %s", i, step, got[i][n])
			if d := ref.Diff(want[i][n], got[i][n]); d != "" {
				return core.V("influence", "client %d, %s: %s", i, step, d)
			}
		}
	}
	if d := p.Pretty.changed(); d != "" {
		return core.V("settings", "%s", d)
	}
	for i, s := range texts {
		if string(shared[i]) != s {
			return core.V("source", "the bytes of source %d were changed by loading them", i)
		}
	}
	if w, g := ref.Show(c16Values()), ref.Show(vals); w != g {
		return core.V("struct", "structs were changed by reflecting from them: %s", ref.Diff(w, g))
	}
	t.Trivial = len(p.Clients) < 2 || t.Probes["schedule:switches"] == 0
	return nil
}

func bins(l []string) []core.Bin {
	var o []core.Bin
	for _, s := range l {
		o = append(o, core.Bin(s))
	}
	return o
}

func init() {
	register(&core.Property{
		ID: "C16", Gen: genC16, New: func() core.Plan { return &c16Plan{} }, Run: runC16, Race: true,
		Quick: 30000, Thorough: 1000000,
		Rule: "one case is 2 or 3 (thorough: 4) sessions of up to 7 (13) steps on Files of their own, sharing sources, options and structs, and a schedule, run under the race detector; non-trivial if two clients took turns; distinct by documents, steps and interleaving",
		Real: "all of go-ini/ini, os and io on top of the simulated kernel, the race detector",
		Stub: "the kernel's files, the scheduling of goroutines",
	})
}
