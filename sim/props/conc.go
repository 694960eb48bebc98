package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// concPlan: several clients use one File at the same time.
type concPlan struct {
	Opts    ref.Opts      `json:"opts"`
	Pretty  pretty        `json:"pretty"`
	Setup   []Op          `json:"setup"`
	Clients [][]Op        `json:"clients"`
	Sched   *simrt.Config `json:"sched"`
}

// Schedule makes the plan core.Scheduled.
func (p *concPlan) Schedule() *simrt.Config { return p.Sched }

// done is one operation of a concurrent history.
type doneOp struct {
	client   int
	op       Op
	res      Res
	inv, ret int64
}

// Operations that take effect at one point in time, whatever else goes on. The File's
// own accessors that are made of two steps are left out.
var atomicOps = map[string]bool{
	"fnew": true, "fsec": true, "fget": true, "fhas": true, "fidx": true, "fby": true, "fsecs": true, "fnames": true,
	"fdel": true, "fdelidx": true, "fkids": true, "snew": true, "sget": true, "skey": true, "shas": true, "shasv": true, "skeys": true,
	"snames": true, "shash": true, "sdel": true, "skids": true, "sname": true, "kset": true, "kval": true,
	"kstr": true, "kname": true, "kint": true, "kall": true, "kshadow": true, "knested": true, "knest": true,
	"kmuststr": true, "kmustint": true, "kmustbool": true, "kmust64": true, "kmustuint": true, "kmustuint64": true,
	"kmustfloat": true, "kmustdur": true, "kmusttime": true, "xwrite": true, "xsave": true, "xshare": true,
}

// valid tells whether the plan stays within what is claimed.
func (p *concPlan) valid() bool {
	o := p.Opts
	if p.Sched == nil || len(p.Clients) == 0 || len(p.Clients) > 6 || o.Loose || o.ShortCircuit || len(o.Raw) > 0 || o.Delims != "" || o.UnescapeDQ || o.UnescapeComment {
		return false
	}
	if o.NonUnique && p.Pretty.Header {
		return false // loading what was written adds a default section
	}
	n := 0
	check := func(op Op, conc bool) bool {
		if !atomicOps[op.Do] || strings.ContainsAny(op.Val, "%\n") || op.Idx < 0 {
			return false
		}
		if conc && o.NonUnique && (op.Do == "fidx" || op.Do == "fdel") {
			return false
		}
		return true
	}
	made := map[string]bool{}
	deletes := false
	for _, op := range p.Setup {
		if !check(op, false) {
			return false
		}
		switch op.Do {
		case "fnew":
			made[op.Name] = true
		case "fdel", "fdelidx":
			deletes = true
		}
	}
	kids := false
	for _, l := range p.Clients {
		for _, op := range l {
			if !check(op, true) {
				return false
			}
			n++
			switch op.Do {
			case "fdel", "fdelidx":
				deletes = true
			case "fkids": // its section must stay
				kids = true
				if !made[op.Name] {
					return false
				}
			}
		}
	}
	if kids && deletes {
		return false
	}
	return n <= 40
}

// family tells whether section names in the plan have parents.
func (p *concPlan) family() bool {
	c := p.Opts.Child()
	has := func(op Op) bool { return op.Do[0] == 'f' && strings.Contains(op.Name, c) }
	for _, op := range p.Setup {
		if has(op) {
			return true
		}
	}
	for _, l := range p.Clients {
		for _, op := range l {
			if has(op) {
				return true
			}
		}
	}
	return false
}

func (p *concPlan) looksUp() bool {
	look := func(l []Op) bool {
		for _, op := range l {
			if op.Do == "sget" || op.Do == "skey" || op.Do == "shas" {
				return true
			}
		}
		return false
	}
	for _, l := range p.Clients {
		if look(l) {
			return true
		}
	}
	return false
}

// renderOp renders the File to a writer, to a file of the client's own (xsave) or to a
// file that all clients save to (xshare).
func renderOp(c *Client, op Op, path string) (r Res) {
	if op.Do != "xwrite" {
		if err := c.W.F.SaveTo(path); err != nil {
			r.Err, r.Str = true, err.Error()
		}
		return r
	}
	text, err := render(c.W.F, "")
	r.Str = text
	if err != nil {
		r.Err, r.Str = true, err.Error()
	}
	return r
}

func runConc(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*concPlan)
	if !p.valid() || p.family() && p.looksUp() {
		return t.Discard()
	}
	o := p.Opts
	k := simos.New()
	restore := p.Pretty.set()
	defer restore()
	model := ref.NewEmptyModel(o)
	(&ref.Doc{}).Apply(model)
	world := NewWorld(model)
	var f *ini.File
	var real *Real
	first := &Client{}
	var bad *core.Violation
	// Setup, by one client.
	if v := t.Seq(func() {
		var err error
		if f, err = loadAll(o, []interface{}{[]byte{}}); err != nil {
			bad = core.V("load", "%v", err)
			return
		}
		real = NewReal(f)
		real.Hold = true
		first.W = real
		for i, op := range p.Setup {
			r := first.Do(op)
			if d := world.Step(op, r); d != "" {
				bad = core.V("setup", "operation %d: %s: %s", i, op, d)
				return
			}
		}
	}); v != nil {
		return v
	}
	if bad != nil {
		return bad
	}
	// All at once.
	logs := make([][]doneOp, len(p.Clients))
	fns := make([]func(), len(p.Clients))
	total := 0
	for i := range p.Clients {
		i := i
		c := &Client{W: real, secs: first.secs, keys: first.keys}
		logs[i] = make([]doneOp, 0, len(p.Clients[i]))
		total += len(p.Clients[i])
		fns[i] = func() {
			for j, op := range p.Clients[i] {
				d := doneOp{client: i, op: op, inv: simrt.NextSeq()}
				if op.Do[0] == 'x' {
					path := savePath(i, j)
					if op.Do == "xshare" {
						path = sharedPath
					}
					d.res = renderOp(c, op, path)
				} else {
					d.res = c.Do(op)
				}
				d.ret = simrt.NextSeq()
				logs[i] = append(logs[i], d)
			}
		}
	}
	if v := t.Sim(p.Sched, fns...); v != nil {
		return v
	}
	var hist []doneOp
	overlap := 0
	// readBack is the content a rendering loads to.
	readBack := func(who, text string) (got string, v *core.Violation) {
		var err error
		if v := t.Seq(func() {
			var g *ini.File
			if g, err = ini.LoadSources(o.Load(), []byte(text)); err == nil {
				got = flat(real2model(g, o), o)
			}
		}); v != nil {
			return "", v
		}
		if err != nil {
			return "", core.V("save", "%s, %q, does not load: %v", who, clip(text, 500), err)
		}
		return got, nil
	}
	for i, l := range logs {
		for j, d := range l {
			if d.res.Skipped {
				continue
			}
			if d.op.Do == "xsave" && !d.res.Err {
				b, ok := k.Get(savePath(i, j))
				if !ok {
					return core.V("save", "client %d: SaveTo succeeded, there is no file", i)
				}
				d.res.Str = string(b)
			}
			if d.op.Do[0] == 'x' {
				if d.res.Err {
					return core.V("save", "client %d: %s: %s", i, d.op, d.res.Str)
				}
				if d.op.Do != "xshare" {
					got, v := readBack(fmt.Sprintf("what client %d wrote", i), d.res.Str)
					if v != nil {
						return v
					}
					d.res.Str = got
				}
			}
			hist = append(hist, d)
		}
	}
	for i := range hist {
		for j := range hist {
			if i != j && hist[i].client != hist[j].client && hist[i].inv < hist[j].ret && hist[j].inv < hist[i].ret {
				overlap++
				break
			}
		}
	}
	if d := real.changed(); d != "" {
		return core.V("list", "%s", d)
	}
	// Afterwards, what everything has become.
	var views string
	end := int64(1 << 40)
	after := func(op Op, sec, key int) {
		end += 2
		c := &Client{W: real}
		if sec > 0 {
			c.secs[0] = real.SecP[sec]
		}
		if key > 0 {
			c.keys[0] = real.KeyP[key]
		}
		hist = append(hist, doneOp{client: -1, op: op, res: c.Do(op), inv: end, ret: end + 1})
	}
	if v := t.Seq(func() {
		views = viewsAgree(f, o)
		after(Op{Do: "fsecs"}, 0, 0)
		after(Op{Do: "fnames"}, 0, 0)
		for s := 1; s < len(real.SecP); s++ {
			after(Op{Do: "skeys"}, s, 0)
			after(Op{Do: "snames"}, s, 0)
			after(Op{Do: "shash"}, s, 0)
		}
		for n := 1; n < len(real.KeyP); n++ {
			after(Op{Do: "kval"}, 0, n)
			after(Op{Do: "kall"}, 0, n)
			after(Op{Do: "knested"}, 0, n)
		}
	}); v != nil {
		return v
	}
	if b, ok := k.Get(sharedPath); ok {
		got, v := readBack("what the file all clients saved to holds", string(b))
		if v != nil {
			return v
		}
		end += 2
		hist = append(hist, doneOp{client: -1, op: Op{Do: "xdisk"}, res: Res{Str: got}, inv: end, ret: end + 1})
	}
	for _, d := range hist {
		if d.client >= 0 {
			t.Ev("[%d,%d] client %d: %s -> %s", d.inv, d.ret, d.client, d.op, d.res)
		} else {
			t.Ev("afterwards: %s -> %s", d.op, d.res)
		}
	}
	if views != "" {
		return core.V("views", "after all clients ended: %s", views)
	}
	countFaults(t, k)
	if overlap >= 2 {
		t.Probe("overlapping-operations")
	}
	t.Trivial = total < 2 || overlap < 2
	return linearize(world, hist, t)
}

func savePath(i, j int) string { return fmt.Sprintf("/simfs/c%d-%d.ini", i, j) }

const sharedPath = "/simfs/all.ini"

// linearize looks for an order of the operations, in keeping with their time, in which
// the model returns what they returned.
func linearize(w *World, hist []doneOp, t *core.T) *core.Violation {
	l := &linearizer{hist: hist, seen: map[string]bool{}}
	l.done = make([]byte, (len(hist)+7)/8)
	if l.search(w, 0) {
		return nil
	}
	if l.over {
		t.Probe("linearization-given-up")
		return nil
	}
	d := hist[l.bestAt]
	who := fmt.Sprintf("client %d's", d.client)
	if d.client < 0 {
		who = "the final"
	}
	return core.V("order", "no order of the operations explains the results; the longest that does has %d of %d and %s %s -> %s does not fit: %s", l.best, len(hist), who, d.op, d.res, l.why)
}

type linearizer struct {
	hist   []doneOp
	done   []byte
	seen   map[string]bool
	nodes  int
	best   int
	bestAt int
	why    string
	over   bool
}

func (l *linearizer) search(w *World, n int) bool {
	for {
		if n == len(l.hist) {
			return true
		}
		if l.nodes++; l.nodes > 200000 {
			l.over = true
			return false
		}
		first := int64(1) << 60
		for i, d := range l.hist {
			if l.done[i/8]&(1<<(i%8)) == 0 && d.ret < first {
				first = d.ret
			}
		}
		var can []int
		for i, d := range l.hist {
			if l.done[i/8]&(1<<(i%8)) == 0 && d.inv < first {
				can = append(can, i)
			}
		}
		if len(can) > 1 {
			key := fmt.Sprintf("%s %x", l.done, w.Digest())
			if l.seen[key] {
				return false
			}
			l.seen[key] = true
			// Those that return first come first.
			for i := 1; i < len(can); i++ {
				for j := i; j > 0 && l.hist[can[j]].ret < l.hist[can[j-1]].ret; j-- {
					can[j], can[j-1] = can[j-1], can[j]
				}
			}
			for _, i := range can {
				c := w.Clone()
				if !l.step(c, i, n) {
					continue
				}
				l.done[i/8] |= 1 << (i % 8)
				if l.search(c, n+1) {
					return true
				}
				l.done[i/8] &^= 1 << (i % 8)
				if l.over {
					return false
				}
			}
			return false
		}
		if !l.step(w, can[0], n) {
			return false
		}
		i := can[0]
		l.done[i/8] |= 1 << (i % 8)
		defer func() { l.done[i/8] &^= 1 << (i % 8) }()
		n++
	}
}

func (l *linearizer) step(w *World, i, n int) bool {
	d := l.hist[i]
	why := ""
	if d.op.Do == "xshare" {
		w.disk = flat(w.F, w.F.Opts)
	} else if d.op.Do == "xdisk" {
		if w.disk != d.res.Str {
			why = ref.Diff(w.disk, d.res.Str)
		}
	} else if d.op.Do[0] == 'x' {
		if want := flat(w.F, w.F.Opts); want != d.res.Str {
			why = ref.Diff(want, d.res.Str)
		}
	} else {
		why = w.Step(d.op, d.res)
	}
	if why != "" && n >= l.best {
		l.best, l.bestAt, l.why = n, i, why
	}
	return why == ""
}
