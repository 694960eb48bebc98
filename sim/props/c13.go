package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// c13Plan: one client reloads a File whose source files keep changing, others read it.
type c13Plan struct {
	Opts     ref.Opts      `json:"opts"`
	Versions [][]*ref.Doc  `json:"versions"` // [version][source]
	Reloads  []c13Reload   `json:"reloads"`
	Readers  [][]c13Read   `json:"readers"`
	Owners   [][]c13Own    `json:"owners,omitempty"`
	Sched    *simrt.Config `json:"sched"`
}

// Schedule makes the plan core.Scheduled.
func (p *c13Plan) Schedule() *simrt.Config { return p.Sched }

// c13Reload writes the next version's files, if there is one, and reloads.
type c13Reload struct {
	Next   bool          `json:"next,omitempty"`
	Faults []simos.Fault `json:"faults,omitempty"`
}

// c13Read is one read of the key with the given number.
type c13Read struct {
	How string `json:"how"`
	Key int    `json:"key,omitempty"`
}

// c13Own is something a client does to a key or section that is its own: no
// source defines it and no other client names it.
type c13Own struct {
	What string `json:"what"`
	Sec  int    `json:"sec,omitempty"` // -1: in the client's own section
	Key  int    `json:"key,omitempty"` // 0 or 1
	Val  string `json:"val,omitempty"`
}

var c13Owns = []string{"set", "set", "set", "get", "get", "new", "handle", "del", "hash", "names", "delsec"}

var c13Hows = []string{"value", "value", "handle", "handle", "secval", "secval", "string", "hash", "hash", "keys", "has", "sections", "names", "present"}

func genC13(r *core.Rand, tier string) core.Plan {
	p := &c13Plan{Opts: ref.GenOpts(r)}
	o := &p.Opts
	o.NonUnique, o.Shadows, o.DuplicateShadows, o.Loose, o.ShortCircuit = false, false, false, false, false
	ns := 1 + r.Small(2)
	names := genLong(r)
	var first []*ref.Doc
	for i := 0; i < ns; i++ {
		secs := []string{"s1", "s2", "s1.sub"}
		if len(o.Raw) > 0 {
			secs = append(secs, "raw")
		}
		keys := []string{"a" + fmt.Sprint(i), "b" + fmt.Sprint(i), "c" + fmt.Sprint(i), "d"}
		first = append(first, ref.GenDocNames(r, *o, names.Secs(secs, o.Child()), names.Keys(keys)))
	}
	p.Versions = append(p.Versions, first)
	nv := 1 + r.Small(3)
	for v := 1; v <= nv; v++ {
		var l []*ref.Doc
		for _, d := range p.Versions[v-1] {
			if r.Chance(1, 6) {
				l = append(l, d)
			} else {
				l = append(l, d.Revise(r, *o))
			}
		}
		p.Versions = append(p.Versions, l)
	}
	for v := 1; v <= nv; v++ {
		for r.Chance(1, 3) {
			x := c13Reload{Next: len(p.Reloads) == 0 || r.Bool()}
			for n := 1 + r.Small(1); n > 0; n-- {
				src := r.Intn(ns)
				f := genReadFault(r, 4)
				if f.Kind == "part-EIO" {
					f.N = 1 + r.Intn(1+len(first[src].Text(*o)))
				}
				f.Path = srcPath(src)
				x.Faults = append(x.Faults, f)
			}
			p.Reloads = append(p.Reloads, x)
		}
		p.Reloads = append(p.Reloads, c13Reload{Next: true})
	}
	for n := 1 + r.Small(2); n > 0; n-- {
		var l []c13Read
		few := 1 + r.Intn(3)
		for k := r.Range(2, 14); k > 0; k-- {
			l = append(l, c13Read{How: c13Hows[r.Intn(len(c13Hows))], Key: r.Intn(6) % few})
		}
		p.Readers = append(p.Readers, l)
	}
	if r.Bool() {
		for n := 1 + r.Small(1); n > 0; n-- {
			var l []c13Own
			for k := r.Range(2, 12); k > 0; k-- {
				l = append(l, c13Own{What: c13Owns[r.Intn(len(c13Owns))], Sec: r.Intn(3) - 1, Key: r.Intn(2), Val: r.Pick("", "v", "w", "long value", "x") + fmt.Sprint(k)})
			}
			p.Owners = append(p.Owners, l)
		}
		if r.Bool() {
			p.Readers = p.Readers[:1]
		}
	}
	c := core.SchedConfig(r, r.PickInt(100, 600, 3000))
	p.Sched = &c
	return p
}

type secKey struct{ sec, key string }

// common lists the keys that every version defines exactly once, and their values.
func (p *c13Plan) common() ([]secKey, []string, map[secKey][]string, bool) {
	vals := map[secKey][]string{}
	secs := map[string]int{}
	var list []secKey
	for v, docs := range p.Versions {
		n := map[secKey]int{}
		m := ref.NewEmptyModel(p.Opts)
		m.OnSet = func(sec, key, val string) { n[secKey{sec, key}]++ }
		for _, d := range docs {
			if d == nil || !d.Valid(p.Opts) || !d.Apply(m) {
				return nil, nil, nil, false
			}
		}
		for _, s := range m.Secs {
			secs[s.Name]++
			for _, k := range s.Keys {
				id := secKey{s.Name, k.Name}
				if n[id] != 1 || strings.HasPrefix(k.Name, "#") {
					continue
				}
				if len(vals[id]) == v {
					vals[id] = append(vals[id], k.Value)
				}
				if v == 0 {
					list = append(list, id)
				}
			}
		}
	}
	var l []secKey
	for _, id := range list {
		if len(vals[id]) == len(p.Versions) {
			l = append(l, id)
		}
	}
	// Those that change first.
	sort.SliceStable(l, func(i, j int) bool { return changes(vals[l[i]]) > changes(vals[l[j]]) })
	var names []string
	for n, c := range secs {
		if c == len(p.Versions) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return l, names, vals, true
}

func changes(l []string) int {
	n := 0
	for i := 1; i < len(l); i++ {
		if l[i] != l[i-1] {
			n++
		}
	}
	return n
}

type c13Event struct {
	reader   int
	what     string
	id       secKey
	val      string
	missing  string
	inv, ret int64
	reload   bool
	version  int
	ok       bool
}

func runC13(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c13Plan)
	o := p.Opts
	if o.NonUnique || o.Shadows || o.Loose || o.ShortCircuit || p.Sched == nil || len(p.Versions) == 0 || len(p.Readers) > 8 || len(p.Owners) > 8 || len(p.Versions) > 20 {
		return t.Discard()
	}
	ns := len(p.Versions[0])
	for _, l := range p.Versions {
		if len(l) != ns || ns == 0 {
			return t.Discard()
		}
	}
	ids, names, vals, ok := p.common()
	if !ok {
		return t.Discard()
	}
	for _, x := range p.Reloads {
		if !validKernelFaults(x.Faults) {
			return t.Discard()
		}
	}
	if len(ids) == 0 {
		t.Trivial = true
		return nil
	}
	k := simos.New()
	restore := pretty{}.set()
	defer restore()
	var args []interface{}
	put := func(v int) {
		for i, d := range p.Versions[v] {
			k.Put(srcPath(i), []byte(d.Text(o)))
		}
	}
	put(0)
	for i := 0; i < ns; i++ {
		args = append(args, srcPath(i))
	}
	var f *ini.File
	var err error
	handles := map[secKey]*ini.Key{}
	shandles := map[secKey]*ini.Section{}
	missing := ""
	if v := t.Seq(func() {
		if f, err = loadAll(o, args); err != nil {
			return
		}
		for _, n := range names {
			if shandles[secKey{sec: n}], err = f.GetSection(n); err != nil {
				return
			}
		}
		for _, id := range ids {
			if shandles[id], err = f.GetSection(id.sec); err != nil {
				return
			}
			if handles[id], err = shandles[id].GetKey(id.key); err != nil {
				return
			}
		}
	}); v != nil {
		return v
	}
	if err != nil {
		return core.V("load", "%v", err)
	}
	started := make([]int64, len(p.Versions)) // when a reload of the version began first
	for i := range started {
		started[i] = 1 << 60
	}
	started[0] = 0
	var reloads []c13Event
	logs := make([][]c13Event, len(p.Readers))
	fns := []func(){func() {
		at := 0
		for i, x := range p.Reloads {
			if x.Next && at+1 < len(p.Versions) {
				at++
				put(at)
			}
			k.SetFaults(x.Faults)
			e := c13Event{reload: true, version: at, inv: simrt.NextSeq()}
			if started[at] > e.inv {
				started[at] = e.inv
			}
			err := f.Reload()
			k.SetFaults(nil)
			e.ok = err == nil
			e.what = fmt.Sprintf("reload %d (version %d): %v", i, at, err)
			e.ret = simrt.NextSeq()
			reloads = append(reloads, e)
			if err != nil && len(x.Faults) == 0 && missing == "" {
				missing = e.what
			}
		}
	}}
	for i := range p.Readers {
		i := i
		fns = append(fns, func() {
			for _, rd := range p.Readers[i] {
				if rd.Key < 0 {
					rd.Key = 0
				}
				id := ids[rd.Key%len(ids)]
				if rd.How == "present" {
					id = secKey{sec: names[rd.Key%len(names)]}
				}
				e := c13Event{reader: i, id: id, what: rd.How, inv: simrt.NextSeq()}
				e.val, e.missing = p.read(f, rd.How, id, shandles[id], handles[id])
				e.ret = simrt.NextSeq()
				logs[i] = append(logs[i], e)
			}
		})
	}
	owns := make([]*c13Owner, len(p.Owners))
	for i := range p.Owners {
		i := i
		owns[i] = &c13Owner{f: f, n: i, secs: names, keys: map[secKey]string{}, handles: map[secKey]*ini.Key{}}
		fns = append(fns, func() {
			for _, x := range p.Owners[i] {
				inv := simrt.NextSeq()
				bad := owns[i].do(x)
				owns[i].log = append(owns[i].log, fmt.Sprintf("[%d,%d] owner %d: %+v %s", inv, simrt.NextSeq(), i, x, bad))
				if bad != "" {
					owns[i].bad = bad
					return
				}
			}
		})
	}
	c := *p.Sched
	if c.MaxSteps == 0 {
		c.MaxSteps = 4000000
	}
	if v := t.Sim(&c, fns...); v != nil {
		return v
	}
	countFaults(t, k)
	var all []c13Event
	during := 0
	for _, l := range logs {
		for _, e := range l {
			all = append(all, e)
			for _, x := range reloads {
				if e.inv < x.ret && x.inv < e.ret {
					during++
					break
				}
			}
		}
	}
	all = append(all, reloads...)
	sort.Slice(all, func(i, j int) bool { return all[i].inv < all[j].inv })
	for _, e := range all {
		if e.reload {
			t.Ev("[%d,%d] %s", e.inv, e.ret, e.what)
		} else {
			t.Ev("[%d,%d] reader %d: %s of %q %q: %q %s", e.inv, e.ret, e.reader, e.what, e.id.sec, e.id.key, clip(e.val, 80), e.missing)
		}
	}
	for i, w := range owns {
		for _, l := range w.log {
			t.Ev("%s", l)
		}
		if v := t.Seq(func() {
			for _, id := range w.made {
				if w.bad == "" {
					w.bad = w.check(id)
				}
			}
		}); v != nil {
			return v
		}
		if w.bad != "" {
			return core.V("own", "owner %d: %s", i, w.bad)
		}
	}
	if missing != "" {
		return core.V("reload", "failed though nothing was wrong: %s", missing)
	}
	if during > 0 {
		t.Probe("read-during-reload")
	} else {
		t.Trivial = true
	}
	for _, x := range reloads {
		if !x.ok {
			t.Probe("failed-reload")
		}
	}
	version := make([]int, len(all)) // the oldest version an event can have seen
	for i, e := range all {
		if e.reload {
			continue
		}
		if e.missing != "" {
			return core.V("missing", "reader %d: %s, though old and new sources define %q in %q", e.reader, e.missing, e.id.key, e.id.sec)
		}
		if e.what == "names" || e.what == "sections" || e.what == "has" || e.what == "present" {
			continue
		}
		low, why := 0, "the first load"
		for j, x := range all[:i] {
			if x.ret > e.inv {
				continue
			}
			if x.reload && x.ok && x.version > low {
				low, why = x.version, x.what
			}
			if !x.reload && x.id == e.id && version[j] > low {
				low, why = version[j], fmt.Sprintf("reader %d saw %q", x.reader, clip(x.val, 60))
			}
		}
		version[i] = -1
		for v := low; v < len(p.Versions); v++ {
			if started[v] < e.ret && vals[e.id][v] == e.val {
				version[i] = v
				break
			}
		}
		if version[i] < 0 {
			class := "value"
			for _, v := range vals[e.id] {
				if v == e.val {
					class = "stale"
				}
			}
			return core.V(class, "reader %d got %q for key %q of %q (%s), version %d or later has to be seen (%s): values by version %q", e.reader, clip(e.val, 200), e.id.key, e.id.sec, e.what, low, why, vals[e.id])
		}
		if version[i] > 0 {
			t.Probe("new-value-seen")
		}
	}
	return nil
}

// c13Owner knows what its own keys have to be.
type c13Owner struct {
	f       *ini.File
	n       int
	secs    []string // that every version defines
	keys    map[secKey]string
	handles map[secKey]*ini.Key
	made    []secKey // all of keys that ever were
	log     []string
	bad     string
}

// do carries out an operation and says what is wrong with its result.
func (w *c13Owner) do(x c13Own) string {
	own := fmt.Sprintf("zown%d", w.n)
	at := x.Sec
	if at < 0 || len(w.secs) == 0 {
		at = -1
	} else {
		at %= len(w.secs)
	}
	// Sections have keys of different names: a section finds those of its parents.
	id := secKey{own, fmt.Sprintf("zk%d_%d_%d", w.n, at+1, x.Key&1)}
	if at >= 0 {
		id.sec = w.secs[at]
	}
	if x.What == "delsec" {
		w.f.DeleteSection(own)
		for id := range w.keys {
			if id.sec == own {
				delete(w.keys, id)
				delete(w.handles, id)
			}
		}
		if w.f.HasSection(own) {
			return "HasSection finds the section it deleted"
		}
		return ""
	}
	if at < 0 && x.What != "get" && x.What != "del" {
		if _, err := w.f.NewSection(own); err != nil {
			return "NewSection: " + err.Error()
		}
	}
	sec, err := w.f.GetSection(id.sec)
	if err != nil {
		if at >= 0 || len(w.keys) > 0 && w.has(own) {
			return "GetSection: " + err.Error()
		}
		return ""
	}
	_, there := w.keys[id]
	switch x.What {
	case "set":
		k := sec.Key(id.key)
		k.SetValue(x.Val)
		w.keys[id], w.handles[id] = x.Val, k
		w.made = append(w.made, id)
	case "new":
		k, err := sec.NewKey(id.key, x.Val)
		if err != nil {
			return "NewKey: " + err.Error()
		}
		w.keys[id], w.handles[id] = x.Val, k
		w.made = append(w.made, id)
	case "handle":
		if k := w.handles[id]; k != nil {
			k.SetValue(x.Val)
			w.keys[id] = x.Val
		}
	case "del":
		sec.DeleteKey(id.key)
		delete(w.keys, id)
		delete(w.handles, id)
	case "hash":
		if v, ok := sec.KeysHash()[id.key]; ok != there || v != w.keys[id] {
			return fmt.Sprintf("KeysHash says %q (%v) for %q, not %q (%v)", v, ok, id.key, w.keys[id], there)
		}
	case "names":
		in := false
		for _, n := range sec.KeyStrings() {
			in = in || n == id.key
		}
		if in != there {
			return fmt.Sprintf("KeyStrings lists %q: %v, not %v", id.key, in, there)
		}
	}
	return w.check(id)
}

func (w *c13Owner) has(sec string) bool {
	for id := range w.keys {
		if id.sec == sec {
			return true
		}
	}
	return false
}

// check looks whether a key is as its owner left it.
func (w *c13Owner) check(id secKey) string {
	want, there := w.keys[id]
	sec, err := w.f.GetSection(id.sec)
	if err != nil {
		if there {
			return err.Error()
		}
		return ""
	}
	if !there {
		if sec.HasKey(id.key) {
			return fmt.Sprintf("%q of %q is there, though it was deleted or never made", id.key, id.sec)
		}
		return ""
	}
	k, err := sec.GetKey(id.key)
	if err != nil {
		return err.Error()
	}
	if v := k.Value(); v != want {
		return fmt.Sprintf("%q of %q is %q, not %q as stored", id.key, id.sec, v, want)
	}
	if k != w.handles[id] {
		return fmt.Sprintf("%q of %q has become another key", id.key, id.sec)
	}
	return ""
}

// read reads a key in some way. It returns its value and what could not be found.
func (p *c13Plan) read(f *ini.File, how string, id secKey, sh *ini.Section, kh *ini.Key) (string, string) {
	switch how {
	case "handle":
		return kh.Value(), ""
	case "secval":
		k, err := sh.GetKey(id.key)
		if err != nil {
			return "", err.Error()
		}
		return k.Value(), ""
	case "string":
		k := f.Section(id.sec).Key(id.key)
		if k != kh {
			return "", "another key in its place"
		}
		return k.Value(), ""
	case "hash":
		v, ok := sh.KeysHash()[id.key]
		if !ok {
			return "", "KeysHash has no " + id.key
		}
		return v, ""
	case "keys":
		for _, k := range sh.Keys() {
			if k.Name() == id.key {
				return k.Value(), ""
			}
		}
		return "", "Keys does not list " + id.key
	case "has":
		if !f.HasSection(id.sec) || !f.Section(id.sec).HasKey(id.key) {
			return "", "HasSection or HasKey is false"
		}
		return "", ""
	case "present":
		s, err := f.GetSection(id.sec)
		if err != nil {
			return "", err.Error()
		}
		if s != sh {
			return "", "GetSection finds another section"
		}
		if l, err := f.SectionsByName(id.sec); err != nil || len(l) != 1 || l[0] != sh {
			return "", "SectionsByName finds other sections"
		}
		return "", ""
	case "sections":
		for _, s := range f.Sections() {
			if s == sh {
				return "", ""
			}
		}
		return "", "Sections does not list " + id.sec
	case "names":
		in := false
		for _, n := range f.SectionStrings() {
			in = in || n == id.sec
		}
		for _, n := range sh.KeyStrings() {
			if n == id.key && in {
				return "", ""
			}
		}
		return "", "SectionStrings or KeyStrings do not list it"
	}
	sec, err := f.GetSection(id.sec)
	if err != nil {
		return "", err.Error()
	}
	k, err := sec.GetKey(id.key)
	if err != nil {
		return "", err.Error()
	}
	return k.Value(), ""
}

func init() {
	register(&core.Property{
		ID: "C13", Gen: genC13, New: func() core.Plan { return &c13Plan{} }, Run: runC13,
		Quick: 200000, Thorough: 4000000,
		Rule:   "one case is up to three source files in up to five versions, a client that writes the next version and reloads (reads may fail; then it reloads again), up to three readers with up to 14 reads each, in half of the cases up to two owners of keys that no source defines with up to 12 calls each, and a schedule; non-trivial if a read overlapped a reload; distinct by plan and interleaving",
		Real:   "all of go-ini/ini, os and io on top of the simulated kernel",
		Stub:   "the kernel's files, package sync's locks (decided by the simulator), goroutine scheduling",
		Probes: []string{"read-during-reload", "failed-reload", "new-value-seen"},
	})
}
