package props

import (
	"fmt"
	"strings"

	"inisim/core"
	"inisim/ref"
)

func genConcOpts(r *core.Rand) ref.Opts {
	o := ref.Opts{}
	switch r.Intn(6) {
	case 0:
		o.Insensitive = true
	case 1:
		o.InsensSections = true
	case 2:
		o.InsensKeys = true
	}
	o.Shadows = r.Chance(1, 3)
	o.DuplicateShadows = o.Shadows && r.Chance(1, 3)
	o.Nested = r.Chance(1, 5)
	o.NonUnique = r.Chance(1, 6)
	return o
}

var concVals = []string{"", "v1", "v2", "7", "8", "true", "x", "", "1.5", "2s", "2001-02-03T04:05:06Z"}

// genConc draws a setup and the clients' operations.
func genConc(r *core.Rand, tier string, o ref.Opts, secs, keys []string, mix []string) *concPlan {
	p := &concPlan{Opts: o}
	p.fill(r, tier, secs, keys, mix)
	names := genLong(r)
	names.Ops(p.Setup, o.Child())
	for _, l := range p.Clients {
		names.Ops(l, o.Child())
	}
	return p
}

func (p *concPlan) fill(r *core.Rand, tier string, secs, keys []string, mix []string) {
	o := p.Opts
	if r.Chance(1, 12) {
		p.crowded(r, secs, mix)
		return
	}
	if r.Chance(1, 30) {
		p.focus(r, tier, secs, keys, mix)
		p.Setup = append(crowdOps(r, o, secs, keys), p.Setup...)
		return
	}
	if r.Chance(1, 2) {
		p.focus(r, tier, secs, keys, mix)
		return
	}
	if r.Chance(1, 6) {
		p.stale(r, secs, mix)
		return
	}
	if r.Chance(1, 5) {
		if r.Bool() && !o.NonUnique && len(secs) > 0 && p.moveSecs(r, secs, mix) {
			return
		}
		p.move(r, secs, mix)
		return
	}
	few := r.Chance(1, 2) // little to fight over
	if few {
		secs = secs[:2+r.Intn(len(secs)-1)]
		keys = keys[:1+r.Intn(2)]
	}
	op := func() Op {
		do := mix[r.Intn(len(mix))]
		for o.NonUnique && (do == "fidx" || do == "fdel") || !o.Nested && do == "knest" || !o.Shadows && do == "kshadow" {
			do = mix[r.Intn(len(mix))]
		}
		x := Op{Do: do, S: r.Intn(2), K: r.Intn(2), To: r.Intn(2), Idx: r.Intn(3), Val: concVals[r.Intn(len(concVals))]}
		switch do[0] {
		case 'f':
			x.Name = secs[r.Intn(len(secs))]
			if do == "fdelidx" && !o.NonUnique && r.Chance(3, 4) {
				x.Idx = 0
			}
		case 's':
			x.Name = keys[r.Intn(len(keys))]
		}
		return x
	}
	for i := r.Intn(3); i > 0; i-- {
		p.Setup = append(p.Setup, Op{Do: "fnew", Name: secs[r.Intn(len(secs))], To: i - 1})
	}
	if r.Chance(3, 4) {
		p.Setup = append(p.Setup, Op{Do: "fsec", Name: secs[0], To: r.Intn(2)})
	}
	for i := r.Intn(4); i > 0; i-- {
		p.Setup = append(p.Setup, Op{Do: "snew", S: r.Intn(2), Name: keys[r.Intn(len(keys))], Val: concVals[r.Intn(len(concVals))], To: r.Intn(2)})
	}
	n := 2 + r.Small(2)
	max := 5
	if tier == "thorough" {
		n, max = 2+r.Intn(4), 7
	}
	for i := 0; i < n; i++ {
		var l []Op
		for k := 1 + r.Intn(max); k > 0; k-- {
			l = append(l, op())
		}
		p.Clients = append(p.Clients, l)
	}
	c := core.SchedConfig(r, 60+r.Intn(400))
	p.Sched = &c
}

var mutators = map[string]bool{"fnew": true, "fsec": true, "fidx": true, "fdel": true, "fdelidx": true, "snew": true, "skey": true, "sdel": true,
	"kset": true, "kshadow": true, "knest": true, "kmuststr": true, "kmustint": true, "kmustbool": true, "kmust64": true, "kmustuint": true,
	"kmustuint64": true, "kmustfloat": true, "kmustdur": true, "kmusttime": true}

// focus draws a plan in which few kinds of operations meet on few sections and keys.
func (p *concPlan) focus(r *core.Rand, tier string, secs, keys, all []string) {
	o := p.Opts
	usable := func(do string) bool {
		return !(o.NonUnique && (do == "fidx" || do == "fdel") || !o.Nested && do == "knest" || !o.Shadows && do == "kshadow")
	}
	// Most plans are about sections, about the keys of sections or about the values of keys.
	about := r.Pick("", "", "f", "s", "sk", "sk", "k")
	fits := func(do string) bool {
		switch {
		case about == "" || do[0] == 'x':
			return true
		case do == "skids":
			return about == "f"
		}
		return strings.Contains(about, do[:1])
	}
	var mix []string
	for n, writes := 1+r.Intn(4), false; len(mix) < n || !writes; {
		if do := all[r.Intn(len(all))]; usable(do) && fits(do) {
			mix = append(mix, do)
			writes = writes || mutators[do]
		}
	}
	nsec, nkey := 1+r.Small(2), 1+r.Small(3)
	at := r.Intn(len(secs) - nsec + 1)
	secs = secs[at : at+nsec]
	if nkey > len(keys) {
		nkey = len(keys)
	}
	keys = keys[:nkey]
	vals := []string{"", "7", "v1", "v2"}
	if r.Bool() {
		vals = vals[1:3]
	}
	val := func() string { return vals[r.Intn(len(vals))] }
	fresh := r.Bool() // every value is new
	have := r.Intn(4) // nothing, sections, sections and keys (twice as often)
	if have > 0 {
		for i, s := range secs {
			p.Setup = append(p.Setup, Op{Do: "fsec", Name: s, To: i % slots})
		}
	} else {
		p.Setup = append(p.Setup, Op{Do: "fsec", Name: "DEFAULT"})
	}
	if have > 1 {
		for i := 0; i < slots && i < nsec*nkey; i++ {
			p.Setup = append(p.Setup, Op{Do: "snew", S: i % nsec, Name: keys[i/nsec], Val: val(), To: i})
		}
	}
	n := 2 + r.Small(2)
	max := 4
	if tier == "thorough" {
		n, max = 2+r.Intn(3), 6
	}
	count := 0
	for i := 0; i < n; i++ {
		var l []Op
		own := mix
		if r.Chance(1, 3) {
			own = mix[:1+r.Intn(len(mix))]
		} else if r.Chance(1, 2) {
			own = mix[r.Intn(len(mix)):]
		}
		for k := 1 + r.Intn(max); k > 0; k-- {
			x := Op{Do: own[r.Intn(len(own))], S: r.Intn(nsec), K: r.Intn(nsec * nkey), To: r.Intn(slots), Idx: r.Intn(2), Val: val()}
			if fresh {
				count++
				x.Val = fmt.Sprintf("w%d", count)
			}
			switch x.Do[0] {
			case 'f':
				x.Name = secs[r.Intn(len(secs))]
				if x.Do == "fdelidx" && !o.NonUnique {
					x.Idx = 0
				}
			case 's':
				x.Name = keys[r.Intn(len(keys))]
			}
			l = append(l, x)
		}
		p.Clients = append(p.Clients, l)
	}
	c := core.SchedConfig(r, 20+r.Intn(200))
	p.Sched = &c
}

// crowded draws a plan in which few clients meet where there is very much already: keys in
// a section, sections, or shadows of a key.
func (p *concPlan) crowded(r *core.Rand, secs, all []string) {
	o := p.Opts
	n := r.PickInt(8, 9, 10, 11, 16, 17, 18, 20, 32, 33, 34)
	if r.Bool() {
		n = r.Range(2, 18)
	}
	sec := secs[0]
	p.Setup = append(p.Setup, Op{Do: "fsec", Name: sec})
	kinds, names := "sk", []string{"k0", fmt.Sprintf("k%d", n/2), fmt.Sprintf("k%d", n-1), "new1", "new2"}
	switch x := r.Intn(5); {
	case x < 2:
		for i := 0; i < n; i++ {
			p.Setup = append(p.Setup, Op{Do: "snew", Name: fmt.Sprintf("k%d", i), Val: fmt.Sprintf("v%d", i%7), To: 1})
		}
		kinds = r.Pick("s", "s", "sk")
	case x < 4 || !o.Shadows:
		in := "t"
		if r.Bool() {
			in = sec + o.Child() + "t"
		}
		for i := 0; i < n; i++ {
			p.Setup = append(p.Setup, Op{Do: "fnew", Name: fmt.Sprintf("%s%d", in, i), To: 1})
		}
		kinds, names = "f", []string{in + "0", fmt.Sprintf("%s%d", in, n/2), fmt.Sprintf("%s%d", in, n-1), in + "new1", in + "new2"}
	default:
		p.Setup = append(p.Setup, Op{Do: "snew", Name: "k0", Val: "v", To: 1})
		for i := 0; i < n; i++ {
			p.Setup = append(p.Setup, Op{Do: "kshadow", K: 1, Val: fmt.Sprintf("v%d", i)})
		}
		kinds = "k"
		if r.Bool() {
			all = []string{"kshadow", "kshadow", "kall", "kset"}
		}
	}
	names = names[r.Intn(4):]
	vals := []string{"v0", "x", "y"}[r.Intn(3):]
	var mix []string
	for want, writes := 1+r.Intn(4), false; len(mix) < want || !writes; {
		do := all[r.Intn(len(all))]
		if o.NonUnique && (do == "fidx" || do == "fdel") || !o.Nested && do == "knest" || !o.Shadows && do == "kshadow" {
			continue
		}
		if strings.Contains(kinds, do[:1]) || do[0] == 'x' || kinds == "f" && do == "skids" {
			mix = append(mix, do)
			writes = writes || mutators[do]
		}
	}
	// Often one looks at all there is and another one takes away and adds.
	var looks []string
	for _, do := range all {
		switch do {
		case "skeys", "snames", "shash":
			if kinds[0] == 's' {
				looks = append(looks, do)
			}
		case "fsecs", "fnames", "skids":
			if kinds == "f" {
				looks = append(looks, do)
			}
		case "xwrite":
			looks = append(looks, do)
		}
	}
	roles := kinds != "k" && len(looks) > 0 && r.Bool()
	for c := 2 + r.Small(1); c > 0; c-- {
		var l []Op
		for k := 1 + r.Intn(3); k > 0; k-- {
			mix := mix
			if roles && c == 1 {
				mix = looks
			} else if roles && kinds == "f" {
				mix = []string{"fdelidx", "fdelidx", "fnew"}
			} else if roles {
				mix = []string{"sdel", "sdel", "snew"}
			}
			x := Op{Do: mix[r.Intn(len(mix))], K: 1, To: 1, Idx: r.Intn(2), Val: vals[r.Intn(len(vals))]}
			switch x.Do[0] {
			case 'f':
				x.Name = names[r.Intn(len(names))]
				if x.Do == "fdelidx" {
					x.Idx = 0
				}
			case 's':
				x.Name = names[r.Intn(len(names))]
			}
			l = append(l, x)
		}
		p.Clients = append(p.Clients, l)
	}
	c := core.SchedConfig(r, 20+r.Intn(200))
	p.Sched = &c
}

// move draws a plan in which one client moves a value from key to key, or replaces
// sections by others, so that at every moment one of them is there, while others look.
func (p *concPlan) move(r *core.Rand, secs, all []string) {
	keys := []string{"a", "b", "c", "d"}[:2+r.Intn(3)]
	p.Setup = append(p.Setup, Op{Do: "fsec", Name: secs[0]})
	at := r.Intn(len(keys))
	for i, k := range keys {
		v := "x"
		if i == at {
			v = "m"
		}
		p.Setup = append(p.Setup, Op{Do: "snew", Name: k, Val: v, To: i})
	}
	var looks []string
	for _, do := range all {
		switch do {
		case "shasv", "shash", "skeys", "snames", "xwrite":
			looks = append(looks, do)
		}
	}
	var writer []Op
	set := func(i int, v string) {
		do := "kset"
		if !p.Opts.Shadows && r.Chance(1, 4) {
			do = "snew"
		}
		if v != "m" && r.Chance(1, 5) {
			do = "sdel"
		}
		if do == "kset" && p.gone(writer, keys[i]) {
			if do = "snew"; v != "m" {
				return
			}
		}
		writer = append(writer, Op{Do: do, Name: keys[i], K: i, To: i, Val: v})
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		to := r.Intn(len(keys))
		if to == at {
			continue
		}
		set(to, "m")
		set(at, "x")
		at = to
	}
	p.Clients = append(p.Clients, writer)
	for n := 1 + r.Small(2); n > 0; n-- {
		var l []Op
		for k := 1 + r.Intn(4); k > 0; k-- {
			l = append(l, Op{Do: looks[r.Intn(len(looks))], Val: "m", To: 1})
		}
		p.Clients = append(p.Clients, l)
	}
	c := core.SchedConfig(r, 20+r.Intn(200))
	p.Sched = &c
}

// stale draws a plan in which one client deletes what another one works on by name, and
// goes on with the object that was there.
func (p *concPlan) stale(r *core.Rand, secs, all []string) {
	sec := secs[r.Intn(2)]
	keys := []string{"a", "b"}[:1+r.Intn(2)]
	p.Setup = append(p.Setup, Op{Do: "fsec", Name: sec})
	for i, k := range keys {
		p.Setup = append(p.Setup, Op{Do: "snew", Name: k, Val: "v1", To: i})
	}
	pick := func(prefix string) string {
		for n := 0; n < 100; n++ {
			do := all[r.Intn(len(all))]
			if !strings.Contains(prefix, do[:1]) || do == "knest" && !p.Opts.Nested || do == "kshadow" && !p.Opts.Shadows || p.Opts.NonUnique && (do == "fdel" || do == "fidx") {
				continue
			}
			return do
		}
		return "snames"
	}
	key := func() string { return keys[r.Intn(len(keys))] }
	whole := r.Chance(1, 3) // the section goes
	// One by name, and with what that leads to.
	var byName []Op
	for n := 1 + r.Small(2); n > 0; n-- {
		if whole && r.Chance(2, 3) {
			byName = append(byName, Op{Do: pick("f"), Name: sec, To: 0, Val: "v2"})
			continue
		}
		x := Op{Do: pick("s"), Name: key(), K: 0, To: 0, Val: fmt.Sprintf("n%d", n)}
		byName = append(byName, x)
		if r.Chance(1, 3) {
			byName = append(byName, Op{Do: pick("k"), Val: fmt.Sprintf("m%d", n)})
		}
	}
	// The other one deletes.
	var other []Op
	if r.Chance(1, 4) {
		other = append(other, Op{Do: pick("sk"), Name: key(), Val: "o", To: 1})
	}
	if whole {
		do := r.Pick("fdel", "fdelidx")
		if p.Opts.NonUnique {
			do = "fdelidx"
		}
		other = append(other, Op{Do: do, Name: sec})
	} else {
		other = append(other, Op{Do: "sdel", Name: key()})
	}
	for n := 1 + r.Small(2); n > 0; n-- {
		do := r.Pick("kval", "kset", pick("k"), pick("k"), pick("s"), pick("s"))
		if whole && r.Chance(1, 3) {
			do = pick("f")
		}
		x := Op{Do: do, K: r.Intn(len(keys)), To: 2, S: r.Intn(2) * 2, Name: key(), Val: fmt.Sprintf("o%d", n)}
		if do[0] == 'f' {
			x.Name = sec
		}
		other = append(other, x)
	}
	p.Clients = append(p.Clients, byName, other)
	if r.Chance(1, 5) {
		p.Clients = append(p.Clients, []Op{{Do: pick("sk"), Name: key(), Val: "t", To: 1}})
	}
	s := core.SchedConfig(r, 20+r.Intn(150))
	p.Sched = &s
}

// moveSecs is move with sections that take each other's place.
func (p *concPlan) moveSecs(r *core.Rand, secs, all []string) bool {
	var looks []string
	for _, do := range all {
		switch do {
		case "fsecs", "fnames", "skids", "fby", "xwrite":
			looks = append(looks, do)
		}
	}
	if len(looks) < 3 {
		return false
	}
	c := p.Opts.Child()
	names := []string{secs[0] + c + "a", secs[0] + c + "b", secs[0] + c + "c"}[:2+r.Intn(2)]
	p.Setup = append(p.Setup, Op{Do: "fsec", Name: secs[0]})
	if r.Chance(1, 3) {
		p.Setup = append(p.Setup, Op{Do: "fsec", Name: "x", To: 1})
	}
	at := r.Intn(len(names))
	p.Setup = append(p.Setup, Op{Do: "fnew", Name: names[at], To: 2})
	var writer []Op
	for n := 1 + r.Intn(3); n > 0; n-- {
		to := r.Intn(len(names))
		if to == at {
			continue
		}
		writer = append(writer, Op{Do: r.Pick("fnew", "fsec"), Name: names[to], To: 2})
		if r.Chance(1, 4) {
			writer = append(writer, Op{Do: "snew", S: 2, Name: "a", Val: "v1"})
		}
		writer = append(writer, Op{Do: "fdel", Name: names[at]})
		at = to
	}
	p.Clients = append(p.Clients, writer)
	for n := 1 + r.Small(2); n > 0; n-- {
		var l []Op
		for k := 1 + r.Intn(3); k > 0; k-- {
			l = append(l, Op{Do: looks[r.Intn(len(looks))], Name: names[0], To: 1})
		}
		p.Clients = append(p.Clients, l)
	}
	s := core.SchedConfig(r, 20+r.Intn(200))
	p.Sched = &s
	return true
}

// gone tells whether the key was last deleted.
func (p *concPlan) gone(l []Op, key string) bool {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].Name == key {
			return l[i].Do == "sdel"
		}
	}
	return false
}

var c11Mix = []string{
	"fnew", "fnew", "fsec", "fsec", "fsec", "fget", "fhas", "fidx", "fby", "fdel", "fdel", "fdelidx",
	"snew", "snew", "snew", "sget", "skey", "skey", "skey", "shas", "shasv", "sdel", "sdel",
	"kset", "kset", "kval", "kstr", "kint", "kall", "kshadow", "kshadow", "knest", "knest", "knested",
	"kmuststr", "kmustint", "kmustint", "kmustbool", "kmust64", "kmustuint", "kmustuint64", "kmustfloat", "kmustdur", "kmusttime",
}

func genC11(r *core.Rand, tier string) core.Plan {
	return genConc(r, tier, genConcOpts(r), []string{"s1", "DEFAULT", "S1", "s2", "", "t1"}, []string{"a", "b", "A", "c"}, c11Mix)
}

func init() {
	register(&core.Property{
		ID: "C11", Gen: genC11, New: func() core.Plan { return &concPlan{} }, Run: runConc,
		Quick: 900000, Thorough: 20000000,
		Rule:   "one case is a File, 2 to 4 (thorough: 5) clients with up to 5 (7) operations each and a schedule; non-trivial if at least two operations overlapped; distinct by operations and interleaving",
		Real:   "all of go-ini/ini",
		Stub:   "package sync's locks (decided by the simulator), goroutine scheduling",
		Probes: []string{"overlapping-operations"},
	})
}
