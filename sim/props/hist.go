package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
)

// Op is one operation of a client on a File. Sections and keys are addressed through
// the client's slots, which earlier operations filled.
type Op struct {
	Do   string `json:"do"`
	Name string `json:"name,omitempty"` // section or key name
	Val  string `json:"val,omitempty"`
	Idx  int    `json:"idx,omitempty"`
	S    int    `json:"s,omitempty"`  // section slot
	K    int    `json:"k,omitempty"`  // key slot
	To   int    `json:"to,omitempty"` // slot for the result
}

// Res is what an operation returned. Sections and keys are numbered by identity, from 1.
type Res struct {
	OnSec, OnKey int // what it was called on
	Err          bool
	Nil          bool // a nil section or key without an error
	Sec, Key     int
	Secs, Keys   []int
	Strs         []string
	Str          string
	B            bool
	Skipped      bool
}

func (r Res) String() string {
	var l []string
	add := func(f string, a ...interface{}) { l = append(l, fmt.Sprintf(f, a...)) }
	if r.OnSec > 0 {
		add("on sec#%d", r.OnSec)
	}
	if r.OnKey > 0 {
		add("on key#%d", r.OnKey)
	}
	if r.Err {
		add("error")
	}
	if r.Nil {
		add("nil")
	}
	if r.Sec > 0 {
		add("sec#%d", r.Sec)
	}
	if r.Key > 0 {
		add("key#%d", r.Key)
	}
	if r.Secs != nil {
		add("secs%v", r.Secs)
	}
	if r.Keys != nil {
		add("keys%v", r.Keys)
	}
	if r.Strs != nil {
		add("%q", r.Strs)
	}
	if r.Str != "" {
		add("%q", r.Str)
	}
	if r.B {
		add("true")
	}
	return strings.Join(l, " ")
}

func (o Op) String() string {
	s := o.Do
	switch o.Do[0] {
	case 's':
		s += fmt.Sprintf("[slot %d]", o.S)
	case 'k':
		s += fmt.Sprintf("[slot %d]", o.K)
	}
	return fmt.Sprintf("%s(%q,%q,%d)", s, o.Name, o.Val, o.Idx)
}

const slots = 4

// Client is one user of a File with the handles it keeps.
type Client struct {
	W    *Real
	secs [slots]*ini.Section
	keys [slots]*ini.Key
}

// Real numbers the sections and keys of one File.
type Real struct {
	F    *ini.File
	secs map[*ini.Section]int
	keys map[*ini.Key]int
	SecP []*ini.Section // by number
	KeyP []*ini.Key

	Hold bool // keep the lists that were returned
	held []held
}

// held is a list some operation returned, with what it held then.
type held struct {
	what string
	secs []*ini.Section
	keys []*ini.Key
	strs []string
	hash map[string]string
	was  string
}

func (h *held) now(w *Real) string {
	return fmt.Sprint(w.seclist(h.secs), w.keylist(h.keys), h.strs, ref.HashString(h.hash))
}

func (w *Real) hold(h held) {
	if w.Hold {
		h.was = h.now(w)
		w.held = append(w.held, h)
	}
}

// changed tells which list that was returned earlier is no longer what it was.
func (w *Real) changed() string {
	for _, h := range w.held {
		if now := h.now(w); now != h.was {
			return fmt.Sprintf("the list %s returned was %s and is now %s", h.what, h.was, now)
		}
	}
	return ""
}

// NewReal wraps f.
func NewReal(f *ini.File) *Real {
	return &Real{F: f, secs: map[*ini.Section]int{}, keys: map[*ini.Key]int{}, SecP: []*ini.Section{nil}, KeyP: []*ini.Key{nil}}
}

func (w *Real) sec(s *ini.Section) int {
	if s == nil {
		return 0
	}
	n := w.secs[s]
	if n == 0 {
		n = len(w.SecP)
		w.secs[s] = n
		w.SecP = append(w.SecP, s)
	}
	return n
}

func (w *Real) key(k *ini.Key) int {
	if k == nil {
		return 0
	}
	n := w.keys[k]
	if n == 0 {
		n = len(w.KeyP)
		w.keys[k] = n
		w.KeyP = append(w.KeyP, k)
	}
	return n
}

func (w *Real) seclist(l []*ini.Section) []int {
	out := make([]int, len(l))
	for i, s := range l {
		out[i] = w.sec(s)
	}
	return out
}

func (w *Real) keylist(l []*ini.Key) []int {
	out := make([]int, len(l))
	for i, k := range l {
		out[i] = w.key(k)
	}
	return out
}

// Do carries out one operation.
func (c *Client) Do(op Op) (r Res) {
	f := c.W.F
	putSec := func(s *ini.Section, err error) {
		r.Err = err != nil
		r.Sec = c.W.sec(s)
		r.Nil = s == nil && err == nil
		if s != nil {
			c.secs[op.To%slots] = s
		}
	}
	putKey := func(k *ini.Key, err error) {
		r.Err = err != nil
		r.Key = c.W.key(k)
		r.Nil = k == nil && err == nil
		if k != nil {
			c.keys[op.To%slots] = k
		}
	}
	strs := func(l []string) {
		r.Strs = append([]string{}, l...)
		c.W.hold(held{what: op.Do, strs: l})
	}
	secs := func(l []*ini.Section) {
		r.Secs = c.W.seclist(l)
		c.W.hold(held{what: op.Do, secs: l})
	}
	keys := func(l []*ini.Key) {
		r.Keys = c.W.keylist(l)
		c.W.hold(held{what: op.Do, keys: l})
	}
	switch op.Do[0] {
	case 'f':
		switch op.Do {
		case "fnew":
			putSec(f.NewSection(op.Name))
		case "fnews":
			r.Err = f.NewSections(op.Name, op.Val) != nil
		case "fraw":
			putSec(f.NewRawSection(op.Name, op.Val))
		case "fsec":
			putSec(f.Section(op.Name), nil)
		case "fget":
			putSec(f.GetSection(op.Name))
		case "fhas":
			r.B = f.HasSection(op.Name)
		case "fidx":
			putSec(f.SectionWithIndex(op.Name, op.Idx), nil)
		case "fby":
			l, err := f.SectionsByName(op.Name)
			r.Err = err != nil
			secs(l)
		case "fsecs":
			secs(f.Sections())
		case "fnames":
			strs(f.SectionStrings())
		case "fkids":
			secs(f.ChildSections(op.Name))
		case "fdel":
			f.DeleteSection(op.Name)
		case "fdelidx":
			r.Err = f.DeleteSectionWithIndex(op.Name, op.Idx) != nil
		default:
			r.Skipped = true
		}
	case 's':
		s := c.secs[op.S%slots]
		if s == nil {
			return Res{Skipped: true}
		}
		r.OnSec = c.W.sec(s)
		switch op.Do {
		case "snew":
			putKey(s.NewKey(op.Name, op.Val))
		case "sbool":
			putKey(s.NewBooleanKey(op.Name))
		case "sget":
			putKey(s.GetKey(op.Name))
		case "skey":
			putKey(s.Key(op.Name), nil)
		case "shas":
			r.B = s.HasKey(op.Name)
		case "shasv":
			r.B = s.HasValue(op.Val)
		case "skeys":
			keys(s.Keys())
		case "snames":
			strs(s.KeyStrings())
		case "shash":
			l := s.KeysHash()
			r.Str = ref.HashString(l)
			c.W.hold(held{what: op.Do, hash: l})
		case "sparents":
			keys(s.ParentKeys())
		case "skids":
			secs(s.ChildSections())
		case "sdel":
			s.DeleteKey(op.Name)
		case "sname":
			r.Str = s.Name()
		case "sbody":
			r.Str = s.Body()
		case "ssetbody":
			s.SetBody(op.Val)
		default:
			r.Skipped = true
		}
	case 'k':
		k := c.keys[op.K%slots]
		if k == nil {
			return Res{Skipped: true}
		}
		r.OnKey = c.W.key(k)
		switch op.Do {
		case "kset":
			k.SetValue(op.Val)
		case "kval":
			r.Str = k.Value()
		case "kstr":
			r.Str = k.String()
		case "kname":
			r.Str = k.Name()
		case "kint":
			n, err := k.Int()
			r.Str, r.Err = fmt.Sprint(n), err != nil
		case "kall":
			strs(k.ValueWithShadows())
		case "kshadow":
			r.Err = k.AddShadow(op.Val) != nil
		case "knested":
			strs(k.NestedValues())
		case "knest":
			r.Err = k.AddNestedValue(op.Val) != nil
		case "kmuststr":
			r.Str = k.MustString(op.Val)
		case "kmustint":
			r.Str = fmt.Sprint(k.MustInt(op.Idx))
		case "kmustbool":
			r.Str = fmt.Sprint(k.MustBool(op.Idx%2 == 0))
		case "kmust64":
			r.Str = fmt.Sprint(k.MustInt64(int64(op.Idx)))
		case "kmustuint":
			r.Str = fmt.Sprint(k.MustUint(uint(op.Idx)))
		case "kmustuint64":
			r.Str = fmt.Sprint(k.MustUint64(uint64(op.Idx)))
		case "kmustfloat":
			r.Str = fmt.Sprint(k.MustFloat64(float64(op.Idx) + 0.5))
		case "kmustdur":
			r.Str = k.MustDuration(msec(op.Idx)).String()
		case "kmusttime":
			r.Str = k.MustTime(epoch(op.Idx)).UTC().String()
		default:
			r.Skipped = true
		}
	default:
		r.Skipped = true
	}
	return r
}

// World is the reference model together with which real object stands for which of its.
type World struct {
	F     *ref.File
	disk  string // what the file that all clients save to holds
	secOf map[int]*ref.Sec
	keyOf map[int]*ref.Key
	secID map[*ref.Sec]int
	keyID map[*ref.Key]int
}

// NewWorld makes a world of f.
func NewWorld(f *ref.File) *World {
	return &World{F: f, secOf: map[int]*ref.Sec{}, keyOf: map[int]*ref.Key{}, secID: map[*ref.Sec]int{}, keyID: map[*ref.Key]int{}}
}

// Clone copies the world, detached sections and keys included.
func (w *World) Clone() *World {
	c := NewWorld(&ref.File{Opts: w.F.Opts})
	c.disk = w.disk
	secs := map[*ref.Sec]*ref.Sec{}
	keys := map[*ref.Key]*ref.Key{}
	var sec func(*ref.Sec) *ref.Sec
	key := func(k *ref.Key) *ref.Key {
		n := keys[k]
		if n == nil {
			n = new(ref.Key)
			*n = *k
			n.Shadows = append([]string(nil), k.Shadows...)
			n.Nested = append([]string(nil), k.Nested...)
			keys[k] = n
			n.S = sec(k.S)
		}
		return n
	}
	sec = func(s *ref.Sec) *ref.Sec {
		n := secs[s]
		if n == nil {
			n = new(ref.Sec)
			*n = *s
			n.F = c.F
			n.Keys = make([]*ref.Key, len(s.Keys))
			secs[s] = n
			for i, k := range s.Keys {
				n.Keys[i] = key(k)
			}
		}
		return n
	}
	for _, s := range w.F.Secs {
		c.F.Secs = append(c.F.Secs, sec(s))
	}
	for id, s := range w.secOf {
		n := sec(s)
		c.secOf[id], c.secID[n] = n, id
	}
	for id, k := range w.keyOf {
		n := key(k)
		c.keyOf[id], c.keyID[n] = n, id
	}
	return c
}

func (w *World) bindSec(id int, s *ref.Sec) string {
	if id == 0 || s == nil {
		if id == 0 && s == nil {
			return ""
		}
		if s == nil {
			return fmt.Sprintf("want no section, got sec#%d", id)
		}
		return fmt.Sprintf("want section %q, got none", s.Name)
	}
	if old := w.secOf[id]; old != nil && old != s {
		return fmt.Sprintf("want section %q in its present form, got sec#%d, another section (%q)", s.Name, id, old.Name)
	}
	if old := w.secID[s]; old != 0 && old != id {
		return fmt.Sprintf("want section %q as sec#%d, got sec#%d, a different object", s.Name, old, id)
	}
	w.secOf[id], w.secID[s] = s, id
	return ""
}

func (w *World) bindKey(id int, k *ref.Key) string {
	if id == 0 || k == nil {
		if id == 0 && k == nil {
			return ""
		}
		if k == nil {
			return fmt.Sprintf("want no key, got key#%d", id)
		}
		return fmt.Sprintf("want key %q, got none", k.Name)
	}
	if old := w.keyOf[id]; old != nil && old != k {
		return fmt.Sprintf("want key %q of %q, got key#%d, another key (%q of %q)", k.Name, k.S.Name, id, old.Name, old.S.Name)
	}
	if old := w.keyID[k]; old != 0 && old != id {
		return fmt.Sprintf("want key %q as key#%d, got key#%d, a different object", k.Name, old, id)
	}
	w.keyOf[id], w.keyID[k] = k, id
	return ""
}

func (w *World) bindSecs(ids []int, l []*ref.Sec) string {
	if len(ids) != len(l) {
		var names []string
		for _, s := range l {
			names = append(names, s.Name)
		}
		return fmt.Sprintf("want %d sections %q, got %d: %v", len(l), names, len(ids), ids)
	}
	for i := range l {
		if d := w.bindSec(ids[i], l[i]); d != "" {
			return fmt.Sprintf("section %d of the list: %s", i, d)
		}
	}
	return ""
}

func (w *World) bindKeys(ids []int, l []*ref.Key) string {
	if len(ids) != len(l) {
		var names []string
		for _, k := range l {
			names = append(names, k.Name)
		}
		return fmt.Sprintf("want %d keys %q, got %d: %v", len(l), names, len(ids), ids)
	}
	for i := range l {
		if d := w.bindKey(ids[i], l[i]); d != "" {
			return fmt.Sprintf("key %d of the list: %s", i, d)
		}
	}
	return ""
}

// Step carries out op on the model. It returns "" if r is the right result, else what
// is wrong with it.
func (w *World) Step(op Op, r Res) string {
	if r.Skipped {
		return ""
	}
	f := w.F
	sec := func(s *ref.Sec, wantErr bool) string {
		if r.Err != wantErr {
			return fmt.Sprintf("want error %v, got %v", wantErr, r.Err)
		}
		if d := w.bindSec(r.Sec, s); d != "" {
			return d
		}
		return ""
	}
	key := func(k *ref.Key, wantErr bool) string {
		if r.Err != wantErr {
			return fmt.Sprintf("want error %v, got %v", wantErr, r.Err)
		}
		return w.bindKey(r.Key, k)
	}
	flag := func(want bool) string {
		if r.B != want {
			return fmt.Sprintf("want %v, got %v", want, r.B)
		}
		return ""
	}
	str := func(want string) string {
		if r.Str != want {
			return fmt.Sprintf("want %q, got %q", want, r.Str)
		}
		return ""
	}
	strs := func(want []string) string {
		if strings.Join(r.Strs, "\x00") != strings.Join(want, "\x00") || len(r.Strs) != len(want) {
			return fmt.Sprintf("want %q, got %q", want, r.Strs)
		}
		return ""
	}
	fail := func(want bool) string {
		if r.Err != want {
			return fmt.Sprintf("want error %v, got %v", want, r.Err)
		}
		return ""
	}
	switch op.Do {
	case "fnew", "fraw":
		s := f.NewSection(op.Name)
		if s != nil && op.Do == "fraw" {
			s.IsRaw, s.Body = true, op.Val
		}
		return sec(s, s == nil)
	case "fnews":
		ok := f.NewSection(op.Name) != nil && f.NewSection(op.Val) != nil
		return fail(!ok)
	case "fsec":
		return sec(f.Section(op.Name), false)
	case "fget":
		s := f.Get(op.Name)
		return sec(s, s == nil)
	case "fhas":
		return flag(f.Get(op.Name) != nil)
	case "fidx":
		l := f.All(op.Name)
		if op.Idx < len(l) {
			return sec(l[op.Idx], false)
		}
		name := op.Name
		if name == "" {
			name = "DEFAULT"
		}
		return sec(f.NewSection(name), false)
	case "fby":
		l := f.All(op.Name)
		if d := fail(len(l) == 0); d != "" {
			return d
		}
		return w.bindSecs(r.Secs, l)
	case "fsecs":
		return w.bindSecs(r.Secs, f.Secs)
	case "fnames":
		return strs(f.Names())
	case "fkids":
		return w.bindSecs(r.Secs, f.Section(op.Name).Children())
	case "fdel":
		f.Delete(op.Name)
		return ""
	case "fdelidx":
		if !f.Opts.NonUnique && op.Idx != 0 {
			return fail(true)
		}
		f.DeleteIndex(op.Name, op.Idx)
		return fail(false)
	}
	if op.Do[0] == 's' {
		s := w.secOf[r.OnSec]
		if s == nil {
			return fmt.Sprintf("called on sec#%d, which no earlier operation returned", r.OnSec)
		}
		switch op.Do {
		case "snew", "sbool":
			val := op.Val
			if op.Do == "sbool" {
				val = "true"
			}
			k := s.NewKey(op.Name, val)
			if k != nil && op.Do == "sbool" {
				k.Bool = true
			}
			return key(k, k == nil)
		case "sget":
			k := s.Lookup(op.Name)
			return key(k, k == nil)
		case "skey":
			return key(s.Key(op.Name), false)
		case "shas":
			return flag(s.Lookup(op.Name) != nil)
		case "shasv":
			return flag(s.HasValue(op.Val))
		case "skeys":
			return w.bindKeys(r.Keys, s.Keys)
		case "snames":
			return strs(s.KeyNames())
		case "shash":
			return str(ref.HashString(s.Hash()))
		case "sparents":
			return w.bindKeys(r.Keys, s.ParentKeys())
		case "skids":
			return w.bindSecs(r.Secs, s.Children())
		case "sdel":
			s.DeleteKey(op.Name)
			return ""
		case "sname":
			return str(s.Name)
		case "sbody":
			return str(strings.TrimSpace(s.Body))
		case "ssetbody":
			if s.IsRaw {
				s.Body = op.Val
			}
			return ""
		}
		return ""
	}
	k := w.keyOf[r.OnKey]
	if k == nil {
		return fmt.Sprintf("called on key#%d, which no earlier operation returned", r.OnKey)
	}
	must := func(parse func(string) (string, bool), def, stored string) string {
		v, ok := parse(k.Value)
		if !ok {
			k.Value = stored
			v = def
		}
		return str(v)
	}
	switch op.Do {
	case "kset":
		k.Value = op.Val
	case "kval", "kstr":
		return str(k.Value)
	case "kname":
		return str(k.Name)
	case "kint":
		n, err := strconv.ParseInt(k.Value, 0, 64)
		if d := fail(err != nil); d != "" {
			return d
		}
		return str(fmt.Sprint(n))
	case "kall":
		return strs(k.WithShadows())
	case "kshadow":
		return fail(!f.Opts.Shadows || !k.AddShadow(op.Val))
	case "knested":
		return strs(k.Nested)
	case "knest":
		if !f.Opts.Nested || k.Auto || k.Bool {
			return fail(true)
		}
		k.Nested = append(k.Nested, op.Val)
		return fail(false)
	case "kmuststr":
		return must(func(v string) (string, bool) { return v, v != "" }, op.Val, op.Val)
	case "kmustint", "kmust64":
		s := fmt.Sprint(op.Idx)
		return must(func(v string) (string, bool) {
			n, err := strconv.ParseInt(v, 0, 64)
			return fmt.Sprint(n), err == nil
		}, s, s)
	case "kmustuint", "kmustuint64":
		s := fmt.Sprint(op.Idx)
		return must(func(v string) (string, bool) {
			n, err := strconv.ParseUint(v, 0, 64)
			return fmt.Sprint(n), err == nil
		}, s, s)
	case "kmustbool":
		s := fmt.Sprint(op.Idx%2 == 0)
		return must(boolText, s, s)
	case "kmustfloat":
		s := strconv.FormatFloat(float64(op.Idx)+0.5, 'f', -1, 64)
		return must(func(v string) (string, bool) {
			n, err := strconv.ParseFloat(v, 64)
			return fmt.Sprint(n), err == nil
		}, fmt.Sprint(float64(op.Idx)+0.5), s)
	case "kmustdur":
		s := msec(op.Idx).String()
		return must(durText, s, s)
	case "kmusttime":
		return must(timeText, epoch(op.Idx).String(), epochText(op.Idx))
	}
	return ""
}

// Digest identifies the state of the world.
func (w *World) Digest() uint64 {
	var b strings.Builder
	sec := func(s *ref.Sec) {
		fmt.Fprintf(&b, "%q#%d:%v%q(", s.Name, w.secID[s], s.IsRaw, s.Body)
		for _, k := range s.Keys {
			fmt.Fprintf(&b, "%q#%d=%q%q%q%v,", k.Name, w.keyID[k], k.Value, k.Shadows, k.Nested, k.Bool)
		}
		b.WriteByte(')')
	}
	live := map[*ref.Sec]bool{}
	liveK := map[*ref.Key]bool{}
	for _, s := range w.F.Secs {
		live[s] = true
		sec(s)
	}
	var ids []int
	for id, s := range w.secOf {
		if !live[s] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	b.WriteByte('|')
	for _, id := range ids {
		sec(w.secOf[id])
	}
	for _, s := range w.F.Secs {
		for _, k := range s.Keys {
			liveK[k] = true
		}
	}
	for _, s := range w.secOf {
		for _, k := range s.Keys {
			liveK[k] = true
		}
	}
	ids = ids[:0]
	for id, k := range w.keyOf {
		if !liveK[k] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	b.WriteByte('|')
	for _, id := range ids {
		k := w.keyOf[id]
		fmt.Fprintf(&b, "%d:%q=%q%q%q;", id, k.Name, k.Value, k.Shadows, k.Nested)
	}
	fmt.Fprintf(&b, "|%q", w.disk)
	return core.HashString(7, b.String())
}

// viewsAgree compares all views of a File with each other.
func viewsAgree(f *ini.File, o ref.Opts) string {
	names, secs := f.SectionStrings(), f.Sections()
	if len(names) != len(secs) {
		return fmt.Sprintf("SectionStrings lists %q, Sections %d", names, len(secs))
	}
	byName := map[string][]*ini.Section{}
	for i, s := range secs {
		if s == nil {
			return fmt.Sprintf("Sections()[%d] is nil, SectionStrings says %q", i, names[i])
		}
		if s.Name() != names[i] {
			return fmt.Sprintf("Sections()[%d] is %q, SectionStrings says %q", i, s.Name(), names[i])
		}
		byName[s.Name()] = append(byName[s.Name()], s)
	}
	child := o.Child()
	for n, l := range byName {
		if len(l) > 1 && !o.NonUnique {
			return fmt.Sprintf("section %q is listed %d times", n, len(l))
		}
		got, err := f.SectionsByName(n)
		if err != nil || len(got) != len(l) {
			return fmt.Sprintf("SectionsByName(%q) returns %d sections, error %v; %d are listed", n, len(got), err, len(l))
		}
		for i := range l {
			if got[i] != l[i] {
				return fmt.Sprintf("SectionsByName(%q)[%d] is not the %dth section listed under that name", n, i, i)
			}
		}
		if s, err := f.GetSection(n); err != nil || s != l[0] {
			return fmt.Sprintf("GetSection(%q) is not the first section of that name (error %v)", n, err)
		}
		if !f.HasSection(n) {
			return fmt.Sprintf("HasSection(%q) is false although it is listed", n)
		}
	}
	for _, s := range secs {
		n := s.Name()
		keys, knames, hash := s.Keys(), s.KeyStrings(), s.KeysHash()
		if len(keys) != len(knames) || len(hash) != len(keys) {
			return fmt.Sprintf("section %q: Keys lists %d, KeyStrings %q, KeysHash %d", n, len(keys), knames, len(hash))
		}
		seen := map[string]bool{}
		for i, k := range keys {
			if k == nil || k.Name() != knames[i] {
				return fmt.Sprintf("section %q: Keys()[%d] is not %q as KeyStrings says", n, i, knames[i])
			}
			if seen[k.Name()] {
				return fmt.Sprintf("section %q lists key %q twice", n, k.Name())
			}
			seen[k.Name()] = true
			if v, ok := hash[k.Name()]; !ok || v != k.Value() {
				return fmt.Sprintf("section %q: KeysHash says %q=%q (%v), the key %q", n, k.Name(), v, ok, k.Value())
			}
			if g, err := s.GetKey(k.Name()); err != nil || g != k {
				return fmt.Sprintf("section %q: GetKey(%q) does not return the key listed (error %v)", n, k.Name(), err)
			}
			if !s.HasKey(k.Name()) {
				return fmt.Sprintf("section %q: HasKey(%q) is false although it is listed", n, k.Name())
			}
			if !s.HasValue(k.Value()) {
				return fmt.Sprintf("section %q: HasValue(%q) is false although key %q has it", n, k.Value(), k.Name())
			}
		}
		var kids []*ini.Section
		for _, x := range secs {
			if strings.HasPrefix(x.Name(), n+child) {
				kids = append(kids, x)
			}
		}
		got := s.ChildSections()
		if len(got) != len(kids) {
			return fmt.Sprintf("section %q: ChildSections lists %d, there are %d", n, len(got), len(kids))
		}
		for i := range kids {
			if got[i] != kids[i] {
				return fmt.Sprintf("section %q: ChildSections()[%d] is %q, want %q", n, i, got[i].Name(), kids[i].Name())
			}
		}
	}
	return ""
}

// crowdOps are operations that put very many keys, sections or shadows into a File first.
func crowdOps(r *core.Rand, o ref.Opts, secs, keys []string) []Op {
	n := r.PickInt(8, 9, 10, 16, 17, 32, 33, 65)
	sec := secs[r.Intn(len(secs))]
	key := func(i int) string {
		if len(keys) > 0 && r.Chance(1, 4) {
			return keys[r.Intn(len(keys))]
		}
		return fmt.Sprintf("k%d", i)
	}
	l := []Op{{Do: "fsec", Name: sec, To: slots - 1}}
	switch r.Intn(3) {
	case 0:
		for i := 0; i < n; i++ {
			l = append(l, Op{Do: "snew", S: slots - 1, Name: key(i), Val: fmt.Sprintf("v%d", i%7), To: slots - 1})
		}
	case 1:
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("t%d", i)
			if r.Chance(1, 10) {
				name = secs[r.Intn(len(secs))]
			}
			l = append(l, Op{Do: "fnew", Name: name, To: slots - 1})
		}
	case 2:
		l = append(l, Op{Do: "snew", S: slots - 1, Name: key(0), Val: "v", To: slots - 1})
		for i := 0; o.Shadows && i < n; i++ {
			l = append(l, Op{Do: "kshadow", K: slots - 1, Val: fmt.Sprintf("v%d", i)})
		}
	}
	return l
}
