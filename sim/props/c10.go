package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
)

// c10Plan: a struct type, and values of it that are written over several processes.
type c10Plan struct {
	Opts   ref.Opts   `json:"opts"`
	Pretty pretty     `json:"pretty"`
	NoLock bool       `json:"no_lock,omitempty"`
	Mapper string     `json:"mapper,omitempty"` // "", snack, title, lower
	Root   string     `json:"root,omitempty"`   // section of the outermost struct
	Slice  bool       `json:"slice,omitempty"`  // repeated sections named Root instead of one struct
	Fields []c10Field `json:"fields"`
	Stale  bool       `json:"stale,omitempty"` // the keys have other values before
	Rounds []c10Round `json:"rounds"`
}

type c10Field struct {
	Name    string     `json:"name"`
	Tag     core.Bin   `json:"tag,omitempty"`
	Omit    bool       `json:"omit,omitempty"`
	Shadow  bool       `json:"shadow,omitempty"`
	Extends bool       `json:"extends,omitempty"`
	Comment string     `json:"comment,omitempty"`
	Delim   string     `json:"delim,omitempty"`
	Kind    string     `json:"kind"`
	Wrap    string     `json:"wrap,omitempty"`   // "", ptr, slice, and for structs embed, embedptr, repeat, repeatptr
	Fields  []c10Field `json:"fields,omitempty"` // Kind struct
}

// c10Val is a value of a field: text of a scalar, elements of a list, fields of a struct.
type c10Val struct {
	S   core.Bin `json:"s,omitempty"`
	Nil bool     `json:"nil,omitempty"`
	L   []c10Val `json:"l,omitempty"`

	any bool // nothing is claimed about it
}

type c10Round struct {
	Val     c10Val        `json:"val"`
	API     string        `json:"api"` // file, package, mapper, section
	Plain   bool          `json:"plain,omitempty"`
	Indent  string        `json:"indent,omitempty"`
	Target  int           `json:"target,omitempty"`
	Faults  []simos.Fault `json:"faults,omitempty"`
	Restart bool          `json:"restart,omitempty"`
	Strict  bool          `json:"strict,omitempty"`
}

type (
	c10Str  string
	c10Int  int
	c10Bool bool
	c10Wait time.Duration
	c10Num  float64
)

var c10Types = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(false), "int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)),
	"int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "uint": reflect.TypeOf(uint(0)),
	"uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "dur": reflect.TypeOf(time.Duration(0)),
	"time": reflect.TypeOf(time.Time{}), "nstring": reflect.TypeOf(c10Str("")), "nint": reflect.TypeOf(c10Int(0)),
	"nbool": reflect.TypeOf(c10Bool(false)), "ndur": reflect.TypeOf(c10Wait(0)), "nfloat": reflect.TypeOf(c10Num(0)),
}

var c10Scalars = []string{"string", "string", "string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float32", "float64", "dur", "dur", "time", "time", "nstring", "nint", "nbool", "ndur", "nfloat"}
var c10Elems = []string{"string", "string", "bool", "int", "int64", "uint", "uint64", "float64", "time", "dur", "nstring", "nint", "nbool", "ndur", "nfloat"}
var c10Names = []string{"A", "B", "Host", "PortNumber", "XMLName", "X", "Y2", "AbCdE", "Name", "Éa", "User_name", "T0", "Value", "Ports", "HTTPServer"}
var c10Secs = []string{"s1", "s2", "s1.sub", "s1.sub.deep", "x y", "Sec", "q]r", "é", "sec.T", "a#b", "s2.sub"}
var c10Delims = []string{"", "", "", ",", "|", "、", "&&", ", ", ";", "#", "é"}

func isStruct(f *c10Field) bool { return f.Kind == "struct" }

func (f *c10Field) isRepeat() bool { return f.Wrap == "repeat" || f.Wrap == "repeatptr" }
func (f *c10Field) isPtr() bool {
	return f.Wrap == "ptr" || f.Wrap == "embedptr"
}
func (f *c10Field) isEmbed() bool { return f.Wrap == "embed" || f.Wrap == "embedptr" }

// goType makes the real type.
func c10Struct(fs []c10Field) reflect.Type {
	var l []reflect.StructField
	for i := range fs {
		f := &fs[i]
		var t reflect.Type
		if isStruct(f) {
			t = c10Struct(f.Fields)
		} else {
			t = c10Types[f.Kind]
		}
		switch f.Wrap {
		case "ptr", "embedptr":
			t = reflect.PtrTo(t)
		case "slice", "repeat":
			t = reflect.SliceOf(t)
		case "repeatptr":
			t = reflect.SliceOf(reflect.PtrTo(t))
		}
		tag := string(f.Tag)
		if f.Omit {
			tag += ",omitempty"
		}
		if f.Shadow {
			tag += ",allowshadow"
		}
		if f.isRepeat() {
			tag += ",nonunique"
		}
		if f.Extends {
			tag += ",extends"
		}
		st := ""
		if tag != "" {
			st = "ini:" + strconv.Quote(tag)
		}
		if f.Delim != "" {
			st += " delim:" + strconv.Quote(f.Delim)
		}
		if f.Comment != "" {
			st += " comment:" + strconv.Quote(f.Comment)
		}
		l = append(l, reflect.StructField{Name: f.Name, Type: t, Tag: reflect.StructTag(st), Anonymous: f.isEmbed()})
	}
	return reflect.StructOf(l)
}

// set stores a value of the plan.
func (f *c10Field) set(v c10Val, dst reflect.Value) {
	switch f.Wrap {
	case "ptr", "embedptr":
		if v.Nil {
			return
		}
		p := reflect.New(dst.Type().Elem())
		f.setElem(v, p.Elem())
		dst.Set(p)
	case "slice", "repeat", "repeatptr":
		if v.Nil {
			return
		}
		s := reflect.MakeSlice(dst.Type(), len(v.L), len(v.L))
		for i := range v.L {
			e := s.Index(i)
			if f.Wrap == "repeatptr" {
				p := reflect.New(e.Type().Elem())
				e.Set(p)
				e = p.Elem()
			}
			f.setElem(v.L[i], e)
		}
		dst.Set(s)
	default:
		f.setElem(v, dst)
	}
}

func setFields(fs []c10Field, v c10Val, dst reflect.Value) {
	for i := range fs {
		fs[i].set(v.L[i], dst.Field(i))
	}
}

func (f *c10Field) setElem(v c10Val, dst reflect.Value) {
	if isStruct(f) {
		setFields(f.Fields, v, dst)
		return
	}
	s := string(v.S)
	switch dst.Kind() {
	case reflect.String:
		dst.SetString(s)
	case reflect.Bool:
		dst.SetBool(s == "true")
	case reflect.Float32, reflect.Float64:
		n, _ := strconv.ParseFloat(s, dst.Type().Bits())
		dst.SetFloat(n)
	case reflect.Struct:
		dst.Set(reflect.ValueOf(c10Time(s)))
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, _ := strconv.ParseUint(s, 10, dst.Type().Bits())
		dst.SetUint(n)
	default:
		n, _ := strconv.ParseInt(s, 10, dst.Type().Bits())
		dst.SetInt(n)
	}
}

// c10Time reads "seconds nanoseconds offset-in-minutes".
func c10Time(s string) time.Time {
	var sec, ns int64
	var off int
	if s == "" {
		return time.Time{}
	}
	_, _ = fmt.Sscan(s, &sec, &ns, &off)
	t := time.Unix(sec, ns).UTC()
	if off != 0 {
		t = t.In(time.FixedZone("", off*60))
	}
	return t
}

func c10TimeOK(s string) bool {
	var sec, ns int64
	var off int
	if n, err := fmt.Sscan(s, &sec, &ns, &off); s != "" && (n != 3 || err != nil) {
		return false
	}
	y := c10Time(s).Year()
	return y >= 1 && y <= 9998 && ns >= 0 && ns < 1e9 && off > -1400 && off < 1400
}

// compare tells how a field that came back differs from what was written.
func (f *c10Field) compare(path string, v c10Val, got reflect.Value) string {
	path += "." + f.Name
	if v.any {
		return ""
	}
	switch f.Wrap {
	case "ptr", "embedptr":
		if v.Nil {
			if got.IsNil() || f.Kind == "string" || f.Kind == "nstring" {
				return ""
			}
			return fmt.Sprintf("%s: nil came back as %v", path, got.Elem())
		}
		if got.IsNil() {
			return fmt.Sprintf("%s: came back nil", path)
		}
		return f.compareElem(path, v, got.Elem())
	case "slice", "repeat", "repeatptr":
		if got.Len() != len(v.L) {
			return fmt.Sprintf("%s: %d elements came back as %d: %q", path, len(v.L), got.Len(), fmt.Sprint(got))
		}
		for i := range v.L {
			e := got.Index(i)
			if f.Wrap == "repeatptr" {
				if e.IsNil() {
					return fmt.Sprintf("%s[%d]: came back nil", path, i)
				}
				e = e.Elem()
			}
			if d := f.compareElem(fmt.Sprintf("%s[%d]", path, i), v.L[i], e); d != "" {
				return d
			}
		}
		return ""
	}
	return f.compareElem(path, v, got)
}

func compareFields(path string, fs []c10Field, v c10Val, got reflect.Value) string {
	for i := range fs {
		if d := fs[i].compare(path, v.L[i], got.Field(i)); d != "" {
			return d
		}
	}
	return ""
}

func (f *c10Field) compareElem(path string, v c10Val, got reflect.Value) string {
	if v.any {
		return ""
	}
	if isStruct(f) {
		return compareFields(path, f.Fields, v, got)
	}
	want := reflect.New(got.Type()).Elem()
	f.setElem(v, want)
	same := false
	switch got.Kind() {
	case reflect.Float32, reflect.Float64:
		a, b := want.Float(), got.Float()
		same = math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
	case reflect.Struct:
		same = want.Interface().(time.Time).Truncate(time.Second).Equal(got.Interface().(time.Time))
	default:
		same = want.Interface() == got.Interface()
	}
	if same {
		return ""
	}
	return fmt.Sprintf("%s: %q came back as %q", path, clip(fmt.Sprint(want.Interface()), 200), clip(fmt.Sprint(got.Interface()), 200))
}

// valueOK checks the limits C10 puts on values, and on the shape of the tree.
func (p *c10Plan) valueOK(f *c10Field, v c10Val) bool {
	switch f.Wrap {
	case "ptr", "embedptr":
		if v.Nil {
			return !f.isEmbed()
		}
		return p.elemOK(f, v)
	case "slice":
		if v.Nil {
			return len(v.L) == 0
		}
		d := f.Delim
		if d == "" {
			d = ","
		}
		var texts []string
		seen := map[string]bool{}
		for _, e := range v.L {
			if !p.elemOK(f, e) {
				return false
			}
			s := string(e.S)
			if f.Kind == "time" {
				if s == "" {
					return false
				}
				s = c10Time(s).Format(time.RFC3339)
			}
			if s == "" || strings.TrimSpace(s) != s || strings.ContainsAny(s, d+"\\") || !utf8.ValidString(s) {
				return false
			}
			if f.Shadow && p.Opts.Shadows && seen[s] && !p.Opts.DuplicateShadows {
				return false
			}
			seen[s] = true
			texts = append(texts, s)
		}
		return c09ValueOK(strings.Join(texts, d))
	case "repeat", "repeatptr":
		if len(v.L) == 0 && !v.Nil && f == nil {
			return false
		}
		for _, e := range v.L {
			if !p.elemOK(f, e) {
				return false
			}
		}
		return true
	}
	return !v.Nil && p.elemOK(f, v)
}

func (p *c10Plan) fieldsOK(fs []c10Field, v c10Val) bool {
	if len(v.L) != len(fs) || v.Nil {
		return false
	}
	for i := range fs {
		if !p.valueOK(&fs[i], v.L[i]) {
			return false
		}
	}
	return true
}

func (p *c10Plan) elemOK(f *c10Field, v c10Val) bool {
	if v.Nil {
		return false
	}
	if isStruct(f) {
		return p.fieldsOK(f.Fields, v)
	}
	if len(v.L) > 0 {
		return false
	}
	s := string(v.S)
	switch f.Kind {
	case "string", "nstring":
		return c09ValueOK(s) && !strings.Contains(s, "%(")
	case "bool", "nbool":
		return s == "true" || s == "false"
	case "time":
		return c10TimeOK(s)
	case "float32":
		n, err := strconv.ParseFloat(s, 32)
		return err == nil || n != 0
	case "float64", "nfloat":
		n, err := strconv.ParseFloat(s, 64)
		return err == nil || n != 0
	}
	var err error
	b := c10Types[f.Kind].Bits()
	if strings.HasPrefix(f.Kind, "u") {
		_, err = strconv.ParseUint(s, 10, b)
	} else {
		_, err = strconv.ParseInt(s, 10, b)
	}
	return err == nil
}

// layout works out where every field goes; it tells whether the type is one C10 speaks of.
type c10Layout struct {
	p        *c10Plan
	keys     map[string]bool // section NUL key
	names    map[string]bool // key names anywhere
	secs     map[string]bool
	absent   []string // sections that may not be there
	optional []string // leaves that may be left out: section NUL key
}

func mapperOf(name string) ini.NameMapper {
	switch name {
	case "snack":
		return ini.SnackCase
	case "title":
		return ini.TitleUnderscore
	case "lower":
		return strings.ToLower
	}
	return nil
}

func (l *c10Layout) name(f *c10Field) string {
	if f.Tag != "" {
		return string(f.Tag)
	}
	if m := mapperOf(l.p.Mapper); m != nil {
		return m(f.Name)
	}
	return f.Name
}

func (l *c10Layout) addSec(n string) bool {
	if n == "" || strings.ContainsAny(n, ",\r\n") || strings.EqualFold(n, "DEFAULT") || l.secs[l.p.Opts.FoldSec(n)] {
		return false
	}
	for _, r := range l.p.Opts.Raw {
		if strings.EqualFold(n, r) {
			return false
		}
	}
	l.secs[l.p.Opts.FoldSec(n)] = true
	return true
}

func (l *c10Layout) fields(sec string, fs []c10Field, depth int, flat bool) bool {
	if depth > 4 {
		return false
	}
	goNames := map[string]bool{}
	for i := range fs {
		f := &fs[i]
		if goNames[f.Name] || !c10NameOK(f.Name) || strings.ContainsAny(f.Comment, "\r\n`\"") || strings.TrimSpace(f.Comment) != f.Comment {
			return false
		}
		goNames[f.Name] = true
		n := l.name(f)
		if n == "-" || n == "" || strings.Contains(n, ",") {
			return false
		}
		if isStruct(f) {
			if f.Shadow || f.Delim != "" || f.Extends && !f.isEmbed() || f.Wrap == "slice" {
				return false
			}
			if f.Extends {
				if f.Tag != "" || !l.fields(sec, f.Fields, depth+1, flat) {
					return false
				}
				continue
			}
			if f.Omit && f.Wrap != "ptr" || flat || !l.addSec(n) {
				return false
			}
			if f.isRepeat() && (!l.p.Opts.NonUnique || f.Omit) {
				return false
			}
			if f.Wrap == "ptr" {
				l.absent = append(l.absent, n)
			}
			if !l.fields(n, f.Fields, depth+1, f.isRepeat()) {
				return false
			}
			continue
		}
		if len(f.Fields) > 0 || f.Extends || f.Shadow && f.Wrap != "slice" || f.Delim != "" && f.Wrap != "slice" {
			return false
		}
		switch f.Wrap {
		case "":
			if c10Types[f.Kind] == nil {
				return false
			}
		case "ptr":
			if c10Types[f.Kind] == nil {
				return false
			}
		case "slice":
			ok := false
			for _, k := range c10Elems {
				ok = ok || k == f.Kind
			}
			if !ok || strings.ContainsAny(f.Delim, "\\\"'`") {
				return false
			}
		default:
			return false
		}
		if !c09KeyOK(n, l.p.Opts) || n[0] == '#' {
			return false
		}
		k := sec + "\x00" + l.p.Opts.FoldKey(n)
		if l.keys[k] {
			return false
		}
		l.keys[k] = true
		l.names[l.p.Opts.FoldKey(n)] = true
		if f.Omit {
			l.optional = append(l.optional, k)
		}
	}
	return true
}

func c10NameOK(n string) bool {
	if n == "" {
		return false
	}
	c, _ := utf8.DecodeRuneInString(n)
	return c >= 'A' && c <= 'Z' || c == 'É'
}

func (p *c10Plan) layout() *c10Layout {
	l := &c10Layout{p: p, keys: map[string]bool{}, names: map[string]bool{}, secs: map[string]bool{}}
	if p.Root != "" && !l.addSec(p.Root) || p.Slice && (p.Root == "" || !p.Opts.NonUnique) {
		return nil
	}
	if !l.fields(p.Root, p.Fields, 0, p.Slice) {
		return nil
	}
	for _, n := range l.absent {
		// A section that was left out is looked for among the keys.
		if l.names[p.Opts.FoldKey(n)] {
			return nil
		}
	}
	return l
}

// inherits tells whether a field that is left out is looked up in a parent section.
func (l *c10Layout) inherits() bool {
	d := l.p.Opts.Child()
	for _, k := range l.optional {
		i := strings.IndexByte(k, 0)
		sec, key := k[:i], k[i:]
		for {
			j := strings.LastIndex(sec, d)
			if j < 0 {
				break
			}
			sec = sec[:j]
			if l.keys[sec+key] {
				return true
			}
		}
	}
	return false
}

// expect works out what a restart brings back when v is written over what prev stands for.
func (p *c10Plan) expect(fs []c10Field, prev *c10Val, v c10Val) c10Val {
	out := c10Val{L: make([]c10Val, len(fs))}
	for i := range fs {
		f := &fs[i]
		var pv *c10Val
		if prev != nil && len(prev.L) == len(fs) {
			pv = &prev.L[i]
		}
		w := v.L[i]
		left := f.Omit && f.empty(w) || f.Wrap == "ptr" && w.Nil
		switch {
		case left && p.Stale:
			w = c10Val{any: true}
		case left && pv != nil:
			w = *pv
		case left:
			w = f.zero()
		case isStruct(f) && !f.isRepeat():
			w = p.expect(f.Fields, pv, w)
		case isStruct(f):
			l := make([]c10Val, len(w.L))
			for j, e := range w.L {
				l[j] = p.expect(f.Fields, nil, e)
			}
			w.L = l
		}
		out.L[i] = w
	}
	return out
}

// zero is what a field is that nothing was written for.
func (f *c10Field) zero() c10Val {
	switch {
	case f.Wrap == "ptr":
		return c10Val{Nil: true}
	case f.Wrap != "":
		return c10Val{}
	}
	switch f.Kind {
	case "string", "nstring", "time":
		return c10Val{}
	case "bool", "nbool":
		return c10Val{S: "false"}
	}
	return c10Val{S: "0"}
}

// empty is the empty value in the sense of omitempty.
func (f *c10Field) empty(v c10Val) bool {
	switch f.Wrap {
	case "ptr":
		return v.Nil
	case "slice":
		return len(v.L) == 0
	case "":
		if isStruct(f) {
			return false
		}
		dst := reflect.New(c10Types[f.Kind]).Elem()
		f.setElem(v, dst)
		if t, ok := dst.Interface().(time.Time); ok {
			return t.IsZero()
		}
		switch dst.Kind() {
		case reflect.Float32, reflect.Float64:
			return dst.Float() == 0
		}
		return dst.IsZero()
	}
	return false
}

// nils counts pointers that are nil and for which strict mapping has no value.
func nilsIn(fs []c10Field, v c10Val) (n int) {
	for i := range fs {
		w := v.L[i]
		if w.any {
			n++
			continue
		}
		if isStruct(&fs[i]) {
			if fs[i].isRepeat() {
				for _, e := range w.L {
					n += nilsIn(fs[i].Fields, e)
				}
			} else if !w.Nil {
				n += nilsIn(fs[i].Fields, w)
			}
		} else if fs[i].Wrap == "ptr" && w.Nil && !fs[i].Omit {
			n++
		}
	}
	return
}

func genC10Value(r *core.Rand, p *c10Plan, f *c10Field) c10Val {
	switch f.Wrap {
	case "ptr":
		if r.Chance(1, 4) {
			return c10Val{Nil: true}
		}
	case "slice":
		var v c10Val
		seen := map[string]bool{}
		n, dup := r.Small(5), 3
		if r.Chance(1, 40) {
			n, dup = r.PickInt(9, 16, 17, 18, 33, 40), 1
		}
		for ; n > 0; n-- {
			e := genC10Elem(r, p, f)
			if seen[string(e.S)] && r.Chance(dup, 4) {
				continue
			}
			seen[string(e.S)] = true
			if try := (c10Val{L: append(append([]c10Val{}, v.L...), e)}); p.valueOK(f, try) {
				v = try
			}
		}
		v.Nil = len(v.L) == 0 && r.Bool()
		return v
	case "repeat", "repeatptr":
		var v c10Val
		n := r.Range(0, 3)
		if r.Chance(1, 50) {
			n = r.Range(4, 12)
		}
		for ; n > 0; n-- {
			v.L = append(v.L, genC10Fields(r, p, f.Fields))
		}
		return v
	}
	for i := 0; i < 8; i++ {
		if v := genC10Elem(r, p, f); p.elemOK(f, v) {
			return v
		}
	}
	return c10Val{}
}

func genC10Fields(r *core.Rand, p *c10Plan, fs []c10Field) c10Val {
	v := c10Val{}
	for i := range fs {
		v.L = append(v.L, genC10Value(r, p, &fs[i]))
	}
	return v
}

func genC10Elem(r *core.Rand, p *c10Plan, f *c10Field) c10Val {
	if isStruct(f) {
		return genC10Fields(r, p, f.Fields)
	}
	n := r.PickInt(0, 0, 1, -1, 2, 7, 42, 127, -128, 300, 65535, 99999999)
	switch f.Kind {
	case "string", "nstring":
		if f.Wrap == "slice" && r.Chance(1, 2) {
			return c10Val{S: core.Bin(ref.Word(r, 6))}
		}
		return c10Val{S: core.Bin(wildValue(r))}
	case "bool", "nbool":
		return c10Val{S: core.Bin(r.Pick("true", "false"))}
	case "float32", "float64", "nfloat":
		return c10Val{S: core.Bin(r.Pick("0", "-0", "1", "-1.5", "0.1", "3.141592653589793", "1e300", "1e-300", "1.7976931348623157e308", "5e-324", "+Inf", "-Inf", "NaN", "16777216", "3.4e38", "1e21", "123456789"))}
	case "time":
		return c10Val{S: core.Bin(r.Pick("", "0 0 0", "1000000000 0 0", "1000000000 999999999 120", "-1 500000000 -330", "1767225599 1 0", "253370764800 0 840", "-62135596800 5 0", fmt.Sprintf("%d 0 %d", r.Intn(2000000000), r.Intn(1400)-700)))}
	case "uint", "uint16", "uint32", "uint64":
		if f.Kind == "uint64" && r.Chance(1, 5) {
			return c10Val{S: "18446744073709551615"}
		}
		if n < 0 || n > 65535 {
			n = 65535
		}
		return c10Val{S: core.Bin(strconv.Itoa(n))}
	case "int8":
		return c10Val{S: core.Bin(strconv.Itoa(int(int8(n))))}
	case "int16":
		return c10Val{S: core.Bin(strconv.Itoa(int(int16(n))))}
	case "int64", "dur", "ndur", "int":
		if r.Chance(1, 4) {
			return c10Val{S: core.Bin(r.Pick("9223372036854775807", "-9223372036854775808", "1000000000", "90000000000", "-5000000"))}
		}
	}
	return c10Val{S: core.Bin(strconv.Itoa(n))}
}

func (p *c10Plan) genFields(r *core.Rand, depth int, flat bool, names, secs []string) []c10Field {
	var l []c10Field
	for n := 1 + r.Small(6); n > 0; n-- {
		f := c10Field{Name: names[r.Intn(len(names))]}
		if r.Chance(1, 12) {
			f.Comment = r.Pick("note", "# note", "; a note", "about")
		}
		if r.Chance(1, 4) && depth < 2 {
			f.Kind = "struct"
			f.Wrap = r.Pick("", "", "ptr", "embed", "embedptr")
			if p.Opts.NonUnique && r.Chance(1, 2) {
				f.Wrap = r.Pick("repeat", "repeatptr")
			}
			if flat {
				f.Wrap = r.Pick("embed", "embedptr")
			}
			f.Extends = f.isEmbed() && (flat || r.Bool())
			if !f.Extends && r.Chance(2, 3) {
				f.Tag = core.Bin(secs[r.Intn(len(secs))])
			}
			f.Omit = f.Wrap == "ptr" && r.Chance(1, 3)
			f.Fields = p.genFields(r, depth+1, flat || f.isRepeat(), names, secs)
		} else {
			if r.Chance(1, 3) {
				f.Tag = core.Bin(c09Key(r, p.Opts))
			}
			f.Wrap = r.Pick("", "", "", "ptr", "slice")
			f.Kind = c10Scalars[r.Intn(len(c10Scalars))]
			if f.Wrap == "slice" {
				f.Kind = c10Elems[r.Intn(len(c10Elems))]
				f.Delim = c10Delims[r.Intn(len(c10Delims))]
				f.Shadow = r.Chance(1, 3)
			}
			f.Omit = r.Chance(1, 4)
		}
		l = append(l, f)
	}
	return l
}

// prune drops fields that collide with earlier ones.
func (p *c10Plan) prune() bool {
	for i := 0; i < 60; i++ {
		if p.layout() != nil {
			return len(p.Fields) > 0
		}
		var try func(fs []c10Field) ([]c10Field, bool)
		try = func(fs []c10Field) ([]c10Field, bool) {
			for i := range fs {
				l := &c10Layout{p: p, keys: map[string]bool{}, names: map[string]bool{}, secs: map[string]bool{}}
				if !l.fields("x", fs[:i+1], 0, false) {
					if len(fs[i].Fields) > 1 {
						fs[i].Fields = fs[i].Fields[:len(fs[i].Fields)-1]
						return fs, true
					}
					return append(append([]c10Field{}, fs[:i]...), fs[i+1:]...), true
				}
			}
			return fs, false
		}
		fs, cut := try(p.Fields)
		if !cut {
			fs = fs[:len(fs)-1]
		}
		if p.Fields = fs; len(fs) == 0 {
			return false
		}
	}
	return false
}

func genC10(r *core.Rand, tier string) core.Plan {
	p := &c10Plan{Opts: ref.GenOpts(r), Pretty: genPretty(r), NoLock: r.Chance(1, 6)}
	p.Opts.Loose, p.Opts.ShortCircuit = false, false
	if r.Chance(1, 3) {
		p.Opts = ref.Opts{}
	}
	if r.Chance(1, 3) {
		p.Opts.NonUnique = true
	}
	c := c09Plan{Opts: p.Opts, Pretty: p.Pretty}
	c.fit()
	p.Opts, p.Pretty = c.Opts, c.Pretty
	p.Mapper = r.Pick("", "", "snack", "title", "lower")
	p.Root = r.Pick("", "", "", "s1", "Root", "s1.sub")
	p.Slice = p.Opts.NonUnique && p.Root != "" && r.Chance(1, 2)
	for {
		names, secs := c10Names, c10Secs
		if r.Chance(1, 2) {
			// Few names, so that parents and children share them.
			i := r.Intn(len(names) - 4)
			names = names[i : i+4]
			secs = []string{"s1", "s1.sub", "s1.sub.deep", "s1.t"}
		}
		p.Fields = p.genFields(r, 0, p.Slice, names, secs)
		if p.prune() {
			break
		}
	}
	p.Stale = r.Chance(1, 4) && !p.Slice && !hasRepeat(p.Fields)
	for n := r.Range(1, 4); n > 0; n-- {
		d := c10Round{API: r.Pick("file", "package", "mapper", "section"), Plain: r.Bool(), Target: r.Intn(2), Restart: r.Chance(2, 3), Strict: r.Bool()}
		if p.Root != "" {
			d.API = "section"
		}
		if !d.Plain && !p.Opts.Nested && !p.Opts.Python {
			d.Indent = r.Pick("", "  ", "\t")
		}
		if p.Slice {
			m := r.Range(1, 3)
			if r.Chance(1, 30) {
				m = r.PickInt(4, 8, 9, 10, 11, 16, 17, 18, 33)
			}
			for ; m > 0; m-- {
				d.Val.L = append(d.Val.L, genC10Fields(r, p, p.Fields))
			}
		} else {
			d.Val = genC10Fields(r, p, p.Fields)
		}
		switch r.Intn(6) {
		case 0:
			d.Faults = append(d.Faults, genSaveFault(r, 200))
		case 1:
			d.Faults = append(d.Faults, simos.Fault{Op: "any", Nth: 1 + r.Small(7), Kind: r.Pick("crash", "crash", "crash-after"), N: r.Intn(200)})
		}
		if d.API == "package" {
			q := *p
			if q.Mapper = ""; q.layout() == nil {
				d.API = "file"
			}
		}
		p.Rounds = append(p.Rounds, d)
	}
	return p
}

// hasRepeat: repeated sections pile up when they are reflected twice.
func hasRepeat(fs []c10Field) bool {
	for i := range fs {
		if fs[i].isRepeat() || hasRepeat(fs[i].Fields) {
			return true
		}
	}
	return false
}

func runC10(pl core.Plan, t *core.T) *core.Violation {
	p := pl.(*c10Plan)
	o := p.Opts
	check := c09Plan{Opts: o, Pretty: p.Pretty}
	lay := p.layout()
	if !check.optsOK() || lay == nil || len(p.Fields) == 0 || p.Stale && (p.Slice || hasRepeat(p.Fields)) {
		return t.Discard()
	}
	for _, d := range p.Rounds {
		if d.Target < 0 || d.Target > 1 || !validKernelFaults(d.Faults) || strings.Trim(d.Indent, " \t") != "" || d.Plain && d.Indent != "" || d.Indent != "" && (o.Nested || o.Python) || p.Root != "" && d.API != "section" {
			return t.Discard()
		}
		if d.API == "package" && p.Mapper != "" && p.Root == "" {
			// ReflectFrom takes the mapper away; the names are others then.
			q := *p
			q.Mapper = ""
			if q.layout() == nil {
				return t.Discard()
			}
		}
		if p.Slice {
			if len(d.Val.L) == 0 {
				return t.Discard()
			}
			for _, e := range d.Val.L {
				if !p.fieldsOK(p.Fields, e) {
					return t.Discard()
				}
			}
		} else if !p.fieldsOK(p.Fields, d.Val) {
			return t.Discard()
		}
	}
	inherits := lay.inherits()
	repeats := hasRepeat(p.Fields)
	defer p.Pretty.set()()
	k := simos.New()
	typ := c10Struct(p.Fields)
	var f *ini.File
	var err error
	var inFile *c10Val // what the File in memory stands for
	var usedMapper string
	load := func(args ...interface{}) *core.Violation {
		if v := t.Seq(func() {
			if f, err = loadAll(o, args); err == nil {
				f.BlockMode = !p.NoLock
				f.NameMapper = mapperOf(p.Mapper)
			}
		}); v != nil {
			return v
		}
		if err != nil {
			return core.V("load", "%v", err)
		}
		return nil
	}
	type slot struct {
		ok     bool
		want   c10Val
		bytes  string
		mapper string
	}
	var disk [2]slot
	last := -1
	compared := 0
	fresh := func() *core.Violation {
		inFile, usedMapper = nil, p.Mapper
		if v := load([]byte(nil)); v != nil {
			return v
		}
		if !p.Stale {
			return nil
		}
		return t.Seq(func() {
			for _, ks := range sortedNames(lay.keys) {
				i := strings.IndexByte(ks, 0)
				_, _ = f.Section(ks[:i]).NewKey(ks[i+1:], "stale")
			}
		})
	}
	if v := fresh(); v != nil {
		return v
	}
	for i, d := range p.Rounds {
		mapper := p.Mapper
		if d.API == "package" && p.Root == "" {
			mapper = ""
		}
		if mapper != usedMapper || repeats || inherits {
			if v := fresh(); v != nil {
				return v
			}
		}
		usedMapper = mapper
		var want c10Val
		var obj reflect.Value
		if p.Slice {
			obj = reflect.MakeSlice(reflect.SliceOf(reflect.PtrTo(typ)), len(d.Val.L), len(d.Val.L))
			for j, e := range d.Val.L {
				x := reflect.New(typ)
				setFields(p.Fields, e, x.Elem())
				obj.Index(j).Set(x)
				want.L = append(want.L, p.expect(p.Fields, nil, e))
			}
		} else {
			obj = reflect.New(typ)
			setFields(p.Fields, d.Val, obj.Elem())
			prev := inFile
			if p.Root != "" && o.NonUnique {
				prev = c10SkipSelf(p.Fields, prev) // the section is made anew
			}
			want = p.expect(p.Fields, prev, d.Val)
		}
		if v := t.Seq(func() {
			switch {
			case p.Slice:
				err = f.Section(p.Root).ReflectFrom(obj.Interface())
			case d.API == "section":
				err = f.Section(p.Root).ReflectFrom(obj.Interface())
			case d.API == "package":
				err = ini.ReflectFrom(f, obj.Interface())
			case d.API == "mapper":
				err = ini.ReflectFromWithMapper(f, obj.Interface(), mapperOf(p.Mapper))
			default:
				err = f.ReflectFrom(obj.Interface())
			}
		}); v != nil {
			v.Msg = "while reflecting: " + v.Msg
			return v
		}
		if err != nil {
			return core.V("reflect", "round %d: %v", i+1, err)
		}
		inFile = &want
		path := fmt.Sprintf("/simfs/conf%d.ini", d.Target)
		not := ""
		if v := t.Seq(func() { not = check.comparable(f) }); v != nil {
			return v
		}
		k.SetFaults(d.Faults)
		died, v := crashable(t, func() {
			if d.Plain {
				err = f.SaveTo(path)
			} else {
				err = f.SaveToIndent(path, d.Indent)
			}
		})
		if v != nil {
			return v
		}
		k.SetFaults(nil)
		if died || err != nil {
			disk[d.Target] = slot{}
			if last == d.Target {
				last = -1
				if disk[1-d.Target].ok {
					last = 1 - d.Target
				}
			}
			t.Probe(map[bool]string{true: "crash", false: "failed-save"}[died])
		} else {
			b, _ := k.Get(path)
			disk[d.Target] = slot{not == "", want, string(b), mapper}
			last = d.Target
			if not != "" {
				t.Probe("outside: " + not)
			}
		}
		if !died && !d.Restart {
			continue
		}
		k.Restart()
		if last < 0 || !disk[last].ok {
			if v := fresh(); v != nil {
				return v
			}
			continue
		}
		was := disk[last]
		path = fmt.Sprintf("/simfs/conf%d.ini", last)
		bad := func(class, format string, a ...interface{}) *core.Violation {
			return core.V(class, "restart after round %d: %s; the file holds %q", i+1, fmt.Sprintf(format, a...), clip(was.bytes, 500))
		}
		if v := load(path); v != nil {
			return bad(v.Class, "%s", v.Msg)
		}
		if inherits {
			t.Probe("outside: inherits")
			continue
		}
		var got reflect.Value
		nils := 0
		if p.Slice {
			got = reflect.New(reflect.SliceOf(typ))
			if d.Plain {
				got = reflect.New(reflect.SliceOf(reflect.PtrTo(typ)))
			}
			for _, e := range was.want.L {
				nils += nilsIn(p.Fields, e)
			}
		} else {
			got = reflect.New(typ)
			nils = nilsIn(p.Fields, was.want)
		}
		empties := !p.Slice && hasEmptyRepeat(p.Fields, was.want)
		strict := d.Strict && nils == 0
		dst := got.Interface()
		m := mapperOf(was.mapper)
		if v := t.Seq(func() {
			f.NameMapper = m
			plain := equalOpts(o, ref.Opts{})
			switch {
			case p.Root != "" && strict:
				err = f.Section(p.Root).StrictMapTo(dst)
			case p.Root != "":
				err = f.Section(p.Root).MapTo(dst)
			case plain && d.API == "package" && was.mapper == "" && strict:
				err = ini.StrictMapTo(dst, path)
			case plain && d.API == "package" && was.mapper == "":
				err = ini.MapTo(dst, path)
			case plain && d.API == "mapper" && strict:
				err = ini.StrictMapToWithMapper(dst, m, path)
			case plain && d.API == "mapper":
				err = ini.MapToWithMapper(dst, m, path)
			case strict:
				err = f.StrictMapTo(dst)
			default:
				err = f.MapTo(dst)
			}
		}); v != nil {
			return bad(v.Class, "while mapping: %s", v.Msg)
		}
		if empties {
			// Mapping fails without the section, but nothing else may be missing.
			t.Probe("no repeated section")
			q := c10Plan{Opts: o, Mapper: was.mapper}
			l := &c10Layout{p: &q}
			for j := range p.Fields {
				if fd := &p.Fields[j]; !isStruct(fd) && !fd.Omit && !f.Section(p.Root).HasKey(l.name(fd)) {
					return bad("struct", "nothing was written for .%s", fd.Name)
				}
			}
			continue
		}
		if err != nil {
			return bad("map", "mapping (strict %v): %v", strict, err)
		}
		compared++
		if p.Slice {
			l := got.Elem()
			if l.Len() != len(was.want.L) {
				return bad("struct", "%d structs came back as %d", len(was.want.L), l.Len())
			}
			for j, e := range was.want.L {
				x := l.Index(j)
				if x.Kind() == reflect.Ptr {
					x = x.Elem()
				}
				if diff := compareFields(fmt.Sprintf("[%d]", j), p.Fields, e, x); diff != "" {
					return bad("struct", "%s", diff)
				}
			}
			t.Probe("repeated-root")
		} else if diff := compareFields("", p.Fields, was.want, got.Elem()); diff != "" {
			return bad("struct", "%s", diff)
		}
		inFile, usedMapper = &was.want, was.mapper
		if strict {
			t.Probe("strict")
		}
		if repeats {
			t.Probe("repeated")
		}
	}
	countFaults(t, k)
	t.Trivial = compared == 0
	if compared > 0 {
		t.Probe("compared")
	}
	return nil
}

// c10SkipSelf forgets what was in the outermost section but not in others.
func c10SkipSelf(fs []c10Field, prev *c10Val) *c10Val {
	if prev == nil {
		return nil
	}
	out := c10Val{L: make([]c10Val, len(fs))}
	for i := range fs {
		switch {
		case isStruct(&fs[i]) && fs[i].Extends:
			var sub *c10Val
			if !prev.L[i].Nil {
				sub = &prev.L[i]
			}
			if sub = c10SkipSelf(fs[i].Fields, sub); sub != nil {
				out.L[i] = *sub
			}
		case isStruct(&fs[i]):
			out.L[i] = prev.L[i]
		default:
			out.L[i] = fs[i].zero()
		}
	}
	return &out
}

func hasEmptyRepeat(fs []c10Field, v c10Val) bool {
	for i := range fs {
		w := v.L[i]
		if !isStruct(&fs[i]) || w.Nil || w.any {
			continue
		}
		if fs[i].isRepeat() {
			if len(w.L) == 0 {
				return true
			}
		} else if hasEmptyRepeat(fs[i].Fields, w) {
			return true
		}
	}
	return false
}

func sortedNames(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	register(&core.Property{
		ID: "C10", Gen: genC10, New: func() core.Plan { return &c10Plan{} }, Run: runC10,
		Quick: 150000, Thorough: 1500000,
		Rule:   "one case is a random struct type (fields of every supported kind, pointers, lists, nested, embedded and repeated structs, tags), load options, and up to four values that are reflected and saved by processes that may die or whose saves may fail; each restart maps the last acknowledged save into a zero struct; non-trivial if at least one struct was compared; distinct by plan",
		Real:   "all of go-ini/ini, os and io on top of the simulated kernel",
		Stub:   "the kernel: files, descriptors, process death",
		Probes: []string{"compared", "crash", "failed-save", "strict", "repeated", "repeated-root"},
	})
}
