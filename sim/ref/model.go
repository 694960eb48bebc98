package ref

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-ini/ini"
)

// File is the reference model of an ini.File: an ordered collection of sections.
type File struct {
	Opts Opts
	Secs []*Sec

	OnSet func(sec, key, val string) // told of each definition of a key
}

// Sec is a section of the model.
type Sec struct {
	F       *File
	Name    string
	Comment string
	IsRaw   bool
	Body    string
	Keys    []*Key
}

// Key is a key of the model.
type Key struct {
	S       *Sec
	Name    string
	Value   string
	Shadows []string
	Nested  []string
	Comment string
	Auto    bool
	Bool    bool
}

// NewFile returns the model of ini.Empty.
func NewFile(o Opts) *File {
	f := &File{Opts: o}
	f.NewSection("DEFAULT")
	return f
}

// FoldSec maps a section name to the form it is stored in.
func (o Opts) FoldSec(n string) string {
	if o.Insensitive || o.InsensSections {
		return strings.ToLower(n)
	}
	return n
}

// FoldKey maps a key name to the form it is stored in.
func (o Opts) FoldKey(n string) string {
	if o.Insensitive || o.InsensKeys {
		return strings.ToLower(n)
	}
	return n
}

// All returns all sections with the given name.
func (f *File) All(name string) []*Sec {
	if name == "" {
		name = "DEFAULT"
	}
	name = f.Opts.FoldSec(name)
	var l []*Sec
	for _, s := range f.Secs {
		if s.Name == name {
			l = append(l, s)
		}
	}
	return l
}

// Get returns the first section with the given name, or nil.
func (f *File) Get(name string) *Sec {
	if l := f.All(name); len(l) > 0 {
		return l[0]
	}
	return nil
}

// NewSection creates a section; an existing one is returned when names are unique.
func (f *File) NewSection(name string) *Sec {
	if name == "" {
		return nil
	}
	name = f.Opts.FoldSec(name)
	if !f.Opts.NonUnique {
		if s := f.Get(name); s != nil {
			return s
		}
	}
	s := &Sec{F: f, Name: name}
	f.Secs = append(f.Secs, s)
	return s
}

// Section gets or creates a section.
func (f *File) Section(name string) *Sec {
	if name == "" {
		name = "DEFAULT"
	}
	if s := f.Get(name); s != nil {
		return s
	}
	return f.NewSection(name)
}

// Delete removes all sections with the given name.
func (f *File) Delete(name string) {
	for _, s := range f.All(name) {
		f.Drop(s)
	}
}

// Drop removes one section.
func (f *File) Drop(s *Sec) {
	for i, x := range f.Secs {
		if x == s {
			f.Secs = append(append([]*Sec{}, f.Secs[:i]...), f.Secs[i+1:]...)
			return
		}
	}
}

// DeleteIndex removes the section with the given name and index.
func (f *File) DeleteIndex(name string, i int) {
	if l := f.All(name); i < len(l) {
		f.Drop(l[i])
	}
}

// Names lists the section names.
func (f *File) Names() []string {
	l := make([]string, len(f.Secs))
	for i, s := range f.Secs {
		l[i] = s.Name
	}
	return l
}

// Children lists the sections whose names have the given one as their parent.
func (s *Sec) Children() []*Sec {
	var l []*Sec
	for _, x := range s.F.Secs {
		if strings.HasPrefix(x.Name, s.Name+s.F.Opts.Child()) {
			l = append(l, x)
		}
	}
	return l
}

// Own returns a key of the section itself.
func (s *Sec) Own(name string) *Key {
	name = s.F.Opts.FoldKey(name)
	for _, k := range s.Keys {
		if k.Name == name {
			return k
		}
	}
	return nil
}

// parent returns the closest existing ancestor section.
func (s *Sec) parents() []*Sec {
	var l []*Sec
	n := s.Name
	for {
		i := strings.LastIndex(n, s.F.Opts.Child())
		if i < 0 {
			return l
		}
		n = n[:i]
		if p := s.F.Get(n); p != nil {
			l = append(l, p)
		}
	}
}

// Lookup returns a key of the section or else of its closest ancestor having it.
func (s *Sec) Lookup(name string) *Key {
	if k := s.Own(name); k != nil {
		return k
	}
	for _, p := range s.parents() {
		if k := p.Own(name); k != nil {
			return k
		}
	}
	return nil
}

// ParentKeys lists the keys of all ancestors.
func (s *Sec) ParentKeys() []*Key {
	var l []*Key
	for _, p := range s.parents() {
		l = append(l, p.Keys...)
	}
	return l
}

// NewKey creates or redefines a key. It returns nil if that is not possible.
func (s *Sec) NewKey(name, val string) *Key {
	if name == "" {
		return nil
	}
	if s.F.OnSet != nil {
		s.F.OnSet(s.Name, s.F.Opts.FoldKey(name), val)
	}
	if k := s.Own(name); k != nil {
		if s.F.Opts.Shadows {
			if !k.AddShadow(val) {
				return nil
			}
		} else {
			k.Value = val
		}
		return k
	}
	k := &Key{S: s, Name: s.F.Opts.FoldKey(name), Value: val}
	s.Keys = append(s.Keys, k)
	return k
}

// Key gets or creates a key.
func (s *Sec) Key(name string) *Key {
	if k := s.Lookup(name); k != nil {
		return k
	}
	return s.NewKey(name, "")
}

// DeleteKey removes a key.
func (s *Sec) DeleteKey(name string) {
	name = s.F.Opts.FoldKey(name)
	for i, k := range s.Keys {
		if k.Name == name {
			s.Keys = append(append([]*Key{}, s.Keys[:i]...), s.Keys[i+1:]...)
			return
		}
	}
}

// KeyNames lists the names of the keys.
func (s *Sec) KeyNames() []string {
	l := make([]string, len(s.Keys))
	for i, k := range s.Keys {
		l[i] = k.Name
	}
	return l
}

// Hash returns names and values.
func (s *Sec) Hash() map[string]string {
	m := map[string]string{}
	for _, k := range s.Keys {
		m[k.Name] = k.Value
	}
	return m
}

// HasValue tells whether some key has the value.
func (s *Sec) HasValue(v string) bool {
	for _, k := range s.Keys {
		if k.Value == v {
			return true
		}
	}
	return false
}

// AddShadow adds a shadow value; false if the key cannot have any.
func (k *Key) AddShadow(val string) bool {
	if k.Auto || k.Bool {
		return false
	}
	if !k.S.F.Opts.DuplicateShadows {
		if k.Value == val {
			return true
		}
		for _, s := range k.Shadows {
			if s == val {
				return true
			}
		}
	}
	k.Shadows = append(k.Shadows, val)
	return true
}

// WithShadows returns all non-empty values.
func (k *Key) WithShadows() []string {
	l := []string{}
	if k.Value != "" {
		l = append(l, k.Value)
	}
	for _, s := range k.Shadows {
		if s != "" {
			l = append(l, s)
		}
	}
	return l
}

// Clone copies the model.
func (f *File) Clone() *File {
	c := &File{Opts: f.Opts}
	for _, s := range f.Secs {
		n := *s
		n.F = c
		n.Keys = nil
		for _, k := range s.Keys {
			kk := *k
			kk.S = &n
			kk.Shadows = append([]string{}, k.Shadows...)
			kk.Nested = append([]string{}, k.Nested...)
			n.Keys = append(n.Keys, &kk)
		}
		c.Secs = append(c.Secs, &n)
	}
	return c
}

func line(b *strings.Builder, name, value string, shadows, nested []string, comment string) {
	fmt.Fprintf(b, "  %q=%q", name, value)
	if len(shadows) > 1 || len(shadows) == 1 && shadows[0] != value {
		fmt.Fprintf(b, " all=%q", shadows)
	}
	if len(nested) > 0 {
		fmt.Fprintf(b, " nested=%q", nested)
	}
	if comment != "" {
		fmt.Fprintf(b, " comment=%q", comment)
	}
	b.WriteByte('\n')
}

// Dump writes the model's content, one line per section and key.
func (f *File) Dump() string {
	var b strings.Builder
	for _, s := range f.Secs {
		fmt.Fprintf(&b, "[%q]", s.Name)
		if s.Comment != "" {
			fmt.Fprintf(&b, " comment=%q", s.Comment)
		}
		if body := strings.TrimSpace(s.Body); body != "" {
			fmt.Fprintf(&b, " body=%q", body)
		}
		b.WriteByte('\n')
		for _, k := range s.Keys {
			line(&b, k.Name, k.Value, k.WithShadows(), k.Nested, k.Comment)
		}
	}
	return b.String()
}

// DumpReal writes a File's content in the same form, through its public accessors.
func DumpReal(f *ini.File) string { return dumpReal(f, true) }

// DumpRealPlain leaves out raw bodies and nested values.
func DumpRealPlain(f *ini.File) string { return dumpReal(f, false) }

// DumpPlain leaves out raw bodies and nested values.
func (f *File) DumpPlain() string {
	c := f.Clone()
	for _, s := range c.Secs {
		s.Body = ""
		for _, k := range s.Keys {
			k.Nested = nil
		}
	}
	return c.Dump()
}

func dumpReal(f *ini.File, full bool) string {
	var b strings.Builder
	for _, s := range f.Sections() {
		fmt.Fprintf(&b, "[%q]", s.Name())
		if s.Comment != "" {
			fmt.Fprintf(&b, " comment=%q", s.Comment)
		}
		if body := s.Body(); body != "" && full {
			fmt.Fprintf(&b, " body=%q", body)
		}
		b.WriteByte('\n')
		for _, k := range s.Keys() {
			nested := k.NestedValues()
			if !full {
				nested = nil
			}
			line(&b, k.Name(), k.Value(), k.ValueWithShadows(), nested, k.Comment)
		}
		// The other views of a section say the same, or are mentioned here.
		hash := s.KeysHash()
		names := s.KeyStrings()
		for i, k := range s.Keys() {
			v, ok := hash[k.Name()]
			if !ok || v != k.Value() {
				fmt.Fprintf(&b, "  key hash has %q=%q (%v)\n", k.Name(), v, ok)
			}
			if i >= len(names) || names[i] != k.Name() {
				fmt.Fprintf(&b, "  key list %q lacks %q\n", names, k.Name())
			}
			if found, err := s.GetKey(k.Name()); err != nil || found != k {
				fmt.Fprintf(&b, "  lookup of %q finds another key or none\n", k.Name())
			}
		}
		if len(hash) != len(names) || len(names) != len(s.Keys()) {
			fmt.Fprintf(&b, "  key hash %s, key list %q\n", HashString(hash), names)
		}
	}
	return b.String()
}

// Diff describes the first difference between two dumps ("" if none).
func Diff(want, got string) string {
	if want == got {
		return ""
	}
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; ; i++ {
		a, b := "(end)", "(end)"
		if i < len(w) && (i < len(w)-1 || w[i] != "") {
			a = w[i]
		}
		if i < len(g) && (i < len(g)-1 || g[i] != "") {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d: want %s, got %s", i+1, clip(a), clip(b))
		}
		if i > len(w) && i > len(g) {
			return "dumps differ"
		}
	}
}

func clip(s string) string {
	if len(s) > 240 {
		return s[:160] + "..." + s[len(s)-60:]
	}
	return s
}

// HashString writes a key hash in a fixed order.
func HashString(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
