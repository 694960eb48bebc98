package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"inisim/ref"
)

func show(a ...interface{}) string { return fmt.Sprintf("%#v", a) }

func showErr(v interface{}, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("%#v", v)
}

var someTimes = []time.Time{time.Unix(1000000000, 0).UTC(), time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)}

// Candidates, which several clients share. They are in no order.
var (
	someInts   = []int{7, 1, 3, 2}
	someInt64s = []int64{7, 1, 3, 2}
	someUints  = []uint{7, 1, 3, 2}
	someFloats = []float64{2, 1.5, 7, 1}
	someWords  = []string{"v1", "7", "a", "7"}
	lateTimes  = []time.Time{someTimes[1], someTimes[0]}
)

// keyReads are all ways to read a key that leave it as it is.
var keyReads = []func(k *ini.Key, d string) string{
	func(k *ini.Key, d string) string { return k.Name() },
	func(k *ini.Key, d string) string { return k.Value() },
	func(k *ini.Key, d string) string { return k.String() },
	func(k *ini.Key, d string) string { return show(k.ValueWithShadows()) },
	func(k *ini.Key, d string) string { return show(k.NestedValues()) },
	func(k *ini.Key, d string) string { return k.Validate(strings.ToUpper) },
	func(k *ini.Key, d string) string { return showErr(k.Bool()) },
	func(k *ini.Key, d string) string { return showErr(k.Int()) },
	func(k *ini.Key, d string) string { return showErr(k.Int64()) },
	func(k *ini.Key, d string) string { return showErr(k.Uint()) },
	func(k *ini.Key, d string) string { return showErr(k.Uint64()) },
	func(k *ini.Key, d string) string { return showErr(k.Float64()) },
	func(k *ini.Key, d string) string { return showErr(k.Duration()) },
	func(k *ini.Key, d string) string { t, err := k.Time(); return showErr(t.String(), err) },
	func(k *ini.Key, d string) string { t, err := k.TimeFormat("2006"); return showErr(t.String(), err) },
	func(k *ini.Key, d string) string {
		return show(k.MustBool(), k.MustInt(), k.MustInt64(), k.MustUint(), k.MustUint64(), k.MustFloat64())
	},
	func(k *ini.Key, d string) string {
		return show(k.MustDuration(), k.MustTime().String(), k.MustTimeFormat("15:04").String())
	},
	func(k *ini.Key, d string) string { return k.In("none", someWords) },
	func(k *ini.Key, d string) string {
		return show(k.InInt(1, someInts), k.InInt64(1, someInt64s), k.InUint(1, someUints), k.InUint64(1, []uint64{1, 7}))
	},
	func(k *ini.Key, d string) string {
		return show(k.InFloat64(1, someFloats), k.InTime(someTimes[0], lateTimes).String(), k.InTimeFormat("2006", someTimes[0], lateTimes).String())
	},
	func(k *ini.Key, d string) string {
		return show(k.RangeInt(1, 0, 10), k.RangeInt64(1, 0, 10), k.RangeFloat64(1, 0, 10), k.RangeTime(someTimes[0], someTimes[0], someTimes[1]).String())
	},
	func(k *ini.Key, d string) string { return show(k.Strings(d)) },
	func(k *ini.Key, d string) string { return show(k.StringsWithShadows(d)) },
	func(k *ini.Key, d string) string {
		return show(k.Ints(d), k.Int64s(d), k.Uints(d), k.Uint64s(d), k.Float64s(d), k.Bools(d))
	},
	func(k *ini.Key, d string) string { return fmt.Sprint(k.Times(d), k.ValidTimes(d)) },
	func(k *ini.Key, d string) string {
		return show(k.ValidInts(d), k.ValidInt64s(d), k.ValidUints(d), k.ValidUint64s(d), k.ValidFloat64s(d), k.ValidBools(d))
	},
	func(k *ini.Key, d string) string { return showErr(k.StrictInts(d)) + showErr(k.StrictInt64s(d)) },
	func(k *ini.Key, d string) string { return showErr(k.StrictUints(d)) + showErr(k.StrictUint64s(d)) },
	func(k *ini.Key, d string) string {
		t, err := k.StrictTimes(d)
		return showErr(k.StrictFloat64s(d)) + showErr(k.StrictBools(d)) + fmt.Sprint(t, err)
	},

	// Some of them by themselves.
	func(k *ini.Key, d string) string { return show(k.MustBool()) },
	func(k *ini.Key, d string) string { return show(k.MustInt()) },
	func(k *ini.Key, d string) string { return show(k.MustInt64()) },
	func(k *ini.Key, d string) string { return show(k.MustUint()) },
	func(k *ini.Key, d string) string { return show(k.MustUint64()) },
	func(k *ini.Key, d string) string { return show(k.MustFloat64()) },
	func(k *ini.Key, d string) string { return show(k.MustDuration()) },
	func(k *ini.Key, d string) string { return k.MustTime().String() },
	func(k *ini.Key, d string) string { return k.MustTimeFormat("2006").String() },
	func(k *ini.Key, d string) string { return show(k.InInt(1, someInts)) },
	func(k *ini.Key, d string) string { return show(k.InInt64(1, someInt64s)) },
	func(k *ini.Key, d string) string { return show(k.InUint(1, someUints)) },
	func(k *ini.Key, d string) string { return show(k.InUint64(1, []uint64{1, 7})) },
	func(k *ini.Key, d string) string { return show(k.InFloat64(1, someFloats)) },
	func(k *ini.Key, d string) string { return k.InTime(someTimes[0], lateTimes).String() },
	func(k *ini.Key, d string) string { return k.InTimeFormat("2006", someTimes[0], lateTimes).String() },
	func(k *ini.Key, d string) string { return show(k.RangeInt(1, 0, 10)) },
	func(k *ini.Key, d string) string { return show(k.RangeInt64(1, 0, 10)) },
	func(k *ini.Key, d string) string { return show(k.RangeFloat64(1, 0, 10)) },
	func(k *ini.Key, d string) string {
		return k.RangeTime(someTimes[0], someTimes[0], someTimes[1]).String()
	},
	func(k *ini.Key, d string) string {
		return k.RangeTimeFormat("2006", someTimes[0], someTimes[0], someTimes[1]).String()
	},
	func(k *ini.Key, d string) string { return show(k.Ints(d)) },
	func(k *ini.Key, d string) string { return show(k.Int64s(d)) },
	func(k *ini.Key, d string) string { return show(k.Uints(d)) },
	func(k *ini.Key, d string) string { return show(k.Uint64s(d)) },
	func(k *ini.Key, d string) string { return show(k.Float64s(d)) },
	func(k *ini.Key, d string) string { return show(k.Bools(d)) },
	func(k *ini.Key, d string) string { return fmt.Sprint(k.Times(d)) },
	func(k *ini.Key, d string) string { return fmt.Sprint(k.TimesFormat("2006", d)) },
	func(k *ini.Key, d string) string { return show(k.ValidInts(d)) },
	func(k *ini.Key, d string) string { return show(k.ValidInt64s(d)) },
	func(k *ini.Key, d string) string { return show(k.ValidUints(d)) },
	func(k *ini.Key, d string) string { return show(k.ValidUint64s(d)) },
	func(k *ini.Key, d string) string { return show(k.ValidFloat64s(d)) },
	func(k *ini.Key, d string) string { return show(k.ValidBools(d)) },
	func(k *ini.Key, d string) string { return fmt.Sprint(k.ValidTimes(d)) },
	func(k *ini.Key, d string) string { return fmt.Sprint(k.ValidTimesFormat("2006", d)) },
	func(k *ini.Key, d string) string { return showErr(k.StrictInts(d)) },
	func(k *ini.Key, d string) string { return showErr(k.StrictInt64s(d)) },
	func(k *ini.Key, d string) string { return showErr(k.StrictUints(d)) },
	func(k *ini.Key, d string) string { return showErr(k.StrictUint64s(d)) },
	func(k *ini.Key, d string) string { return showErr(k.StrictFloat64s(d)) },
	func(k *ini.Key, d string) string { return showErr(k.StrictBools(d)) },
	func(k *ini.Key, d string) string { t, err := k.StrictTimes(d); return fmt.Sprint(t, err) },
	func(k *ini.Key, d string) string { t, err := k.StrictTimesFormat("2006", d); return fmt.Sprint(t, err) },
}

func onlyNames(l []*ini.Key) string {
	var n []string
	for _, k := range l {
		n = append(n, k.Name())
	}
	return fmt.Sprintf("%q", n)
}

func keyNames(l []*ini.Key) string {
	var n []string
	for _, k := range l {
		n = append(n, k.Name()+"="+k.Value())
	}
	return fmt.Sprintf("%q", n)
}

func secNames(l []*ini.Section) string {
	var n []string
	for _, s := range l {
		n = append(n, s.Name())
	}
	return fmt.Sprintf("%q", n)
}

// secReads are all ways to look at a section. The name is that of a key.
var secReads = []func(s *ini.Section, name string) string{
	func(s *ini.Section, name string) string { return s.Name() },
	func(s *ini.Section, name string) string { return s.Body() },
	func(s *ini.Section, name string) string { return fmt.Sprintf("%q", s.KeyStrings()) },
	func(s *ini.Section, name string) string { return keyNames(s.Keys()) },
	func(s *ini.Section, name string) string { return ref.HashString(s.KeysHash()) },
	func(s *ini.Section, name string) string { return keyNames(s.ParentKeys()) },
	func(s *ini.Section, name string) string { return secNames(s.ChildSections()) },
	func(s *ini.Section, name string) string {
		return fmt.Sprint(s.HasValue(name), s.HasKey(name), s.Haskey(name))
	},
	func(s *ini.Section, name string) string {
		k, err := s.GetKey(name)
		if err != nil {
			return "error: " + err.Error()
		}
		return k.Name() + "=" + k.Value()
	},
	func(s *ini.Section, name string) string {
		if !s.HasKey(name) {
			return "no key"
		}
		return s.Key(name).String()
	},
	// Without a look at what is in the keys, which would take the File's lock again.
	func(s *ini.Section, name string) string { return onlyNames(s.Keys()) },
	func(s *ini.Section, name string) string { return onlyNames(s.ParentKeys()) },
	func(s *ini.Section, name string) string { return onlyNames(s.ParentKeys()) },
	func(s *ini.Section, name string) string {
		k, err := s.GetKey(name)
		if err != nil {
			return "error: " + err.Error()
		}
		return k.Name()
	},
	func(s *ini.Section, name string) string { return fmt.Sprint(s.HasValue(name)) },
	func(s *ini.Section, name string) string { return fmt.Sprint(s.HasKey(name)) },
	func(s *ini.Section, name string) string { return fmt.Sprint(s.Haskey(name)) },
	func(s *ini.Section, name string) string { return mapped(s.MapTo, &batInner{}) },
	func(s *ini.Section, name string) string { return mapped(s.StrictMapTo, &batNamed{}) },
	func(s *ini.Section, name string) string { return mapped(s.MapTo, &batEmbed{}) },
}

// fileReads are all ways to look at a File. The name is that of a section.
var fileReads = []func(f *ini.File, name string) string{
	func(f *ini.File, name string) string { return fmt.Sprintf("%q", f.SectionStrings()) },
	func(f *ini.File, name string) string { return secNames(f.Sections()) },
	func(f *ini.File, name string) string { return fmt.Sprint(f.HasSection(name)) },
	func(f *ini.File, name string) string {
		s, err := f.GetSection(name)
		if err != nil {
			return "error: " + err.Error()
		}
		return s.Name()
	},
	func(f *ini.File, name string) string {
		l, err := f.SectionsByName(name)
		if err != nil {
			return "error: " + err.Error()
		}
		return secNames(l)
	},
	func(f *ini.File, name string) string {
		if !f.HasSection(name) {
			return "no section"
		}
		return f.Section(name).Name() + secNames(f.ChildSections(name)) + f.SectionWithIndex(name, 0).Name()
	},
	func(f *ini.File, name string) string {
		if name != "" && name != ini.DefaultSection {
			return "no section that is always there"
		}
		return secNames(f.ChildSections(name))
	},
	func(f *ini.File, name string) string {
		if name != "" && name != ini.DefaultSection {
			return "no section that is always there"
		}
		return f.Section(name).Name()
	},
	func(f *ini.File, name string) string { return rendering(f, "") },
	func(f *ini.File, name string) string { return rendering(f, "\t") },
	func(f *ini.File, name string) string { return mapped(f.MapTo, &batTarget{}) },
	func(f *ini.File, name string) string { return mapped(f.StrictMapTo, &batTarget{}) },
	func(f *ini.File, name string) string { return mapped(f.MapTo, &batExtends{}) },
	func(f *ini.File, name string) string { return mapped(f.MapTo, &batNamed{}) },
	func(f *ini.File, name string) string { return mapped(f.MapTo, &batSlice{}) },
	func(f *ini.File, name string) string { return mapped(f.MapTo, &batOdd{}) },
}

func rendering(f *ini.File, indent string) string {
	s, err := render(f, indent)
	if err != nil {
		return "error: " + err.Error()
	}
	return s
}

func mapped(fn func(interface{}) error, v interface{}) string {
	if err := fn(v); err != nil {
		return "error: " + err.Error()
	}
	return ref.Show(v)
}
