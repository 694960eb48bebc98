package props

import (
	"fmt"
	"os"
	"time"

	"github.com/go-ini/ini"

	"inisim/core"
)

// Structs that files of unknown content are mapped to.
type (
	level    string
	flag     bool
	count    int
	ratio    float64
	Duration int64 // not time.Duration
	stamp    time.Time

	batInner struct {
		K, A, B string
		N       int
		L       []int
	}
	batEmbed struct {
		C string
		T time.Time
	}
	batTarget struct {
		A     string
		B     int
		C     bool
		K     float64
		X     uint
		Z     time.Duration
		D     time.Time
		E     []string    `delim:"|"`
		F     []int       `ini:"a"`
		G     []int64     `ini:"b"`
		H     []uint      `ini:"c"`
		I     []uint64    `ini:"k"`
		J     []float64   `ini:"K"`
		L     []bool      `ini:"x"`
		M     []time.Time `ini:"A"`
		N     *string     `ini:"B"`
		O     *int        `ini:"a"`
		P     *time.Time  `ini:"b"`
		Q     *bool       `ini:"c"`
		R     *float64    `ini:"k"`
		S     *uint16     `ini:"x"`
		T     int8        `ini:"a"`
		U     uint32      `ini:"b"`
		V     float32     `ini:"c"`
		W     []string    `ini:"a,omitempty,allowshadow"`
		S1    batInner    `ini:"s1"`
		S2    *batInner   `ini:"s2"`
		Raw   *batInner   `ini:"raw"`
		Deep  batInner    `ini:"s1.sub"`
		Empty struct{}    `ini:"A"`
		Skip  chan int    `ini:"-"`
		batEmbed
		*batInner `ini:"s1.sub.deep"`
	}
	batExtends struct {
		batEmbed `ini:",,,,extends"`
		S1       []batInner `ini:"s1,,,nonunique"`
	}
	batNamed struct {
		A level     `ini:"a"`
		B *level    `ini:"b"`
		C flag      `ini:"c"`
		D *flag     `ini:"k"`
		E count     `ini:"a"`
		F *count    `ini:"x"`
		G ratio     `ini:"A"`
		H *ratio    `ini:"B"`
		I Duration  `ini:"a"`
		J *Duration `ini:"b"`
		L []level   `ini:"c"`
		M []count   `ini:"k"`
	}
	batOdd struct {
		A batInner   `ini:"a"` // a key may have this name
		B *batInner  `ini:"b"`
		C []batInner `ini:"c"`
		D stamp      `ini:"k"`
		E []stamp    `ini:"x"`
		F *stamp     `ini:"A"`
	}
	batBad1 struct {
		A map[string]string `ini:"a"`
	}
	batBad2 struct {
		B []*int `ini:"b"`
	}
	batBad3 struct {
		C *[]string `ini:"c"`
	}
	batSlice struct {
		S1 []batInner  `ini:"s1,,,nonunique"`
		S2 []*batInner `ini:"s2,,,nonunique"`
	}
)

var batTargets = []func() interface{}{
	func() interface{} { return &batTarget{} },
	func() interface{} { return &batExtends{} },
	func() interface{} { return &batNamed{} },
	func() interface{} { return &batOdd{} },
	func() interface{} { return &batBad1{} },
	func() interface{} { return &batBad2{} },
	func() interface{} { return &batBad3{} },
	func() interface{} { return &batSlice{} },
	func() interface{} { return &[]batInner{} },
}

var batDelims = []string{",", "|", " ", "::", "é", "日本"}

// readKey reads a key in every way there is.
func readKey(k *ini.Key, delim string, stores bool) {
	_, _, _ = k.Name(), k.Value(), k.String()
	_ = k.ValueWithShadows()
	_ = k.NestedValues()
	_ = k.Validate(func(s string) string { return s + "!" })
	_, _ = k.Bool()
	_, _ = k.Int()
	_, _ = k.Int64()
	_, _ = k.Uint()
	_, _ = k.Uint64()
	_, _ = k.Float64()
	_, _ = k.Duration()
	_, _ = k.Time()
	_, _ = k.TimeFormat("2006")
	_, _, _, _, _, _ = k.MustBool(), k.MustInt(), k.MustInt64(), k.MustUint(), k.MustUint64(), k.MustFloat64()
	_, _, _ = k.MustDuration(), k.MustTime(), k.MustTimeFormat("15:04")
	_ = k.In("d", []string{"a", "b"})
	_ = k.InInt(1, []int{1, 2})
	_ = k.InInt64(1, []int64{1, 2})
	_ = k.InUint(1, []uint{1, 2})
	_ = k.InUint64(1, []uint64{1, 2})
	_ = k.InFloat64(1, []float64{1, 2})
	_ = k.InTime(time.Time{}, []time.Time{{}})
	_ = k.RangeInt(1, 0, 10)
	_ = k.RangeInt64(1, 0, 10)
	_ = k.RangeFloat64(1, 0, 10)
	_ = k.RangeTime(time.Time{}, time.Time{}, time.Unix(1e9, 0))
	if stores {
		defer func() {
			_ = k.MustInt(3)
			_ = k.MustBool(true)
			_ = k.MustString("def")
			_ = k.MustDuration(time.Second)
			_ = k.MustTime(time.Unix(1e9, 0).UTC())
		}()
	}
	_ = k.StringsWithShadows(delim)
	if len(k.String()) > 300 {
		return // splitting long values takes long
	}
	_ = k.Strings(delim)
	_, _, _, _, _ = k.Ints(delim), k.Int64s(delim), k.Uints(delim), k.Uint64s(delim), k.Float64s(delim)
	_, _ = k.Bools(delim), k.Times(delim)
	_, _, _, _, _ = k.ValidInts(delim), k.ValidInt64s(delim), k.ValidUints(delim), k.ValidUint64s(delim), k.ValidFloat64s(delim)
	_, _ = k.ValidBools(delim), k.ValidTimes(delim)
	_, _ = k.StrictInts(delim)
	_, _ = k.StrictInt64s(delim)
	_, _ = k.StrictUints(delim)
	_, _ = k.StrictUint64s(delim)
	_, _ = k.StrictFloat64s(delim)
	_, _ = k.StrictBools(delim)
	_, _ = k.StrictTimes(delim)
}

// readAll looks at everything a File offers. limit bounds the number of keys read in
// all ways.
func readAll(f *ini.File, delim string, limit int) {
	names := f.SectionStrings()
	secs := f.Sections()
	for i, s := range secs {
		if i > 40 && i < len(secs)-10 { // comparing all with all takes long
			continue
		}
		_, _ = s.Name(), s.Body()
		_ = s.KeyStrings()
		_ = s.KeysHash()
		_ = s.ParentKeys()
		_ = s.ChildSections()
		_ = s.HasValue("v")
		_ = s.HasKey("k")
		_ = f.HasSection(names[i])
		_, _ = f.GetSection(names[i])
		_, _ = f.SectionsByName(names[i])
		_ = f.ChildSections(names[i])
		for _, k := range s.Keys() {
			_, _ = s.GetKey(k.Name())
			if limit > 0 {
				limit--
				readKey(k, delim, false)
			} else {
				_, _ = k.Value(), k.String()
			}
		}
	}
}

func mapAll(f *ini.File, which int, strict, mapper bool) error {
	if mapper {
		f.NameMapper = ini.TitleUnderscore
		defer func() { f.NameMapper = nil }()
	}
	v := batTargets[which%len(batTargets)]()
	if strict {
		return f.StrictMapTo(v)
	}
	return f.MapTo(v)
}

// exercise does everything with a File of unknown content: it must not panic.
func exercise(t *core.T, f *ini.File, delim string, mapped bool) {
	readAll(f, delim, 12)
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			mapped = mapped && len(k.String()) <= 600 // splitting long values takes long
		}
	}
	if mapped {
		for i := range batTargets {
			if mapAll(f, i, false, false) == nil {
				t.Probe(fmt.Sprintf("mapped:%T", batTargets[i]()))
			}
			_ = mapAll(f, i, true, i%2 == 0)
		}
		for _, s := range f.Sections() {
			_ = s.MapTo(&batInner{})
			_ = s.StrictMapTo(&batNamed{})
		}
	}
	f.ValueMapper = os.ExpandEnv
	readAll(f, delim, 3)
	f.ValueMapper = nil
}
