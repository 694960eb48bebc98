package props

import (
	"fmt"

	"github.com/go-ini/ini"

	"inisim/ref"
)

// makeTwin builds a File of the model's content by the shortest way there is,
// or returns nil when there is none.
func makeTwin(o ref.Opts, model *ref.File) *ini.File {
	f := ini.Empty(o.Load())
	f.BlockMode = false
	f.DeleteSection("")
	for _, s := range model.Secs {
		sec, err := f.NewSection(s.Name)
		if s.IsRaw {
			return nil
		}
		if err != nil {
			return nil
		}
		sec.Comment = s.Comment
		for _, k := range s.Keys {
			if k.Auto || k.Bool && len(k.Shadows)+len(k.Nested) > 0 {
				return nil
			}
			var key *ini.Key
			if k.Bool {
				key, err = sec.NewBooleanKey(k.Name)
			} else {
				key, err = sec.NewKey(k.Name, "no value of any shadow")
			}
			if err != nil {
				return nil
			}
			for _, v := range k.Shadows {
				if key.AddShadow(v) != nil {
					return nil
				}
			}
			for _, v := range k.Nested {
				if key.AddNestedValue(v) != nil {
					return nil
				}
			}
			key.SetValue(k.Value)
			key.Comment = k.Comment
		}
	}
	if ref.Diff(model.Dump(), ref.DumpReal(f)) != "" {
		return nil
	}
	return f
}

// unlike reads a File and its twin in one of every so many ways, beginning with
// the given one, and says where they differ.
func unlike(f, twin *ini.File, at, every int) string {
	all := 3 * len(fileReads)
	for _, s := range f.Sections() {
		all += 3*len(secReads) + len(s.Keys())*len(keyReads)
	}
	if all/every > 150 {
		every = all / 150
	}
	turn := func() bool { at++; return at%every == 0 }
	for i, fn := range fileReads {
		for _, n := range []string{"s1", "", "none"} {
			if !turn() {
				continue
			}
			if got, want := fn(f, n), fn(twin, n); got != want {
				return fmt.Sprintf("file read %d (%q): %s; from a new File of this content: %s", i, n, got, want)
			}
		}
	}
	secs, secs2 := f.Sections(), twin.Sections()
	for i, s := range secs {
		for j, fn := range secReads {
			for _, n := range []string{"a", "b", "none"} {
				if !turn() {
					continue
				}
				if got, want := fn(s, n), fn(secs2[i], n); got != want {
					return fmt.Sprintf("section %q, read %d (%q): %s; from a new File of this content: %s", s.Name(), j, n, got, want)
				}
			}
		}
		keys, keys2 := s.Keys(), secs2[i].Keys()
		for n, k := range keys {
			for j, fn := range keyReads {
				if !turn() {
					continue
				}
				if got, want := fn(k, ","), fn(keys2[n], ","); got != want {
					return fmt.Sprintf("key %q of %q, read %d: %s; from a new File of this content: %s", k.Name(), s.Name(), j, got, want)
				}
			}
		}
	}
	return ""
}
