package props

import (
	"strings"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
)

// Edit is a change of a File that does not depend on what an earlier one returned.
type Edit struct {
	Do  string   `json:"do"` // set, new, bool, delkey, newsec, delsec, keynote, secnote, shadow, nested
	Sec core.Bin `json:"sec,omitempty"`
	Key core.Bin `json:"key,omitempty"`
	Val core.Bin `json:"val,omitempty"`
}

// apply carries out the edit on a real File.
func (e Edit) apply(f *ini.File) {
	sec, key, val := string(e.Sec), string(e.Key), string(e.Val)
	switch e.Do {
	case "set":
		f.Section(sec).Key(key).SetValue(val)
	case "new":
		_, _ = f.Section(sec).NewKey(key, val)
	case "bool":
		_, _ = f.Section(sec).NewBooleanKey(key)
	case "delkey":
		f.Section(sec).DeleteKey(key)
	case "newsec":
		_, _ = f.NewSection(sec)
	case "delsec":
		f.DeleteSection(sec)
	case "keynote":
		f.Section(sec).Key(key).Comment = val
	case "secnote":
		f.Section(sec).Comment = val
	case "shadow":
		_ = f.Section(sec).Key(key).AddShadow(val)
	case "nested":
		_ = f.Section(sec).Key(key).AddNestedValue(val)
	}
}

var wildParts = []string{"a", "b", "Z", "0", "9", " ", " ", "\t", "'", "\"", "\"", "`", "\"\"\"", "\\", "\\\\", "#", ";", " #", " ;", "=", ":", "[", "]", "%", "%(a)s", "$", ",", "|", "é", "日本", "\u00a0", "\n", "\n", "\n\n", "-", "\ufeff", "\xff", "k = v", "[s9]", "\n ", " \n", "\\\n", "\r", "\r\n", "\v", "\x00", "\u2028", "\u0085"}

// wildValue draws a value with everything that has a meaning to the parser.
func wildValue(r *core.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return ref.Word(r, 8)
	}
	var b strings.Builder
	for n := 1 + r.Small(9); n > 0; n-- {
		b.WriteString(wildParts[r.Intn(len(wildParts))])
	}
	if r.Chance(1, 60) {
		b.WriteString(strings.Repeat("w", r.PickInt(500, 4090, 4096, 5000)))
	}
	return b.String()
}

func genEdits(r *core.Rand, secs, keys []string, max int) []Edit {
	var l []Edit
	for n := r.Intn(max + 1); n > 0; n-- {
		e := Edit{Sec: core.Bin(secs[r.Intn(len(secs))]), Key: core.Bin(keys[r.Intn(len(keys))])}
		e.Do = r.Pick("set", "set", "set", "new", "new", "new", "bool", "delkey", "newsec", "delsec", "keynote", "secnote", "shadow", "nested")
		e.Val = core.Bin(wildValue(r))
		switch e.Do {
		case "keynote", "secnote":
			e.Val = core.Bin(r.Pick("", "note", "# note", ";note", "two\nlines", "; two\n# lines", "a\n\nb"))
		}
		l = append(l, e)
	}
	return l
}
