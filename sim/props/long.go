package props

import (
	"strings"

	"inisim/core"
)

// long lengthens the names of keys and of sections and values, all of them alike.
type long struct {
	key, sec, val string
	front         bool // lengthened at their front
}

// genLong draws how much longer names get; mostly not at all.
func genLong(r *core.Rand) long {
	some := func() string {
		if r.Chance(1, 3) {
			return ""
		}
		n := r.PickInt(1, 2, 3, 6, 7, 14, 15, 30, 31, 62, 63, 126, 127, 254)
		if r.Bool() {
			n = 1 + r.Small(8)
		}
		return strings.Repeat(r.Pick("x", "x", "x", "é"), n)
	}
	if !r.Chance(1, 4) {
		return long{}
	}
	return long{key: some(), sec: some(), val: some(), front: r.Chance(1, 3)}
}

func (l long) join(s, more string) string {
	if l.front {
		return more + s
	}
	return s + more
}

// Val lengthens values that are plain words.
func (l long) Val(val string) string {
	if val == "" || val == "true" || val[0] < 'a' || val[0] > 'z' || strings.ContainsAny(val, "%,|\n") {
		return val
	}
	return l.join(val, l.val)
}

func (l long) Key(name string) string {
	if name == "" || l.key == "" {
		return name
	}
	return l.join(name, l.key)
}

// Sec lengthens every component of the section's name; sub delimits them.
func (l long) Sec(name, sub string) string {
	switch name {
	case "", "DEFAULT", "default", "raw":
		return name
	}
	if l.sec == "" {
		return name
	}
	parts := strings.Split(name, sub)
	for i := range parts {
		if parts[i] != "" && parts[i] != "raw" {
			parts[i] = l.join(parts[i], l.sec)
		}
	}
	return strings.Join(parts, sub)
}

func (l long) Keys(names []string) []string {
	out := make([]string, len(names))
	for i, n := range names {
		out[i] = l.Key(n)
	}
	return out
}

func (l long) Secs(names []string, sub string) []string {
	out := make([]string, len(names))
	for i, n := range names {
		out[i] = l.Sec(n, sub)
	}
	return out
}

// Vals lengthens the values that the operations use.
func (l long) Vals(ops []Op) {
	for i := range ops {
		switch x := &ops[i]; x.Do {
		case "snew", "shasv", "kset", "kshadow", "knest", "kmuststr":
			x.Val = l.Val(x.Val)
		}
	}
}

// Ops lengthens the names and values that the operations use.
func (l long) Ops(ops []Op, sub string) {
	l.Vals(ops)
	for i := range ops {
		x := &ops[i]
		switch {
		case x.Do == "fnews":
			x.Name, x.Val = l.Sec(x.Name, sub), l.Sec(x.Val, sub)
		case x.Do[0] == 'f', x.Do == "rfile":
			x.Name = l.Sec(x.Name, sub)
		case x.Do[0] == 's', x.Do == "rsec":
			x.Name = l.Key(x.Name)
		}
	}
}
