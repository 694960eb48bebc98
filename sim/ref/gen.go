package ref

import (
	"strings"

	"inisim/core"
)

// GenOpts draws parser options.
func GenOpts(r *core.Rand) Opts {
	var o Opts
	if r.Chance(1, 6) {
		return o
	}
	c := func(n int) bool { return r.Chance(1, n) }
	o.Insensitive = c(8)
	o.InsensSections = c(10)
	o.InsensKeys = c(10)
	o.IgnoreCont = c(4)
	o.IgnoreInline = c(4)
	o.SkipUnrec = c(5)
	o.BoolKeys = c(3)
	o.Shadows = c(4)
	o.Nested = c(4)
	o.Python = c(3)
	o.SpaceInline = c(4)
	o.UnescapeDQ = c(5)
	o.UnescapeComment = c(6)
	o.PreserveQuote = c(5)
	o.NonUnique = c(8)
	o.DuplicateShadows = c(5)
	o.Debug = c(6)
	if c(4) {
		o.Raw = []string{"raw", "Body"}
	}
	if c(6) {
		o.Delims = r.Pick("=", ":", "=:", "|", "=>")
	}
	if c(3) {
		o.BufSize = r.PickInt(1, 16, 4096, 4097, 5000, 8192, 70000)
	}
	return o
}

var wordChars = []string{"a", "b", "c", "k", "x", "z", "A", "B", "K", "0", "1", "9", "_", "-", ".", "é", "日", "İ", "ß"}

// Word draws a simple word.
func Word(r *core.Rand, max int) string {
	var b strings.Builder
	for n := 1 + r.Intn(max); n > 0; n-- {
		b.WriteString(wordChars[r.Intn(len(wordChars))])
	}
	return b.String()
}

var valChars = []string{"a", "b", "c", "X", "0", "7", " ", " ", "é", "日本", "'", "\"", "\\", "#", ";", "=", ":", "[", "]", "%", "$", "(", ")", ",", "|", "\t", "`", "/", "-"}

// Text draws a text with all kinds of characters, but no line ends.
func Text(r *core.Rand, max int) string {
	var b strings.Builder
	if r.Chance(1, 2) {
		return Word(r, 6)
	}
	for n := r.Intn(max + 1); n > 0; n-- {
		b.WriteString(valChars[r.Intn(len(valChars))])
	}
	return b.String()
}

func note(r *core.Rand) core.Bin {
	return core.Bin(r.Pick("#", ";") + r.Pick("", " ") + r.Pick("note", "n1 more", "x", "see K.9", "a # b", "a ; b", "x#y", "x;y"))
}

// KeyName draws a key name that is valid for the item.
func (it *DocItem) genKey(r *core.Rand, o Opts, names []string) {
	if o.BoolKeys && r.Chance(1, 16) {
		it.KQ, it.Key = "", "flag"
		return
	}
	if len(names) > 0 && r.Chance(3, 4) {
		it.Key = core.Bin(names[r.Intn(len(names))])
		return
	}
	for try := 0; try < 20; try++ {
		it.KQ = ""
		if r.Chance(1, 4) {
			it.KQ = r.Pick("`", `"`, `"""`)
		}
		if r.Chance(1, 3) {
			it.Key = core.Bin(strings.TrimSpace(Text(r, 8)))
		} else {
			it.Key = core.Bin(Word(r, 4))
		}
		if r.Chance(1, 40) {
			it.Key = "\ufefc" // its encoding begins like a byte-order mark
		}
		if it.keyOK(o) {
			return
		}
	}
	it.KQ, it.Key = "", "k"
}

var styles = []string{"bare", "bare", "bare", "sq", "dq", "bq", "tq", "bqm", "tqm", "cont", "py", "esc"}

func (it *DocItem) genValue(r *core.Rand, o Opts, big bool) {
	for try := 0; try < 30; try++ {
		it.Style = styles[r.Intn(len(styles))]
		it.Val, it.Lines, it.Note, it.Long = "", nil, "", 0
		switch it.Style {
		case "bqm", "tqm", "cont", "py":
			n := 1 + r.Small(4)
			if it.Style != "py" {
				n++
			} else {
				it.Val = core.Bin(r.Pick("", Word(r, 5), strings.TrimSpace(Text(r, 8))))
			}
			if big && r.Chance(1, 3) {
				n = r.Range(20, 150)
			}
			for ; n > 0; n-- {
				l := Text(r, 10)
				if it.Style == "py" {
					l = r.Pick(" ", "\t", "    ", "  ") + l
				}
				if big && r.Chance(1, 1+n/3+2) {
					l += strings.Repeat("y", r.PickInt(100, 1000, 4000, 4096, 5000))
				}
				if it.Style == "bqm" {
					l = strings.ReplaceAll(l, "`", "'")
				}
				if it.Style == "tqm" {
					l = strings.ReplaceAll(l, `"`, "'")
				}
				it.Lines = append(it.Lines, core.Bin(l))
			}
		case "bare":
			it.Val = core.Bin(r.Pick("", Word(r, 8), strings.TrimSpace(Text(r, 12)), strings.TrimSpace(Text(r, 12))))
		default:
			it.Val = core.Bin(Text(r, 12))
		}
		if big && r.Chance(1, 3) && it.Val != "" {
			it.Long = r.PickInt(100, 1000, 4000, 4090, 4096, 4100, 8190, 9000)
		}
		if r.Chance(1, 5) {
			it.Note = note(r)
		}
		if it.valueOK(o) {
			return
		}
		if it.Note = ""; it.valueOK(o) {
			return
		}
	}
	it.Style, it.Val, it.Lines, it.Note, it.Long = "bare", "v", nil, "", 0
}

// SecNames are section names that documents share.
var SecNames = []string{"s1", "s2", "s1.sub", "s1.sub.deep", "A", "a", "DEFAULT", "default", "raw", "Body", "RAW", "body", "é日", "x y", "q]r", " pad "}

// GenDoc draws a document that is valid under o.
func GenDoc(r *core.Rand, o Opts) *Doc { return GenDocNames(r, o, nil, nil) }

var bomLike = []string{"\ufefc", "\uffbf", "\u1eff", "\xfek", "\xffk", "k\xfe", "k\xff", "\xef\xbbk", "\xef\xbb"}

// GenDocNames draws a document, preferring the given section and key names.
func GenDocNames(r *core.Rand, o Opts, secs, keys []string) *Doc {
	d := &Doc{CRLF: r.Chance(1, 4), NoNL: r.Chance(1, 3)}
	if r.Chance(1, 5) {
		d.BOM = core.Bin(r.Pick("\xef\xbb\xbf", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe"))
	}
	big := r.Chance(1, 12)
	ns := 1 + r.Small(5)
	for i := 0; i < ns; i++ {
		var s DocSec
		if i > 0 || r.Chance(1, 3) {
			if secs != nil {
				s.Name = core.Bin(secs[r.Intn(len(secs))])
			} else {
				s.Name = core.Bin(SecNames[r.Intn(len(SecNames))])
			}
			if r.Chance(1, 5) {
				s.Note = note(r)
			}
			if r.Chance(1, 10) {
				s.Indent = r.Pick(" ", "\t", "    ")
			}
		}
		raw := s.Name != "" && o.rawSection(string(s.Name))
		n := r.Small(8)
		if big && r.Chance(1, 6) {
			n = r.Range(10, 60)
		}
		for j := 0; j < n; j++ {
			var it DocItem
			switch k := r.Intn(20); {
			case k < 1:
				it.Kind = "blank"
			case k < 4:
				it.Kind = "comment"
				it.Val = core.Bin(r.Pick("#", ";") + Text(r, 10))
				if r.Chance(1, 10) {
					it.Val += core.Bin(strings.Repeat("c", r.PickInt(100, 4090, 4096, 5000)))
				}
			case raw:
				it.Kind = "raw"
				v := strings.TrimSpace(Text(r, 12))
				v = strings.TrimLeft(v, "#;[ \t")
				if v == "" {
					v = "body text"
				}
				it.Val = core.Bin(v)
			case k < 6 && o.BoolKeys:
				it.Kind = "bool"
				it.Key = core.Bin("flag" + itoa(r.Intn(100)))
				if r.Chance(1, 4) {
					it.Key = "flag"
				}
				if r.Chance(1, 4) && !o.IgnoreInline {
					it.Note = note(r)
				}
			case k < 8:
				it.Kind = "auto"
			case k < 10 && o.SkipUnrec:
				it.Kind = "junk"
				it.Val = core.Bin(r.Pick("junk line", "???", "no delimiter here"))
				if r.Chance(1, 3) {
					it.Val = core.Bin(o.DelimSet()[:1] + "no key")
				}
			default:
				it.Kind = "kv"
				it.genKey(r, o, keys)
			}
			if it.Kind == "kv" || it.Kind == "auto" {
				ds := o.DelimSet()
				it.Delim = ds[r.Intn(len(ds)):][:1]
				it.Pad = r.Intn(64)
				it.genValue(r, o, big)
				if it.Kind == "kv" && o.Nested && !o.Python && it.Style == "bare" && it.val() == "" && r.Chance(3, 4) {
					n := 1 + r.Small(3)
					if r.Chance(1, 25) {
						n = r.Range(4, 18)
					}
					for ; n > 0; n-- {
						if m := len(it.Nested); m > 0 && r.Chance(1, 8) {
							it.Nested = append(it.Nested, it.Nested[r.Intn(m)])
							continue
						}
						v := strings.TrimSpace(Text(r, 8))
						if v == "" {
							v = "nv"
						}
						it.Nested = append(it.Nested, core.Bin(v))
					}
					if r.Chance(1, 4) {
						for range it.Nested {
							it.Gaps = append(it.Gaps, core.Bin(r.Pick("", "blank", "# gap", "; g1")))
						}
					}
				}
			}
			if r.Chance(1, 8) {
				it.Indent = r.Pick(" ", "\t", "    ")
			}
			s.Items = append(s.Items, it)
		}
		d.Secs = append(d.Secs, s)
	}
	if d.BOM == "" && r.Chance(1, 60) {
		// The first key begins much like a byte-order mark.
		it := DocItem{Kind: "kv", Key: core.Bin(bomLike[r.Intn(len(bomLike))]), Val: "v", Style: "bare", Delim: o.DelimSet()[:1]}
		if d.Secs[0].Name != "" {
			d.Secs = append([]DocSec{{}}, d.Secs...)
		}
		d.Secs[0].Items = append([]DocItem{it}, d.Secs[0].Items...)
	}
	d.Prune(o)
	if r.Chance(1, 80) {
		d.crowd(r, o, keys)
	}
	return d
}

// crowd puts very many of something into the document.
func (d *Doc) crowd(r *core.Rand, o Opts, keys []string) {
	n := r.PickInt(9, 10, 11, 16, 17, 33, 64, 65, 100, 129, 257, 300)
	old := d.Secs
	kv := func(key string) DocItem {
		it := DocItem{Kind: "kv", Key: core.Bin(key), Delim: o.DelimSet()[:1], Style: "bare", Val: core.Bin("v" + itoa(r.Intn(50)))}
		if key == "" {
			it.Kind = "auto"
		}
		return it
	}
	s := DocSec{Name: "crowd"}
	if len(old) > 0 && r.Bool() {
		s.Name = old[r.Intn(len(old))].Name
	}
	if s.Name == "" && len(old) > 0 {
		s.Name = "crowd"
	}
	var add []DocSec
	switch r.Intn(8) {
	case 0: // keys
		for i := 0; i < n; i++ {
			s.Items = append(s.Items, kv("k"+itoa(i)))
			if len(keys) > 0 && r.Chance(1, 20) {
				s.Items = append(s.Items, kv(keys[r.Intn(len(keys))]))
			}
		}
	case 1: // auto-increment keys
		for i := 0; i < n; i++ {
			s.Items = append(s.Items, kv(""))
		}
	case 2: // sections
		for i := 0; i < n; i++ {
			add = append(add, DocSec{Name: core.Bin("t" + itoa(i)), Items: []DocItem{kv("k")}})
		}
	case 3: // one section again and again
		for i := 0; i < n; i++ {
			add = append(add, DocSec{Name: s.Name, Items: []DocItem{kv("k" + itoa(i%20))}})
		}
	case 4: // children
		name := string(s.Name)
		for i := 0; i < n; i++ {
			if i < 12 {
				name += o.Child() + "c"
			}
			add = append(add, DocSec{Name: core.Bin(name + itoa(i)), Items: []DocItem{kv("k")}})
		}
	case 5: // one key again and again
		for i := 0; i < n; i++ {
			it := kv("k")
			it.Val = core.Bin("w" + itoa(i))
			s.Items = append(s.Items, it)
		}
	case 6: // nested values
		it, same := kv("k"), 1+r.Small(2)
		it.Val = ""
		for i := 0; o.Nested && !o.Python && i < n; i++ {
			it.Nested = append(it.Nested, core.Bin("n"+itoa(i/same)))
		}
		s.Items = append(s.Items, it)
	case 7: // comments
		for i := 0; i < n; i++ {
			s.Items = append(s.Items, DocItem{Kind: "comment", Val: core.Bin("# " + itoa(i))})
		}
		s.Items = append(s.Items, kv("k"))
	}
	if len(s.Items) > 0 {
		add = append(add, s)
	}
	d.Secs = append(append([]DocSec(nil), old...), add...)
	if !d.Valid(o) {
		d.Secs = old
	}
}

// Revise draws another version of a document: other values, an entry more or less,
// another order.
func (d *Doc) Revise(r *core.Rand, o Opts) *Doc {
	n := &Doc{BOM: d.BOM, CRLF: d.CRLF, NoNL: d.NoNL}
	if r.Chance(1, 6) {
		n.CRLF, n.NoNL = !d.CRLF, r.Bool()
	}
	change := r.PickInt(2, 4, 8) // of 8
	for _, s := range d.Secs {
		c := s
		c.Items = nil
		for _, it := range s.Items {
			if r.Chance(1, 12) {
				continue
			}
			nt := it
			if (it.Kind == "kv" || it.Kind == "auto") && r.Chance(change, 8) {
				nt.genValue(r, o, r.Chance(1, 30))
			}
			c.Items = append(c.Items, nt)
			if r.Chance(1, 12) {
				x := DocItem{Kind: "comment", Val: "# more"}
				if r.Bool() {
					x = DocItem{Kind: "kv", Key: core.Bin("extra" + itoa(r.Intn(3))), Delim: o.DelimSet()[:1]}
					x.genValue(r, o, false)
				}
				c.Items = append(c.Items, x)
			}
		}
		if r.Chance(1, 4) {
			for i := len(c.Items) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				c.Items[i], c.Items[j] = c.Items[j], c.Items[i]
			}
		}
		n.Secs = append(n.Secs, c)
	}
	if len(n.Secs) > 2 && r.Chance(1, 4) {
		j := 1 + r.Intn(len(n.Secs)-1)
		n.Secs[len(n.Secs)-1], n.Secs[j] = n.Secs[j], n.Secs[len(n.Secs)-1]
	}
	n.Prune(o)
	return n
}

// Shorten takes what is long out of a document.
func (d *Doc) Shorten(o Opts) {
	for i := range d.Secs {
		var l []DocItem
		for _, it := range d.Secs[i].Items {
			long := len(it.Lines) > 6 || len(it.Val) > 200
			for _, s := range it.Lines {
				long = long || len(s) > 200
			}
			if it.Long > 100 {
				it.Long = 100
			}
			if !long {
				l = append(l, it)
			}
		}
		d.Secs[i].Items = l
	}
	d.Prune(o)
}

// Prune takes out what is not valid.
func (d *Doc) Prune(o Opts) {
	if d.Valid(o) {
		return
	}
	secs := d.Secs
	d.Secs = nil
	for _, s := range secs {
		items := s.Items
		s.Items = nil
		d.Secs = append(d.Secs, s)
		cur := &d.Secs[len(d.Secs)-1]
		if !d.Valid(o) {
			cur.Indent = ""
		}
		for _, it := range items {
			cur.Items = append(cur.Items, it)
			if it.Indent != "" && !d.Valid(o) {
				cur.Items[len(cur.Items)-1].Indent = ""
			}
			if !d.Valid(o) {
				cur.Items = cur.Items[:len(cur.Items)-1]
			}
		}
	}
}

// Lengthen makes one value longer than any buffer.
func (d *Doc) Lengthen(r *core.Rand, o Opts) {
	n := r.PickInt(65535, 65536, 65537, 70000, 131072, 200000, 1<<20+1)
	for try := 0; try < 10; try++ {
		s := &d.Secs[r.Intn(len(d.Secs))]
		if len(s.Items) == 0 {
			continue
		}
		it := &s.Items[r.Intn(len(s.Items))]
		old := *it
		switch {
		case len(it.Lines) > 0:
			it.Lines = append([]core.Bin(nil), it.Lines...)
			j := r.Intn(len(it.Lines))
			it.Lines[j] += core.Bin(strings.Repeat("y", n))
		case it.Kind == "comment":
			it.Val += core.Bin(strings.Repeat("c", n))
		case it.Val != "":
			it.Long = n
		}
		if d.Valid(o) {
			return
		}
		*it = old
	}
}
