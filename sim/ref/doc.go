package ref

import (
	"strings"

	"inisim/core"
)

// Doc is a document together with what it means.
type Doc struct {
	BOM  core.Bin `json:"bom,omitempty"`
	CRLF bool     `json:"crlf,omitempty"`
	NoNL bool     `json:"no_nl,omitempty"` // no line end after the last line
	Secs []DocSec `json:"secs"`
}

// DocSec is one section header and what follows it. The first one may have no name:
// then it stands for the lines before any header.
type DocSec struct {
	Name   core.Bin  `json:"name"`
	Note   core.Bin  `json:"note,omitempty"`
	Indent string    `json:"indent,omitempty"`
	Items  []DocItem `json:"items,omitempty"`
}

// DocItem is one entry or line.
type DocItem struct {
	Kind   string     `json:"kind"` // kv, auto, bool, comment, blank, junk, raw
	Key    core.Bin   `json:"key,omitempty"`
	KQ     string     `json:"kq,omitempty"`
	Delim  string     `json:"delim,omitempty"`
	Pad    int        `json:"pad,omitempty"`
	Style  string     `json:"style,omitempty"` // bare, sq, dq, bq, tq, bqm, tqm, cont, py, esc
	Val    core.Bin   `json:"val,omitempty"`
	Long   int        `json:"long,omitempty"` // pads Val
	Lines  []core.Bin `json:"lines,omitempty"`
	Note   core.Bin   `json:"note,omitempty"`
	Nested []core.Bin `json:"nested,omitempty"`
	Gaps   []core.Bin `json:"gaps,omitempty"` // lines between nested values: "", "blank", or a comment
	Indent string     `json:"indent,omitempty"`
}

func (it *DocItem) val() string {
	if it.Long > 0 {
		return string(it.Val) + strings.Repeat("x", it.Long)
	}
	return string(it.Val)
}

func (it *DocItem) gap(k int) string {
	if k < len(it.Gaps) {
		return string(it.Gaps[k])
	}
	return ""
}

// empty tells whether the value is empty however it is written.
func (it *DocItem) empty() bool {
	if it.val() != "" {
		return false
	}
	for _, l := range it.Lines {
		if l != "" {
			return false
		}
	}
	return true
}

func (d *Doc) eol() string {
	if d.CRLF {
		return "\r\n"
	}
	return "\n"
}

func (o Opts) rawSection(name string) bool {
	for _, r := range o.Raw {
		if r == name || (o.Insensitive || o.InsensSections) && strings.EqualFold(r, name) {
			return true
		}
	}
	return false
}

func hasCtl(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] == 127 {
			return true
		}
	}
	return false
}

func noteOK(n string) bool {
	if n == "" {
		return true
	}
	if n[0] != '#' && n[0] != ';' {
		return false
	}
	for i := 1; i < len(n); i++ {
		c := n[i]
		if !(c == ' ' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '#' || c == ';') {
			return false
		}
	}
	return strings.TrimSpace(n) == n
}

func blankSpace(s string) bool { return strings.Trim(s, " \t") == "" }

func (it *DocItem) keyOK(o Opts) bool {
	k := string(it.Key)
	if k == "" || strings.TrimSpace(k) != k || hasCtl(k) || k[0] == '#' {
		return false
	}
	switch it.KQ {
	case "":
		return !strings.ContainsAny(k, o.DelimSet()) && !strings.ContainsAny(k[:1], "`\"#;[") && k != "-"
	case "`", `"`:
		return !strings.Contains(k, it.KQ) && k != "-"
	case `"""`:
		return !strings.Contains(k, `"`) && k != "-"
	}
	return false
}

// bareOK tells whether v, written bare, is read back as v.
func bareOK(v string, o Opts, empty bool) bool {
	if v == "" {
		return empty
	}
	if strings.TrimSpace(v) != v || strings.ContainsAny(v, "\n\r\f\v") || v[0] == '`' || strings.HasPrefix(v, `"""`) {
		return false
	}
	if o.UnescapeDQ && v[0] == '"' || !o.IgnoreCont && v[len(v)-1] == '\\' {
		return false
	}
	if !o.IgnoreInline {
		if o.SpaceInline {
			if strings.Contains(v, " #") || strings.Contains(v, " ;") {
				return false
			}
		} else if strings.ContainsAny(v, "#;") {
			return false
		}
	}
	if !o.PreserveQuote && surrounded(v) {
		return false
	}
	if o.UnescapeComment && (strings.Contains(v, `\#`) || strings.Contains(v, `\;`)) {
		return false
	}
	return true
}

func surrounded(v string) bool {
	return len(v) >= 2 && (v[0] == '\'' || v[0] == '"') && v[0] == v[len(v)-1] && strings.IndexByte(v[1:], v[0]) == len(v)-2
}

// valueOK tells whether the value's text means what the item says under o.
func (it *DocItem) valueOK(o Opts) bool {
	v := it.val()
	if !noteOK(string(it.Note)) {
		return false
	}
	noInline := o.IgnoreInline && it.Note != ""
	hasComment := func(s string) bool {
		if o.IgnoreInline {
			return false
		}
		if o.SpaceInline {
			return strings.Contains(s, " #") || strings.Contains(s, " ;")
		}
		return strings.ContainsAny(s, "#;")
	}
	switch it.Style {
	case "bare":
		return bareOK(v, o, true) && !noInline && !(v == "" && it.Note != "" && o.SpaceInline)
	case "sq", "dq":
		q := byte('\'')
		if it.Style == "dq" {
			q = '"'
		}
		if q == '"' && o.UnescapeDQ {
			return !strings.ContainsAny(v, "\n\r") && !hasCtl(v)
		}
		if strings.IndexByte(v, q) >= 0 || hasCtl(v) || hasComment(v) || noInline {
			return false
		}
		if q == '"' && v == "" && it.Note == "" && o.UnescapeDQ {
			return false
		}
		if o.PreserveQuote && o.UnescapeComment && (strings.Contains(v, `\#`) || strings.Contains(v, `\;`)) {
			return false
		}
		return true
	case "bq":
		return !strings.ContainsAny(v, "`\n\r") && !hasCtl(v)
	case "tq":
		return !strings.Contains(v, `"""`) && !hasCtl(v) && !strings.HasPrefix(v, `"`)
	case "bqm", "tqm":
		q := "`"
		if it.Style == "tqm" {
			q = `"`
		}
		if len(it.Lines) < 2 {
			return false
		}
		for _, l := range it.Lines {
			if strings.Contains(string(l), q) || strings.ContainsAny(string(l), "\n\r") {
				return false
			}
		}
		return true
	case "cont":
		if o.IgnoreCont || len(it.Lines) < 2 || it.Note != "" {
			return false
		}
		for i, l := range it.Lines {
			s := string(l)
			if hasCtl(s) || strings.HasSuffix(s, `\`) {
				return false
			}
			if i == 0 {
				if s != "" && (s[0] == '`' || s[0] == '"' || s[0] == ' ') {
					return false
				}
			} else if strings.TrimSpace(s) == "" || strings.TrimLeft(s, " ") != s {
				return false
			}
		}
		last := string(it.Lines[len(it.Lines)-1])
		return strings.TrimSpace(last) == last
	case "py":
		if !o.Python || o.Nested || o.UnescapeComment || len(it.Lines) < 1 || noInline {
			return false
		}
		if !bareOK(v, o, true) || surrounded(v) || v == "" && it.Note != "" && o.SpaceInline {
			return false
		}
		for _, l := range it.Lines {
			s := string(l)
			if s == "" || s[0] != ' ' && s[0] != '\t' || strings.ContainsAny(s, "\n\r") {
				return false
			}
		}
		return true
	case "esc":
		if !o.UnescapeComment || o.Python {
			return false
		}
		if !(o.IgnoreInline && it.Note == "" || o.SpaceInline && !o.IgnoreInline) {
			return false
		}
		if v == "" || strings.Contains(v, `\`) {
			return false
		}
		p := o
		p.IgnoreInline, p.UnescapeComment = true, false
		return bareOK(v, p, false) && !surrounded(v)
	}
	return false
}

// Valid tells whether the document means what it says under o.
func (d *Doc) Valid(o Opts) bool {
	switch string(d.BOM) {
	case "", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe":
	default:
		return false
	}
	// Whether an indented line would be taken for a part of the value before it.
	joins, open := false, false
	for i := range d.Secs {
		s := &d.Secs[i]
		n := string(s.Name)
		if n == "" && i > 0 || strings.ContainsAny(n, "\n\r") || !noteOK(string(s.Note)) || n == "" && s.Note != "" {
			return false
		}
		if !blankSpace(s.Indent) || s.Indent != "" && (joins || n == "") {
			return false
		}
		if n != "" {
			joins, open = false, false
		}
		raw := n != "" && o.rawSection(n)
		for j := range s.Items {
			it := &s.Items[j]
			if !blankSpace(it.Indent) || it.Indent != "" && joins {
				return false
			}
			if len(it.Gaps) > len(it.Nested) {
				return false
			}
			for _, g := range it.Gaps {
				if s := string(g); s != "" && s != "blank" && (s[0] != '#' && s[0] != ';' || strings.ContainsAny(s, "\n\r")) {
					return false
				}
			}
			if len(it.Nested) > 0 && (!o.Nested || it.Kind != "kv" || it.val() != "" || it.Style != "bare" || o.Python) {
				return false
			}
			switch it.Kind {
			case "blank":
			case "comment":
				if it.Val == "" || it.Val[0] != '#' && it.Val[0] != ';' || strings.ContainsAny(string(it.Val), "\n\r") {
					return false
				}
			case "raw":
				v := it.val()
				if !raw || strings.TrimSpace(v) != v || v == "" || strings.ContainsAny(v[:1], "#;[") || strings.ContainsAny(v, "\n\r") {
					return false
				}
			case "junk":
				v := string(it.Val)
				if raw || !o.SkipUnrec || hasCtl(v) || strings.TrimSpace(v) != v || v == "" || strings.ContainsAny(v[:1], "`\"#;[") {
					return false
				}
				first := strings.IndexAny(v, o.DelimSet())
				if !(first == 0 || first < 0 && !o.BoolKeys) {
					return false
				}
			case "bool":
				v := string(it.Key)
				if raw || !o.BoolKeys || !bareOK(v, o, false) || strings.ContainsAny(v[:1], "`\"#;[") ||
					strings.ContainsAny(v, o.DelimSet()) || !noteOK(string(it.Note)) || it.Note != "" && o.IgnoreInline || hasCtl(v) ||
					surrounded(v) || v == "-" {
					return false
				}
				if strings.ContainsAny(string(it.Note), o.DelimSet()) {
					return false
				}
				if o.UnescapeComment && o.Python {
					return false
				}
			case "kv", "auto":
				if raw || len(it.Delim) != 1 || !strings.Contains(o.DelimSet(), it.Delim) {
					return false
				}
				if it.Kind == "kv" && !it.keyOK(o) || !it.valueOK(o) {
					return false
				}
				for _, nv := range it.Nested {
					v := string(nv)
					if v == "" || strings.TrimSpace(v) != v || strings.ContainsAny(v, "\n\r") {
						return false
					}
				}
			default:
				return false
			}
			if o.Nested && (it.Kind == "kv" || it.Kind == "auto") {
				open = it.empty()
			}
			if o.Nested && it.Kind == "bool" {
				open = true // to which key it would go is left open
			}
			joins = open || o.Python && (it.Kind == "kv" || it.Kind == "auto" || it.Kind == "bool")
		}
	}
	return d.apply(NewEmptyModel(o), true)
}

// NewEmptyModel returns a model without any section.
func NewEmptyModel(o Opts) *File { return &File{Opts: o} }

func pad(n, bit int) string {
	return [4]string{"", " ", "\t", "  "}[(n>>bit)&3]
}

// Text renders the document.
func (d *Doc) Text(o Opts) string {
	var b strings.Builder
	b.WriteString(string(d.BOM))
	e := d.eol()
	end := func() { b.WriteString(e) }
	for i := range d.Secs {
		s := &d.Secs[i]
		if s.Name != "" {
			b.WriteString(s.Indent + "[" + string(s.Name) + "]")
			if s.Note != "" {
				b.WriteString(" " + string(s.Note))
			}
			end()
		}
		for j := range s.Items {
			it := &s.Items[j]
			b.WriteString(it.Indent)
			switch it.Kind {
			case "blank":
			case "comment", "junk":
				b.WriteString(string(it.Val))
			case "raw":
				b.WriteString(it.val())
			case "bool":
				b.WriteString(string(it.Key))
				d.note(&b, it)
			case "kv", "auto":
				if it.Kind == "auto" {
					b.WriteString("-")
				} else {
					b.WriteString(it.KQ + string(it.Key) + it.KQ)
				}
				b.WriteString(pad(it.Pad, 0) + it.Delim + pad(it.Pad, 2))
				v := it.val()
				switch it.Style {
				case "bare":
					b.WriteString(v)
				case "sq":
					b.WriteString("'" + v + "'")
				case "dq":
					if o.UnescapeDQ {
						v = strings.ReplaceAll(v, `"`, `\"`)
					}
					b.WriteString(`"` + v + `"`)
				case "bq":
					b.WriteString("`" + v + "`")
				case "tq":
					b.WriteString(`"""` + v + `"""`)
				case "bqm":
					b.WriteString("`" + join(it.Lines, e) + "`")
				case "tqm":
					b.WriteString(`"""` + join(it.Lines, e) + `"""`)
				case "cont":
					b.WriteString(join(it.Lines, `\`+e+pad(it.Pad, 4)))
				case "py":
					b.WriteString(v)
				case "esc":
					b.WriteString(strings.NewReplacer("#", `\#`, ";", `\;`).Replace(v))
				}
				d.note(&b, it)
				if it.Style == "py" {
					for _, l := range it.Lines {
						b.WriteString(e + string(l))
					}
				}
				for k, l := range it.Nested {
					if g := it.gap(k); g == "blank" {
						b.WriteString(e)
					} else if g != "" {
						b.WriteString(e + g)
					}
					b.WriteString(e + [2]string{"  ", "\t"}[(it.Pad>>k)&1] + string(l))
				}
			}
			end()
		}
	}
	text := b.String()
	if d.NoNL {
		text = strings.TrimSuffix(text, e)
	}
	return text
}

func (d *Doc) note(b *strings.Builder, it *DocItem) {
	if it.Note != "" {
		b.WriteString(" " + string(it.Note))
	}
}

func join(l []core.Bin, sep string) string {
	s := make([]string, len(l))
	for i := range l {
		s[i] = string(l[i])
	}
	return strings.Join(s, sep)
}

// Apply makes the model what it should be after loading the document into it.
// It returns false if the document cannot be loaded on top of what is there.
func (d *Doc) Apply(f *File) bool { return d.apply(f, false) }

func (d *Doc) apply(f *File, check bool) bool {
	o := f.Opts
	e := d.eol()
	sec := f.NewSection("DEFAULT")
	comment := ""
	count := 1
	take := func() string {
		c := strings.TrimSpace(comment)
		comment = ""
		return c
	}
	for i := range d.Secs {
		s := &d.Secs[i]
		lastSec := i == len(d.Secs)-1
		if s.Name != "" {
			sec = f.NewSection(string(s.Name))
			if s.Note != "" {
				comment += string(s.Note)
			}
			sec.Comment = take()
			count = 1
		}
		for j := range s.Items {
			it := &s.Items[j]
			last := lastSec && j == len(s.Items)-1 && d.NoNL
			switch it.Kind {
			case "blank", "junk":
			case "comment":
				comment += string(it.Val) + e
			case "raw":
				sec.IsRaw = true
				sec.Body += it.val()
				if !last {
					sec.Body += e
				}
			case "bool":
				if it.Note != "" {
					comment += o.noteText(it)
				}
				k := sec.NewKey(string(it.Key), "true")
				if k == nil {
					return false
				}
				k.Bool = true
				k.Comment = take()
			case "kv", "auto":
				name := string(it.Key)
				if it.Kind == "auto" {
					name = "#" + itoa(count)
					count++
				}
				v := it.val()
				inline := true
				switch it.Style {
				case "sq", "dq":
					if it.Style == "dq" && o.UnescapeDQ {
						inline = false
					} else if o.PreserveQuote {
						q := "'"
						if it.Style == "dq" {
							q = `"`
						}
						v = q + v + q
					}
				case "bq", "tq":
					inline = false
				case "bqm", "tqm":
					v = join(it.Lines, e)
				case "cont":
					v = ""
					for k, l := range it.Lines {
						if k == 0 {
							v = string(l)
						} else {
							v += strings.TrimLeft(string(l), " \t")
						}
					}
				case "py":
					for k, l := range it.Lines {
						v += "\n" + string(l)
						if d.CRLF && !(last && k == len(it.Lines)-1) {
							v += "\r"
						}
					}
				}
				if it.Note != "" && inline {
					if it.Style == "bqm" || it.Style == "tqm" {
						comment += string(it.Note)
					} else {
						comment += o.noteText(it)
					}
				}
				k := sec.NewKey(name, v)
				if k == nil {
					return false
				}
				k.Auto, k.Bool = it.Kind == "auto", false
				if c := take(); c != "" || !o.Shadows {
					k.Comment = c
				}
				if len(it.Nested) > 0 && (k.Auto || k.Bool) {
					return false
				}
				for i, nv := range it.Nested {
					if g := it.gap(i); g != "" && g != "blank" {
						comment += g + e
					}
					k.Nested = append(k.Nested, string(nv))
				}
			}
		}
	}
	return true
}

// noteText is an inline comment as the parser records it.
func (o Opts) noteText(it *DocItem) string {
	if o.SpaceInline {
		return " " + string(it.Note)
	}
	return string(it.Note)
}

func itoa(n int) string {
	if n >= 10 {
		return itoa(n/10) + itoa(n%10)
	}
	return string(rune('0' + n))
}
