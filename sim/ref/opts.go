// Package ref holds what the checks compare go-ini/ini with: a reference model of a
// File, and documents whose meaning is known because they were made from it.
package ref

import "github.com/go-ini/ini"

// Opts are the load options a plan chooses.
type Opts struct {
	Loose            bool     `json:"loose,omitempty"`
	Insensitive      bool     `json:"insensitive,omitempty"`
	InsensSections   bool     `json:"insens_sections,omitempty"`
	InsensKeys       bool     `json:"insens_keys,omitempty"`
	IgnoreCont       bool     `json:"ignore_cont,omitempty"`
	IgnoreInline     bool     `json:"ignore_inline,omitempty"`
	SkipUnrec        bool     `json:"skip_unrec,omitempty"`
	ShortCircuit     bool     `json:"short_circuit,omitempty"`
	BoolKeys         bool     `json:"bool_keys,omitempty"`
	Shadows          bool     `json:"shadows,omitempty"`
	Nested           bool     `json:"nested,omitempty"`
	Python           bool     `json:"python,omitempty"`
	SpaceInline      bool     `json:"space_inline,omitempty"`
	UnescapeDQ       bool     `json:"unescape_dq,omitempty"`
	UnescapeComment  bool     `json:"unescape_comment,omitempty"`
	Raw              []string `json:"raw,omitempty"`
	Delims           string   `json:"delims,omitempty"`
	DelimWrite       string   `json:"delim_write,omitempty"`
	ChildDelim       string   `json:"child_delim,omitempty"`
	PreserveQuote    bool     `json:"preserve_quote,omitempty"`
	BufSize          int      `json:"buf_size,omitempty"`
	NonUnique        bool     `json:"non_unique,omitempty"`
	DuplicateShadows bool     `json:"dup_shadows,omitempty"`
	Debug            bool     `json:"debug,omitempty"`
}

// Load returns the real options.
func (o Opts) Load() ini.LoadOptions {
	lo := ini.LoadOptions{
		Loose: o.Loose, Insensitive: o.Insensitive, InsensitiveSections: o.InsensSections, InsensitiveKeys: o.InsensKeys,
		IgnoreContinuation: o.IgnoreCont, IgnoreInlineComment: o.IgnoreInline, SkipUnrecognizableLines: o.SkipUnrec,
		ShortCircuit: o.ShortCircuit, AllowBooleanKeys: o.BoolKeys, AllowShadows: o.Shadows, AllowNestedValues: o.Nested,
		AllowPythonMultilineValues: o.Python, SpaceBeforeInlineComment: o.SpaceInline, UnescapeValueDoubleQuotes: o.UnescapeDQ,
		UnescapeValueCommentSymbols: o.UnescapeComment, UnparseableSections: append([]string(nil), o.Raw...), KeyValueDelimiters: o.Delims,
		KeyValueDelimiterOnWrite: o.DelimWrite, ChildSectionDelimiter: o.ChildDelim, PreserveSurroundedQuote: o.PreserveQuote,
		ReaderBufferSize: o.BufSize, AllowNonUniqueSections: o.NonUnique, AllowDuplicateShadowValues: o.DuplicateShadows,
	}
	if o.Debug {
		lo.DebugFunc = func(string) {}
	}
	return lo
}

// DelimSet returns the key-value delimiters in force.
func (o Opts) DelimSet() string {
	if o.Delims == "" {
		return "=:"
	}
	return o.Delims
}

// Child returns the child section delimiter in force.
func (o Opts) Child() string {
	if o.ChildDelim == "" {
		return "."
	}
	return o.ChildDelim
}
