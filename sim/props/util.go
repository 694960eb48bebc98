package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"syscall"

	"github.com/go-ini/ini"

	"inisim/core"
	"inisim/ref"
	"inisim/simos"
	"inisim/simrt"
)

// errSim is what simulated readers, writers and callbacks fail with.
var errSim = errors.New("simulated failure")

type errTemp struct{}

func (errTemp) Error() string   { return "simulated timeout" }
func (errTemp) Timeout() bool   { return true }
func (errTemp) Temporary() bool { return true }

func readerError(kind string) error {
	switch kind {
	case "unexpected-eof":
		return io.ErrUnexpectedEOF
	case "timeout":
		return errTemp{}
	case "closed-pipe":
		return io.ErrClosedPipe
	case "no-progress":
		return io.ErrNoProgress
	case "not-exist":
		return os.ErrNotExist
	case "path-not-exist":
		return &os.PathError{Op: "read", Path: "remote", Err: syscall.ENOENT}
	}
	return errSim
}

var readerErrors = []string{"error", "error", "unexpected-eof", "timeout", "closed-pipe", "no-progress", "not-exist", "path-not-exist"}

// Delivery is how a simulated reader hands over its bytes.
type Delivery struct {
	Chunks  []int  `json:"chunks,omitempty"` // sizes of successive reads, used in turn; 0 is an empty read
	EOFData bool   `json:"eof_data,omitempty"`
	Err     string `json:"err,omitempty"` // fails with this error ...
	At      int    `json:"at,omitempty"`  // ... once so many bytes were delivered
	WithErr bool   `json:"with_err,omitempty"`
	Once    bool   `json:"once,omitempty"` // the error goes away
	Panic   bool   `json:"panic,omitempty"`
}

func (d *Delivery) ok() bool {
	empty := 0
	for _, c := range d.Chunks {
		if c < 0 {
			return false
		}
		if c == 0 {
			empty++
		}
	}
	return d.At >= 0 && empty <= 20 && (empty < len(d.Chunks) || len(d.Chunks) == 0)
}

func genChunks(r *core.Rand) []int {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return []int{1, 0}
	case 3:
		return []int{r.PickInt(2, 3, 5, 7, 16)}
	case 4:
		return []int{r.PickInt(4095, 4096, 4097, 100, 512)}
	}
	var l []int
	for n := r.Range(1, 6); n > 0; n-- {
		l = append(l, r.PickInt(0, 1, 1, 2, 3, 10, 64, 1000))
	}
	l = append(l, 1+r.Intn(9))
	return l
}

func genDelivery(r *core.Rand) Delivery {
	return Delivery{Chunks: genChunks(r), EOFData: r.Chance(1, 4)}
}

// withFault adds a failure somewhere in n bytes.
func (d *Delivery) withFault(r *core.Rand, n int) {
	d.Err = readerErrors[r.Intn(len(readerErrors))]
	d.At = r.Intn(n + 1)
	d.WithErr = r.Chance(1, 3)
	d.Once = r.Chance(1, 3)
}

// opLog records what happened to several sources, in order.
type opLog struct {
	ops []srcOp
}

type srcOp struct {
	src  int
	what string // open, read, close
}

// simReader delivers data as planned. Everything it does is a scheduling point.
type simReader struct {
	data   []byte
	d      Delivery
	off    int
	n      int
	fired  int
	empty  int
	log    *opLog
	src    int
	closes int
	late   bool // read after Close or after the end
	tid    int
	hook   func() // called in each Read
}

func newReader(data string, d Delivery) *simReader { return &simReader{data: []byte(data), d: d} }

func (s *simReader) Read(p []byte) (int, error) {
	simrt.Yield(1<<26 + 1)
	if s.hook != nil {
		s.hook()
	}
	if s.log != nil {
		s.log.ops = append(s.log.ops, srcOp{s.src, "read"})
	}
	if s.closes > 0 {
		s.late = true
	}
	if len(p) == 0 {
		return 0, nil
	}
	fail := s.d.Err != "" && (!s.d.Once || s.fired == 0) || s.d.Panic && s.fired == 0
	if fail && s.off >= s.d.At {
		return s.boom(0)
	}
	size := len(p)
	if len(s.d.Chunks) > 0 {
		size = s.d.Chunks[s.n%len(s.d.Chunks)]
		s.n++
	}
	if size > len(p) {
		size = len(p)
	}
	if left := len(s.data) - s.off; size > left {
		size = left
	}
	if fail && s.off+size >= s.d.At {
		size = s.d.At - s.off
		if s.d.WithErr || size == 0 && len(s.data)-s.off == 0 {
			copy(p, s.data[s.off:s.off+size])
			s.off += size
			return s.boom(size)
		}
	}
	if size == 0 && s.off < len(s.data) {
		s.empty++
		return 0, nil
	}
	n := copy(p, s.data[s.off:s.off+size])
	s.off += n
	if s.off == len(s.data) && (s.d.EOFData && !fail || n == 0) {
		return n, io.EOF
	}
	return n, nil
}

func (s *simReader) boom(n int) (int, error) {
	s.fired++
	if s.d.Panic {
		panic(errSim)
	}
	return n, readerError(s.d.Err)
}

func (s *simReader) Close() error {
	simrt.Yield(1<<26 + 2)
	if s.log != nil {
		s.log.ops = append(s.log.ops, srcOp{s.src, "close"})
	}
	s.closes++
	return nil
}

// skipped is what somebody else read before.
func skipped(n int) string {
	return strings.Repeat("[skipped]\nskipped = 1\n", n/22+1)[:n]
}

// richReader offers other ways of reading the same.
type richReader struct{ *simReader }

func (s richReader) WriteTo(w io.Writer) (int64, error) { return s.writeTo(w) }

func (s richReader) Seek(off int64, whence int) (int64, error) { return s.seek(off, whence) }

func (s richReader) ReadByte() (byte, error) { return s.readByte() }

func (s richReader) Len() int { return len(s.data) - s.off }

type richOnly struct {
	onlyReader
	s *simReader
}

func (s richOnly) WriteTo(w io.Writer) (int64, error) { return s.s.writeTo(w) }

func (s richOnly) Seek(off int64, whence int) (int64, error) { return s.s.seek(off, whence) }

func (s richOnly) ReadByte() (byte, error) { return s.s.readByte() }

func (s richOnly) Len() int { return len(s.s.data) - s.s.off }

func (s *simReader) writeTo(w io.Writer) (int64, error) {
	var n int64
	buf := make([]byte, 300)
	for {
		m, err := s.Read(buf)
		if m > 0 {
			k, werr := w.Write(buf[:m])
			n += int64(k)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (s *simReader) readByte() (byte, error) {
	var b [1]byte
	for {
		n, err := s.Read(b[:])
		if n > 0 {
			if err == io.EOF {
				err = nil
			}
			return b[0], err
		}
		if err != nil {
			return 0, err
		}
	}
}

func (s *simReader) seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(s.off)
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 || off > int64(len(s.data)) {
		return int64(s.off), errSim
	}
	s.off = int(off)
	return off, nil
}

// onlyReader hides Close.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

// simWriter accepts bytes as planned.
type simWriter struct {
	plan  WriterPlan
	got   []byte
	n     int
	fired int
	hook  func()
}

// WriterPlan is how a simulated writer behaves.
type WriterPlan struct {
	Chunk int    `json:"chunk,omitempty"` // accept at most so many bytes per call and then fail
	At    int    `json:"at,omitempty"`    // fail once so many bytes were accepted
	Kind  string `json:"kind,omitempty"`  // "", error, short, panic
	Once  bool   `json:"once,omitempty"`  // accepts everything again afterwards
	Ext   string `json:"ext,omitempty"`   // which other ways of writing it offers
}

// extended returns the writer with what else it offers.
func (w *simWriter) extended() io.Writer {
	switch w.plan.Ext {
	case "string":
		return struct {
			*simWriter
			stringWriter
		}{w, stringWriter{w}}
	case "from":
		return struct {
			*simWriter
			fromWriter
		}{w, fromWriter{w}}
	case "string+from":
		return struct {
			*simWriter
			stringWriter
			fromWriter
		}{w, stringWriter{w}, fromWriter{w}}
	}
	return w
}

type stringWriter struct{ to *simWriter }

func (s stringWriter) WriteString(x string) (int, error) { return s.to.Write([]byte(x)) }

type fromWriter struct{ to *simWriter }

func (f fromWriter) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 700)
	for {
		m, err := r.Read(buf)
		if m > 0 {
			k, werr := f.to.Write(buf[:m])
			n += int64(k)
			if werr == nil && k < m {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func bigSize(r *core.Rand) int {
	return r.PickInt(5000, 33000, 40000, 65536, 66000, 100000, 131072, 200000)
}

// setBig adds a value of n bytes.
func setBig(f *ini.File, n int) {
	if n > 0 {
		f.Section("big").Key("big").SetValue(strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz-", n/37+1)[:n])
	}
}

func (w *simWriter) Write(p []byte) (int, error) {
	simrt.Yield(1<<26 + 3)
	w.n++
	if w.hook != nil {
		w.hook()
	}
	if w.plan.Kind != "" && !(w.plan.Once && w.fired > 0) && len(w.got)+len(p) > w.plan.At {
		n := w.plan.At - len(w.got)
		if n < 0 {
			n = 0
		}
		w.got = append(w.got, p[:n]...)
		w.fired++
		switch w.plan.Kind {
		case "short":
			return n, nil
		case "panic":
			panic(errSim)
		case "unexpected-eof":
			return n, io.ErrUnexpectedEOF
		case "eof":
			return n, io.EOF
		}
		return n, errSim
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// render writes f to memory.
func render(f *ini.File, indent string) (string, error) {
	var b strings.Builder
	_, err := f.WriteToIndent(&b, indent)
	return b.String(), err
}

// pretty are the package-level output settings.
type pretty struct {
	Format  bool `json:"format,omitempty"`
	Section bool `json:"section,omitempty"`
	Equal   bool `json:"equal,omitempty"`
	Header  bool `json:"header,omitempty"`
	Left    bool `json:"left,omitempty"`
}

func genPretty(r *core.Rand) pretty {
	if r.Bool() {
		return pretty{Format: true, Section: true}
	}
	return pretty{r.Bool(), r.Bool(), r.Bool(), r.Chance(1, 4), r.Chance(1, 4)}
}

// set changes the settings and returns a function that restores them.
func (p pretty) set() func() {
	f, s, e, h, l, g := ini.PrettyFormat, ini.PrettySection, ini.PrettyEqual, ini.DefaultHeader, ini.DefaultFormatLeft, ini.DefaultFormatRight
	ini.PrettyFormat, ini.PrettySection, ini.PrettyEqual, ini.DefaultHeader = p.Format, p.Section, p.Equal, p.Header
	ini.DefaultFormatLeft, ini.DefaultFormatRight = "", ""
	if p.Left {
		ini.DefaultFormatLeft, ini.DefaultFormatRight = " ", "  "
	}
	return func() {
		ini.PrettyFormat, ini.PrettySection, ini.PrettyEqual, ini.DefaultHeader, ini.DefaultFormatLeft, ini.DefaultFormatRight = f, s, e, h, l, g
	}
}

// changed tells whether the settings are no longer these.
func (p pretty) changed() string {
	now := pretty{ini.PrettyFormat, ini.PrettySection, ini.PrettyEqual, ini.DefaultHeader, p.Left}
	l, r := "", ""
	if p.Left {
		l, r = " ", "  "
	}
	if now != p || ini.DefaultFormatLeft != l || ini.DefaultFormatRight != r || ini.LineBreak != "\n" || ini.DefaultSection != "DEFAULT" {
		return fmt.Sprintf("the package's settings changed: %+v, %q, %q, %q, %q", now, ini.DefaultFormatLeft, ini.DefaultFormatRight, ini.LineBreak, ini.DefaultSection)
	}
	return ""
}

// Source is one data source of a plan.
type Source struct {
	Kind     string        `json:"kind"`           // bytes, reader, readcloser, file; some checks: buffer, strings, bufio, osfile
	Rich     bool          `json:"rich,omitempty"` // reader, readcloser: offers other ways of reading too
	Skip     int           `json:"skip,omitempty"` // so many bytes were already read by somebody else
	Delivery Delivery      `json:"delivery"`
	Faults   []simos.Fault `json:"faults,omitempty"` // file only; Path is filled in
	Missing  bool          `json:"missing,omitempty"`
	Mode     string        `json:"mode,omitempty"` // file only: "", dir, denied
}

var sourceKinds = []string{"bytes", "reader", "readcloser", "file", "file"}

func genSource(r *core.Rand) Source {
	s := Source{Kind: sourceKinds[r.Intn(len(sourceKinds))]}
	switch s.Kind {
	case "reader", "readcloser":
		s.Delivery = genDelivery(r)
		s.Rich = r.Chance(1, 4)
		if r.Chance(1, 6) {
			s.Skip = r.PickInt(1, 3, 10, 5000)
		}
	case "file":
		for r.Chance(1, 3) && len(s.Faults) < 3 {
			s.Faults = append(s.Faults, genHarmless(r))
		}
	}
	return s
}

// genHarmless draws a file fault that must not be noticed.
func genHarmless(r *core.Rand) simos.Fault {
	switch r.Intn(5) {
	case 0:
		return simos.Fault{Op: "read", Nth: r.Range(1, 4), Kind: "EINTR"}
	case 1:
		return simos.Fault{Op: "open", Nth: 1, Kind: "EINTR"}
	case 2:
		return simos.Fault{Op: "read", Nth: 1, Kind: "short", N: r.PickInt(1, 1, 2, 3, 7, 100), Sticky: true}
	}
	return simos.Fault{Op: "read", Nth: r.Range(1, 3), Kind: "short", N: r.PickInt(1, 2, 5, 50, 4095)}
}

func harmless(f simos.Fault) bool {
	return f.Kind == "EINTR" && !f.Sticky && (f.Op == "read" || f.Op == "open") || f.Kind == "short" && f.Op == "read"
}

var readErrnos = []string{"EIO", "EIO", "ESTALE", "ENXIO", "ENOMEM", "EACCES", "EISDIR", "ETIMEDOUT", "EBUSY", "ENOENT"}
var openErrnos = []string{"EACCES", "EPERM", "EIO", "EMFILE", "ENFILE", "ELOOP", "ENAMETOOLONG", "ENOTDIR", "ENOMEM", "ENXIO", "EBUSY", "ETIMEDOUT", "ESTALE"}

// genReadFault draws a file fault that must surface.
func genReadFault(r *core.Rand, n int) simos.Fault {
	if r.Chance(1, 3) {
		return simos.Fault{Op: "open", Nth: 1, Kind: openErrnos[r.Intn(len(openErrnos))]}
	}
	if r.Chance(1, 4) {
		return simos.Fault{Op: "read", Nth: 1, Kind: "part-EIO", N: 1 + r.Intn(n+1)}
	}
	return simos.Fault{Op: "read", Nth: 1 + r.Intn(n/2+2), Kind: readErrnos[r.Intn(len(readErrnos))], Sticky: r.Bool()}
}

func srcPath(i int) string { return fmt.Sprintf("/simfs/src%d.ini", i) }

// source makes the value to pass to a Load function and puts files in place.
type liveSource struct {
	plan   Source
	reader *simReader
	bytes  []byte
	text   string
	path   string

	malformed bool
}

func (s *liveSource) arg() interface{} {
	switch s.plan.Kind {
	case "bytes":
		return s.bytes
	case "reader":
		if s.plan.Rich {
			return richOnly{onlyReader{s.reader}, s.reader}
		}
		return onlyReader{s.reader}
	case "readcloser":
		if s.plan.Rich {
			return richReader{s.reader}
		}
		return s.reader
	case "buffer":
		b := bytes.NewBufferString(skipped(s.plan.Skip) + s.text)
		b.Next(s.plan.Skip)
		return b
	case "strings":
		b := strings.NewReader(skipped(s.plan.Skip) + s.text)
		_, _ = b.Seek(int64(s.plan.Skip), io.SeekStart)
		return b
	case "bufio":
		b := bufio.NewReaderSize(strings.NewReader(skipped(s.plan.Skip)+s.text), 16+s.plan.Skip)
		_, _ = b.Discard(s.plan.Skip)
		return b
	case "osfile":
		f, err := os.Open(s.path)
		if err != nil {
			panic(err)
		}
		_, _ = f.Seek(int64(s.plan.Skip), io.SeekStart)
		return f
	}
	return s.path
}

// open makes the source number i available; faults of all files have to be armed by the caller.
func openSource(k *simos.Kernel, i int, s Source, text string, log *opLog) (*liveSource, []simos.Fault) {
	l := &liveSource{plan: s, text: text}
	switch s.Kind {
	case "bytes":
		l.bytes = []byte(text)
	case "reader", "readcloser":
		l.reader = newReader(skipped(s.Skip)+text, s.Delivery)
		l.reader.off = s.Skip
		l.reader.d.At += s.Skip
		l.reader.log, l.reader.src = log, i
	case "buffer", "strings", "bufio":
	case "osfile":
		l.path = srcPath(i)
		k.Put(l.path, []byte(skipped(s.Skip)+text))
	default:
		l.path = srcPath(i)
		if !s.Missing {
			switch s.Mode {
			case "dir":
				k.Mkdir(l.path)
			default:
				k.Put(l.path, []byte(text))
				if s.Mode == "denied" {
					k.SetMode(l.path, 0)
				}
			}
		}
	}
	var fl []simos.Fault
	for _, f := range s.Faults {
		f.Path = l.path
		fl = append(fl, f)
	}
	return l, fl
}

// valid checks what a plan may say about a source.
func (s *Source) valid() bool {
	if s.Skip < 0 || s.Skip > 10000 || s.Kind == "bytes" && s.Skip+len(s.Mode) > 0 || s.Kind == "file" && s.Skip > 0 {
		return false
	}
	switch s.Kind {
	case "buffer", "strings", "bufio":
		return len(s.Faults) == 0 && !s.Missing && s.Mode == ""
	case "osfile":
		for _, f := range s.Faults {
			if f.Nth < 1 || f.N < 0 || !harmless(f) || f.Op != "read" {
				return false
			}
		}
		return !s.Missing && s.Mode == ""
	case "bytes", "reader", "readcloser":
		return len(s.Faults) == 0 && !s.Missing && s.Mode == "" && s.Delivery.ok()
	case "file":
		for _, f := range s.Faults {
			if f.Nth < 1 || f.N < 0 {
				return false
			}
		}
		return s.Mode == "" || s.Mode == "dir" || s.Mode == "denied"
	}
	return false
}

// countFaults notes which faults of the kernel fired.
func countFaults(t *core.T, k *simos.Kernel) {
	for f, n := range k.Fired {
		t.Fault(f, n)
	}
}

func countReader(t *core.T, r *simReader) {
	if r == nil {
		return
	}
	t.Fault("reader:empty-read", r.empty)
	if r.d.Panic {
		t.Fault("reader:panic", r.fired)
	} else if r.d.Err != "" {
		t.Fault("reader:"+r.d.Err, r.fired)
	}
	if r.d.EOFData {
		t.Probe("reader:eof-with-data")
	}
}

func loadAll(o ref.Opts, args []interface{}) (*ini.File, error) {
	return ini.LoadSources(o.Load(), args[0], args[1:]...)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "..." + s[len(s)-n/2:]
	}
	return s
}

// damage changes stored bytes as failing media do.
type Damage struct {
	Kind string   `json:"kind"` // flip, set, drop, zero, dup, trunc, insert, torn
	At   int      `json:"at"`
	N    int      `json:"n,omitempty"`
	Data core.Bin `json:"data,omitempty"`
}

var damageTokens = []string{"\"\"\"", "`", "\"", "'", "[", "]", "\\", "\\\n", "\n", "\r\n", "\r", "=", ":", "#", ";", " ", "\t", "-", "\x00", "\xff", "\xef\xbb\xbf", "\xfe\xff", "\n ", "\n\t", "[]", "[s]", "-=", "\"\"\"\"\"\"", "=\n", "\v", "\f", "\u0085", "\u00a0", "\u2028", "k=", "[raw]", "%(k)s", "%(a)s", "%(", ")s"}

// junkLines draws lines that are put together from the parts lines have, with no regard for
// what may follow what.
func junkLines(r *core.Rand) string {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	var b strings.Builder
	for n := r.Range(1, 12); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			b.WriteString(pick("", " ", "\t", "\f", "# c", ";", "#", "[", "]", "[s1", "[s1]", "[]", "[a.b] ; c", "[raw]", "[DEFAULT]", "[s1]]", "[.]", "[..a]", "\\"))
		case 1:
			b.WriteString(pick(" ", "\t", "  ", "\f") + pick("v", "\\", "\"\"\"", "`", "k=v", "# x", "", "-"))
		default:
			b.WriteString(pick("", "", "", " ", "\t"))
			b.WriteString(pick("k", "k", "a", "-", "`k", "`k`", "\"k\"", "\"k", "\"\"\"k\"\"\"", "\"\"\"", "\"\"\"k", "\"\"", "``", "", "k k", "\\"))
			b.WriteString(pick("=", "=", "=", " = ", ":", "", "==", "->"))
			b.WriteString(pick("", "", " ", "\"", "'", "`", "\"\"\"", "\"\"", "''", "\\"))
			b.WriteString(pick("", "", "v", "a, b", "1", "%(", "%(k)s", "%(a)s", "\\\"", "a\\", "#", " # c", ";c", " ; c", "\\#", "\\;", "\u00a0", "\x00"))
			b.WriteString(pick("", "", "", "\"", "'", "`", "\"\"\"", "\\", "\\", "\\ ", " "))
		}
		b.WriteString(pick("\n", "\n", "\n", "\r\n", "\n\n", "\r", ""))
	}
	return b.String()
}

func genDamage(r *core.Rand, n int) Damage {
	d := Damage{At: r.Intn(n + 1)}
	switch r.Intn(9) {
	case 0:
		d.Kind, d.N = "flip", r.Intn(8)
	case 1:
		d.Kind, d.N = "set", r.Intn(256)
	case 2:
		d.Kind, d.N = "drop", 1+r.Small(12)*r.Range(1, 6)
	case 3:
		d.Kind, d.N = "zero", 1+r.Small(12)*r.Range(1, 6)
	case 4:
		d.Kind, d.N = "dup", 1+r.Small(12)*r.Range(1, 6)
	case 5:
		d.Kind = "trunc"
	default:
		d.Kind = "insert"
		d.Data = core.Bin(damageTokens[r.Intn(len(damageTokens))])
	}
	return d
}

func (d Damage) apply(b []byte) []byte {
	at := d.At
	if at > len(b) || at < 0 {
		at = len(b)
	}
	end := at + d.N
	if end > len(b) || end < at {
		end = len(b)
	}
	var out []byte
	switch d.Kind {
	case "flip":
		out = append(out, b...)
		if at < len(b) {
			out[at] ^= 1 << uint(d.N&7)
		}
	case "set":
		out = append(out, b...)
		if at < len(b) {
			out[at] = byte(d.N)
		}
	case "drop":
		out = append(append(out, b[:at]...), b[end:]...)
	case "zero":
		out = append(out, b...)
		for i := at; i < end; i++ {
			out[i] = 0
		}
	case "dup":
		out = append(append(append(out, b[:end]...), b[at:end]...), b[end:]...)
	case "trunc":
		out = append(out, b[:at]...)
	case "insert":
		out = append(append(append(out, b[:at]...), d.Data...), b[at:]...)
	default:
		out = b
	}
	return out
}

func equalOpts(a, b ref.Opts) bool { return reflect.DeepEqual(a, b) }
