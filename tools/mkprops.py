#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the list is edited here; the output is committed).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","A loaded File does not depend on how its source delivers the bytes",
"Loading a well-formed document yields exactly its sections, keys, values, shadow and nested values, raw bodies and comments, in document order, however the source hands over the bytes: byte slice, file name, reader or read-closer, in reads of any size (single bytes, empty reads, interrupted system calls, last bytes together with EOF). It holds for any reader buffer size, for lines and multi-line values of any length, under every combination of load options, with or without byte-order mark, with LF or CRLF line ends, and with or without a final newline. A malformed document is rejected, or accepted with the same content, alike under every delivery.",
["inputs","fault_sequences","configurations"],
"every well-formed document, every load option set, every partition of its bytes into reads (including empty, short and interrupted ones) and every kind of source",
"The tests load small documents from byte slices and files whose reads return everything at once; they never split a line, a quote, a continuation or a BOM across reads, and one 9 kB multi-line file is the only one above the 4 kB read buffer.",
["parser.go","data_source.go","ini.go"],
[("buffered line reader and BOM peek","parser.go newParser, BOM, readUntil"),("value readers that consume further lines","parser.go readMultilines, readContinuationLines, readPythonMultilines"),("source kinds","data_source.go parseDataSource")],
["File content through the public accessors after LoadSources"])

p("C02","A failed read or open is never taken for the end of a document",
"If opening or reading any source fails at any byte (once or persistently, with or without bytes delivered along with the error, at any depth of a multi-line value), or is of a type that cannot be read, every Load variant returns an error and no File, and the package-level MapTo and StrictMapTo variants return an error and leave the target struct as it was. The only failure that may be passed over is a nonexistent file in loose mode. (A reader that reports its failure as io.EOF has, by Go's convention, ended.)",
["fault_sequences","inputs","configurations"],
"every document, every load option set, every position and kind of read or open failure in any of the sources",
"The tests have two failing readers that fail on the very first read; no test fails a read in the middle of a document, a value or a later source.",
["parser.go","file.go","ini.go","struct.go"],
[("error propagation from the line reader","parser.go readUntil, BOM, readPythonMultilines, parse"),("load and reload error paths","ini.go LoadSources, file.go reload, Reload"),("map helpers load before mapping","struct.go MapToWithMapper, StrictMapToWithMapper")],
["return values of Load*, MapTo*","the target struct"])

p("C03","Sources are opened once, read in order and closed exactly once",
"Every load or reload opens each file source it reaches once, reads the sources one after the other in the given order, closes every source it opened exactly once and never reads it afterwards, and leaves no file descriptor open: also when parsing fails, a read fails or a reader panics. Sources after a failure or after a short-circuit are not touched, and byte slices supplied by the caller are never modified.",
["fault_sequences","inputs","histories"],
"every list of sources of mixed kinds, well-formed or malformed, with any read, open or parse failure or reader panic at any point",
"Tests look at the parsed content only; none counts opens and closes, and descriptors leaked on an error path are invisible to them.",
["file.go","data_source.go","ini.go"],
[("deferred close per source","file.go reload"),("sources applied in order","file.go Reload"),("source wrappers","data_source.go")],
["open, read and close calls on readers and on the simulated kernel's descriptor table"])

p("C04","Sources merge in order, and only a missing file may be skipped",
"Loading several sources yields the content obtained by applying them in the given order: sections and keys keep first-seen order and the last definition of a key wins. A file that does not exist is an error unless loose loading is on, in which case it contributes nothing; every other failure to open or read a source (permission, I/O error, directory, too many open files) is an error in both modes; with short-circuit on, exactly the first available source contributes. (Repeated sections that are kept apart do not merge and are left out here.)",
["inputs","fault_sequences","configurations"],
"every list of up to six sources of mixed kinds with every assignment of availability faults, with and without Loose, ShortCircuit and case-insensitive names",
"Tests cover one missing file and one short-circuit case; combinations of availability faults, orders and options are untested.",
["file.go","ini.go","data_source.go"],
[("loose and short-circuit handling","file.go Reload"),("override on redefinition","section.go NewKey, file.go NewSection")],
["result of LoadSources, LooseLoad, Load"])

p("C05","Reload and Append converge to what the sources hold",
"After any history of source edits, deletions and failed or successful reloads, a successful Reload or Append of file and byte-slice sources leaves every key that a source defines with the value of the last source defining it, keeps keys and sections no source defines as they were, and does not reorder existing ones. A reload that fails midway leaves every key at its previous value or at a value some source defines, and a later reload without faults converges all the same; reloading unchanged sources changes nothing. (The options under which a definition adds instead of replacing - nested values, raw bodies, non-unique sections, duplicate shadows - do not converge; what fails there is recorded as known findings.)",
["histories","fault_sequences"],
"every history of source-file edits, in-memory edits, Append and Reload calls with open and read faults at any point",
"Tests reload once, from unchanged in-memory sources and without faults.",
["file.go","parser.go","section.go"],
[("reload of all data sources","file.go Reload, Append"),("merge into existing sections and keys","file.go NewSection, section.go NewKey")],
["File content after each Reload or Append"],
[("dataSources","ordered list of sources re-read by every reload","file.go File")])

p("C06","Damaged input never crashes or hangs the process",
"Whatever bytes a stored document has been damaged into (flipped bits, lost, zeroed or duplicated ranges, a torn mixture of two versions, truncation at any point), loading it under any load options returns a File or an error within a bounded number of steps. Every lookup, enumeration, typed or list read, struct mapping and save of a File obtained that way completes without a panic as well, lists being read with any non-empty delimiter and structs being of types that do not contain themselves.",
["inputs","fault_sequences","configurations"],
"every saved document, every load option set and every combination of up to a few storage faults (bit flip, truncation, zeroed, lost, repeated or mixed blocks); variable references excluded",
"Tests load about ten hand-written malformed inputs; the space of damaged files and of option combinations is not sampled at all.",
["parser.go","key.go","struct.go","file.go"],
[("length and quote checks in the parser","parser.go readKeyName, readValue, hasSurroundedQuote"),("typed and list readers","key.go Strings, doParse"),("mapping by reflection","struct.go setWithProperType")],
["panics and step counts of load, reads, mapping and save"])

p("C07","WriteTo reports exactly what reached the writer",
"WriteTo and WriteToIndent return no error only if the writer accepted the complete rendering of the File byte for byte; the returned count is the number of bytes the writer accepted, and a writer that fails, accepts fewer bytes or panics at any point has received at most a prefix of the rendering. A failed write leaves the File unchanged, and the next write to a healthy writer delivers the complete rendering again. (Writers that return counts no io.Writer may return are left out.)",
["fault_sequences","inputs","histories"],
"every File content, indent and format setting, and every sequence of short writes, write errors (with or without bytes accepted) and panics of the writer",
"Tests write to in-memory buffers that never fail.",
["file.go"],
[("encode to a buffer, then hand over","file.go writeToBuffer, WriteToIndent, WriteTo")],
["bytes received by the writer, returned count and error"])

p("C08","SaveTo succeeds only if the file holds exactly the rendering",
"SaveTo and SaveToIndent return nil only if the target file then holds exactly the bytes WriteTo produces, whatever it held before; every failure to create, write or close it (no space, I/O error, permission, interrupted or short write) is returned as an error or recovered from. If a save fails, or the process dies at any point of it, the file is left absent if it did not exist, or with its old content or a prefix of the new content, never a mixture; other existing files are untouched, and the save can be repeated once the fault is gone.",
["crash_points","fault_sequences","histories"],
"every history of edits and saves over existing longer or shorter files, with a fault or process crash at any system call of the save",
"Tests save to a healthy disk; no test makes a system call fail or dies between two of them.",
["file.go"],
[("render completely before touching the file, then truncate and write","file.go SaveToIndent")],
["content of the simulated disk, return value of SaveTo"])

p("C09","What was saved is what loads back after a restart",
"After any history of edits, saves, failed saves and process crashes, loading the last successfully saved file yields the sections and keys, in order, with the values, shadow values, nested values, boolean and auto-increment keys and comments the File had when it was saved, and saving the loaded File writes the same bytes again. It holds under every PrettyFormat, PrettySection, PrettyEqual and DefaultHeader setting, indent and comparable load options, for one-line key names without surrounding blanks that are not a lone dash, do not begin like a comment, header or quote and do not combine a backquote with a delimiter or double quote, and for all values, quotes, backslashes, comment symbols, blanks and line feeds included, other than those mixing a run of three double quotes with a line feed or a backquote. Nested values are one-line and stand under keys without a value, shadow values are not empty and not those of a boolean key, comments may gain or lose the blank after their symbol, and the delimiter written has to be one that is parsed.",
["histories","crash_points","fault_sequences","inputs","configurations"],
"every history of edits, saves, save faults and crashes followed by a restart, over the stated names and values and format settings",
"Tests compare one rendering with a golden file and round-trip a few friendly values.",
["file.go","parser.go","key.go"],
[("quoting on save","file.go writeToBuffer"),("unquoting on load","parser.go readValue, readKeyName")],
["File content after restart compared with content at the acknowledged save"])

p("C10","A struct that was reflected and saved maps back unchanged after a restart",
"A struct reflected into a File and saved, then loaded in a new process and mapped into a zero struct, strictly or not, comes back equal: for fields of type string, bool, signed and unsigned integer, float, duration, time (to the second), slices of these, pointers to these, nested, embedded and pointed-to structs, and repeated sections, under name mappers, key tags and list delimiters. Fields that are nil, empty or omitted come back as zero values when the File was fresh (when not, what is omitted keeps what was there), and neither direction panics; failed saves and crashes in between do not change what the last acknowledged save yields.",
["histories","inputs","crash_points","fault_sequences"],
"every value of the supported field types (strings without variable references; list elements non-empty, trimmed, without delimiter characters or backslashes, distinct where they become shadow values; repeated sections non-empty, of plain fields and not there before; child sections leaving out no key that their parent section has; uint8 and StructReflector left out) and every history of reflect, save, fault, crash and restart",
"Tests map and reflect one hand-written struct each and never send it through a file that faults or a restart.",
["struct.go","file.go","parser.go","key.go"],
[("reflection out","struct.go reflectFrom, reflectWithProperType, reflectSliceWithProperType"),("mapping in","struct.go mapToField, setWithProperType, setSliceWithProperType")],
["struct after MapTo or StrictMapTo compared with the struct reflected"])

p("C11","Concurrent section and key operations are linearizable",
"With block mode on (the default), operations by several goroutines on one File (creating, getting, get-or-creating, testing and deleting sections and keys, and reading, searching, setting, default-storing and shadowing key values) behave as if each took effect atomically at one moment between its call and its return. No update is lost, a get-or-create never discards what another goroutine stored, and creators of the same name end up with the same object. (Calls made up of several such steps - fallback from child to parent section, expanding references, creating several sections, boolean keys or raw sections, mapping - are sequences of them; with repeated sections this covers creating, listing, get-or-create by name, and deleting by index.)",
["schedules","histories"],
"every interleaving, at statement granularity, of up to four goroutines performing up to about eight operations each on shared names",
"The tests are single-threaded; not one starts a goroutine.",
["file.go","section.go","key.go"],
[("file-wide read-write lock","file.go File.lock"),("locked accessors","file.go NewSection, SectionsByName, DeleteSectionWithIndex; section.go NewKey, GetKey, DeleteKey, KeysHash; key.go SetValue")],
["call and return of each operation with results; final content"],
[("lock","guards section and key tables when BlockMode is on","file.go File")])

p("C12","Enumerations and saves see the File at a single moment",
"With block mode on, every SectionStrings, Sections, SectionsByName, ChildSections, KeyStrings, Keys and KeysHash call and every rendering by WriteTo or SaveTo returns the content the File had at one moment between its call and return, whatever other goroutines create, change or delete meanwhile; when goroutines save one File to the same path, that path ends up with the latest of those renderings. (The exception is File.ChildSections on a section that does not exist yet, which first creates it.) Such a call never misses, repeats or resurrects an entry, never mixes two states, and never panics.",
["schedules","histories"],
"every interleaving, at statement granularity, of enumerating or saving goroutines with mutating ones",
"The tests never enumerate or save while another goroutine mutates.",
["file.go","section.go"],
[("locking around list copies and rendering","file.go Sections, SectionStrings, writeToBuffer; section.go Keys, KeyStrings, KeysHash, ChildSections")],
["returned lists and rendered bytes against a linearized history"])

p("C13","Readers during a hot reload see old or new values, nothing else",
"While one goroutine reloads a File in block mode, concurrent readers always find the sections and keys that both the old and new source content define, and for keys defined by exactly one source they get the complete old or the complete new value, never falling back to the old one after having seen the new one. Once a reload has returned successfully every reader sees only new values, however slowly the sources deliver, and also when a reload failed midway and was retried. Sections and keys that no source defines stay as the goroutines that own them leave them: what they store, create and delete there while reloads run is what they find. (Each version defines such a key once; auto-numbered keys and the options under which definitions add instead of replacing are left out.)",
["schedules","fault_sequences","histories"],
"every interleaving of readers with a reload of changed files, with reads of any size, read faults and retries",
"The tests reload with nobody reading.",
["file.go","parser.go","section.go","key.go"],
[("in-place update of existing keys under the lock","file.go Reload; parser.go parse; section.go NewKey")],
["values returned to readers in each interleaving"])

p("C14","Block mode makes a File free of data races",
"With block mode on, no combination of concurrent File, Section and Key method calls on one File performs conflicting unsynchronised memory accesses: lookups, enumerations, creations, deletions, value reads and writes of every type, shadow and nested values, raw bodies, mapping to structs, saving, reloading and appending. (Reading or writing exported fields directly and reflecting from structs while other goroutines use the File are outside this guarantee.)",
["schedules"],
"every interleaving of up to four goroutines over every pair of those methods",
"CI runs the tests under the race detector, but no test uses two goroutines, so it cannot report anything.",
["file.go","section.go","key.go","parser.go"],
[("file-wide read-write lock taken by accessors","file.go, section.go, key.go")],
["happens-before race detection over simulated schedules"])

p("C15","Reading never modifies a File, so concurrent reads need no lock",
"With block mode off, any number of goroutines may at the same time look up, enumerate, search, convert (without storing defaults), expand, map to structs and save one loaded File, naming entries that exist where the call would create them: there is no data race, every call returns what it returns when run alone, and content, order and rendering of the File are unchanged afterwards.",
["schedules","inputs"],
"every loaded File, and every interleaving of up to four goroutines of read-only calls",
"The tests never read from two goroutines and do not compare the File before and after reads.",
["file.go","section.go","key.go","struct.go"],
[("read paths free of writes","section.go GetKey, Keys, HasValue; key.go String, Strings, typed getters; file.go writeToBuffer; struct.go mapToField")],
["results of reads, state before and after, race detection"])

p("C16","Files do not influence each other",
"Loading, editing, mapping, reflecting and saving one File have the same results whether or not other goroutines work on other Files at the same time, in every interleaving and without data races, including Files loaded from the same byte slice, the same file or the same options, and structs of the same type or value mapped and reflected under different name mappers.",
["schedules","inputs"],
"every interleaving of up to four goroutines each running its own load-edit-map-save session",
"The tests run one File at a time; package-level state shared between Files would go unnoticed.",
["parser.go","file.go","key.go","struct.go","ini.go"],
[("no mutable package state on load, read and save paths","parser.go newParser, file.go newFile, writeToBuffer")],
["results of each session compared with the same session run alone; race detection"])

p("C17","No schedule and no misbehaving callback can wedge a File",
"In every interleaving each call on a File in block mode returns within a bounded number of steps: there is no deadlock and no livelock, also when value mappers, name mappers, validators, debug functions, struct reflectors, readers and writers supplied by the user call back into the same File (finitely often). If such a callback panics, the panic reaches its caller and the File stays fully usable for every goroutine.",
["schedules","fault_sequences"],
"every interleaving of up to four goroutines whose callbacks re-enter the File or panic at any invocation",
"The tests call single-threaded with callbacks that neither re-enter nor panic.",
["file.go","section.go","key.go","struct.go","parser.go"],
[("no lock held while user code runs; deferred unlocks","key.go transformValue; file.go WriteToIndent, reload; section.go; struct.go reflectFrom")],
["completion of every call; a probe write after each run"])

p("C18","All views of a File agree after any history",
"After any sequence of loads, edits, deletions, re-creations, default-storing reads, failed saves and reloads, interleaved among any number of clients, the section list, section lookups, key list, key lookups (with fallback to parent sections), key hash, value search, child-section lists and the saved rendering all describe the same content: that of an ordered collection of sections holding ordered keys on which the same operations were carried out. This includes case-insensitive names, repeated sections addressed by index, shadow keys, and handles or lists obtained before their section or key was deleted.",
["histories","configurations","fault_sequences"],
"every history of up to some forty operations under every combination of the case, uniqueness, shadow and delimiter options",
"Tests check each accessor after two or three operations on a fresh File; stale indexes, hashes and lists after longer histories are not reached.",
["file.go","section.go","key.go"],
[("parallel structures kept in step","file.go sectionList, sectionIndexes, sections; section.go keys, keyList, keysHash")],
["all accessors compared with a reference model after every operation"],
[("sectionList/sectionIndexes/sections","order, per-name index and storage of sections","file.go File"),("keyList/keys/keysHash","order, storage and value hash of keys","section.go Section")])

p("C19","Typed reads convert values exactly as documented",
"Bool, integer, float, duration and time reads, their list, Must, In and Range forms return the value the text denotes under Go's literal syntax, or the documented default, zero or error when it does not parse or is out of range.",
["inputs"],"every value text, type, delimiter, default, candidate list and range",
"The tests convert a few dozen literals per type.",
["key.go"],[("conversions over strconv and time","key.go parseBool, Int, Float64, doParse and the Must, In, Range families")],["returned values"])

p("C20","Variable references expand to the referenced values and terminate",
"Reading a value replaces each %(name)s by the value of that key in the same section, else in the default section, recursively up to a fixed depth, leaves unresolvable references as they are, and finishes in time and memory proportional to the result a user could intend, also for cyclic references.",
["inputs"],"every set of key values containing references",
"The tests expand short, acyclic chains and one simple cycle.",
["key.go"],[("bounded substitution loop","key.go transformValue")],["result of String"])

p("C21","Struct tags and name mappers select exactly the documented keys",
"Mapping assigns to each field the key or section its tag, or else the name mapper, or else its own name selects, honours the omit, shadow, non-unique and extends options, keeps preset defaults when a value is absent or (when not strict) malformed, and reports malformed values when strict.",
["inputs","configurations"],"every struct type, tag, name mapper and document",
"The tests use a handful of struct types.",
["struct.go"],[("tag parsing and field selection","struct.go parseTagOptions, parseFieldName, mapToField")],["struct after MapTo"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
