// Package c25: reading quads.
package c25

import (
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// file is an input that can fail.
type file struct {
	data  string
	pos   int
	chunk int // most bytes per read
	reads int
	fail  int // the read that fails, from 1
	seeks int
	bad   int // the seek that fails, from 1
	eof   bool
}

var errFile = errors.New("input/output error")

func (f *file) Read(p []byte) (int, error) {
	f.reads++
	if f.reads == f.fail {
		return 0, errFile
	}
	if f.pos == len(f.data) {
		return 0, io.EOF
	}
	n := min(len(p), len(f.data)-f.pos)
	if f.chunk > 0 {
		n = min(n, f.chunk)
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.eof && f.pos == len(f.data) {
		return n, io.EOF
	}
	return n, nil
}

func (f *file) Seek(offset int64, whence int) (int64, error) {
	f.seeks++
	if f.seeks == f.bad {
		return 0, errFile
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		offset += int64(f.pos)
	case io.SeekEnd:
		offset += int64(len(f.data))
	}
	if offset < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = min(int(offset), len(f.data))
	return offset, nil
}

const xsd = "http://www.w3.org/2001/XMLSchema#"

// types are datatypes of literals, most of which are known to the parser, with a text that it would convert.
var types = [][2]string{
	{xsd + "string", "x"}, {xsd + "integer", "012"}, {xsd + "int", "+1"}, {xsd + "boolean", "1"},
	{xsd + "double", "1.10"}, {xsd + "float", "1e0"}, {xsd + "dateTime", "2020-01-01T00:00:00Z"},
	{xsd + "date", "2020-01-01"}, {"http://schema.org/Integer", "007"}, {"http://t/t", "1999"},
}

// letters are characters of identifiers.
const letters = "abcXYZ019"

// escapes are characters as they can be written in literals.
var escapes = [][2]string{{`\"`, `"`}, {`\\`, `\`}, {`\n`, "\n"}, {`\r`, "\r"}, {`\t`, "\t"}, {`\u00e9`, "é"}, {`\U0001F600`, "\U0001F600"}, {"é", "é"}, {"", ""}}

// plain is a text of any ASCII characters that literals may have as they are.
func plain(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < len(s); i++ {
		c := s[i]
		sym.Assume(sym.And(sym.And(c != '"', c != '\\'), sym.And(sym.And(c != '\n', c != '\r'), sym.And(c < 0x80, c > 0))))
	}
	return s
}

// quad makes a statement and the token it is to become.
func quad(i int, small bool) (string, sparkl.Token) {
	name := func(s string) string { return s + strconv.Itoa(i) }
	var t sparkl.Token
	line := ""
	s, p := sym.Alpha(name("subject"), 1, letters), sym.Alpha(name("predicate"), 1, letters)
	if sym.Bool(name("blank")) {
		line, t.Subject = "_:"+s, impl.Label(s)
	} else {
		line, t.Subject = "<http://s/"+s+">", impl.Label("http://s/"+s)
	}
	line += " <" + p + "> "
	t.Predicate = impl.Label(p)
	kinds := 6
	if small {
		kinds = 4
	}
	switch sym.Choose(name("object"), kinds) {
	case 0:
		o := sym.Alpha(name("node"), 1, letters)
		line, t.Object = line+"<"+o+">", impl.Label(o)
	case 1:
		o := sym.Alpha(name("node"), 1, letters)
		line, t.Object = line+"_:"+o, impl.Label(o)
	case 2:
		v := plain(name("text"), 1)
		sym.Assume(v[0] != '@') // see H_Ambiguous
		l := sym.Alpha(name("lang"), 2, "abcdefghijklmnopqrstuvwxyz")
		line += `"` + v + `"@` + l
		t.HasDatum, t.Datum, t.Language = true, impl.Datum(v), impl.Language(l)
	case 3:
		v := plain(name("text"), 1)
		e := escapes[len(escapes)-1]
		if !small {
			e = escapes[sym.Choose(name("escape"), len(escapes))]
		}
		line += `"` + v + e[0] + `"`
		t.HasDatum, t.Datum = true, impl.Datum(v+e[1])
	case 4:
		k := types[sym.Choose(name("type"), len(types))]
		v := k[1]
		if sym.Bool(name("odd")) {
			v = plain(name("text"), 1)
		}
		line += `"` + v + `"^^<` + k[0] + ">"
		t.HasDatum, t.Datum = true, impl.Datum(v)
	case 5:
		line += `""`
		t.HasDatum = true
	}
	return line, t
}

func same(got, want sparkl.Token) {
	sym.Assert(got.Err == nil, "a statement is no error")
	sym.Assert(got.Subject == want.Subject && got.Predicate == want.Predicate, "a token has the subject and predicate of the statement")
	sym.Assert(got.HasDatum == want.HasDatum, "a token has a node exactly when the object is one")
	sym.Assert(got.Object == want.Object, "a token has the object of the statement")
	sym.Assert(got.Datum == want.Datum, "a token has the text of the literal")
	sym.Assert(got.Language == want.Language, "a token has the language of the literal")
}

// H_Statements: every kind of statement.
// Bounds: one statement of every kind, with symbolic letters in identifiers, one arbitrary ASCII character and one of the escapes in literals, ten datatypes with texts a parser might convert or any one character; with and without a graph.
//
//gosym:time=150
func H_Statements() {
	line, want := quad(0, false)
	line += []string{" .", " <http://g> .", " _:g ."}[sym.Choose("graph", 3)] + "\n"
	qs := &sparkl.QuadSource{Reader: &file{data: line}}
	sym.Assert(qs.Open() == nil, "the source can be opened")
	same(qs.Next(), want)
	sym.Assert(qs.Next().Err == io.EOF, "the end is reported")
	sym.Assert(qs.Close() == nil, "the source can be closed")
	sym.Cover("read")
}

// H_Files: statements of a file, twice.
// Bounds: files of 0 to 2 statements, the first of 4 kinds,, with empty lines, comments and both kinds of line ends between them, the last line with or without an end; read byte by byte or at once (in the thorough tier with the end reported early, too); then reopened and read again.
//
//gosym:time=150
func H_Files() {
	n := sym.Choose("statements", 3)
	data := ""
	var want []sparkl.Token
	for i := 0; i < n; i++ {
		var line string
		var t sparkl.Token
		if i == 0 {
			line, t = quad(i, true)
		} else {
			s := sym.Alpha("next"+strconv.Itoa(i), 1, letters)
			line, t = "<"+s+"> <q> \""+s+"\"", sparkl.Token{Subject: impl.Label(s), Predicate: "q", HasDatum: true, Datum: impl.Datum(s)}
		}
		want = append(want, t)
		end := "\n"
		if i == n-1 {
			end = []string{"\n", "", "\r\n", "\n\n"}[sym.Choose("last", 4)]
		} else {
			end = []string{"\n", "\r\n", "\n\n", "\n# <a> <b> <c> .\n", " # comment\n"}[sym.Choose("end", 5)]
		}
		data += line + " ." + end
	}
	f := &file{data: data, chunk: []int{0, 1}[sym.Choose("chunk", 2)], eof: sym.Tier() == 1 && sym.Bool("early end")}
	qs := &sparkl.QuadSource{Reader: f}
	for round := 0; round < 2; round++ {
		sym.Assert(qs.Open() == nil, "the source can be opened")
		for _, w := range want {
			same(qs.Next(), w)
		}
		sym.Assert(qs.Next().Err == io.EOF, "the end is reported")
		sym.Assert(qs.Next().Err == io.EOF, "the end stays")
	}
	sym.Assert(qs.Close() == nil, "the source can be closed")
	sym.Cover("read")
}

// prefixes are of IRIs that look abbreviated, or could be.
var prefixes = []string{"rdf:", "rdfs:", "xsd:", "schema:", "owl:", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://www.w3.org/2000/01/rdf-schema#", xsd, "http://schema.org/", "HTTP://h/%2", ":", "_:", "a/../", "é"}

// iri is any IRI with one of the prefixes.
func iri(name string) string {
	s := prefixes[sym.Choose(name+" prefix", len(prefixes))] + sym.String(name, 1)
	c := s[len(s)-1]
	ok := sym.And(c > ' ', c < 0x7f)
	for _, b := range []byte("<>\"{}|^`\\") {
		ok = sym.And(ok, c != b)
	}
	sym.Assume(ok)
	return s
}

// H_IRIs: identifiers stay as they are written.
// Bounds: an IRI with one of 14 prefixes that are or look like known vocabularies, abbreviations, blank nodes or relative ones, ending in any ASCII character an IRI may have, as subject, predicate and object, and as the type of a literal.
//
//gosym:time=60
func H_IRIs() {
	i := iri("iri")
	want := []sparkl.Token{
		{Subject: impl.Label(i), Predicate: "p", Object: "o"},
		{Subject: "s", Predicate: impl.Label(i), Object: impl.Label(i)},
		{Subject: "s", Predicate: impl.Label(i), HasDatum: true, Datum: "t"},
		{Subject: "s", Predicate: "p", HasDatum: true, Datum: impl.Datum("t")},
	}
	b := "<" + i + ">"
	data := b + " <p> <o> .\n<s> " + b + " " + b + " .\n<s> " + b + " \"t\" .\n<s> <p> \"t\"^^" + b + " " + b + " .\n"
	qs := &sparkl.QuadSource{Reader: &file{data: data}}
	sym.Assert(qs.Open() == nil, "the source can be opened")
	for _, w := range want {
		same(qs.Next(), w)
	}
	sym.Assert(qs.Next().Err == io.EOF, "the end is reported")
	sym.Assert(qs.Close() == nil, "the source can be closed")
	sym.Cover("read")
}

// H_Faults: the input fails, or is malformed.
// Bounds: two statements with symbolic letters, read in pieces of 8 bytes; any one read fails, or the seek of a reopening; or a malformed line of seven kinds before, between or after them.
//
//gosym:time=100
func H_Faults() {
	s, o := sym.Alpha("subject", 1, letters), sym.Alpha("object", 1, letters)
	lines := []string{"<" + s + "> <p> <" + o + "> .\n", "<" + o + "> <p> \"" + s + "\" .\n"}
	want := []sparkl.Token{{Subject: impl.Label(s), Predicate: "p", Object: impl.Label(o)}, {Subject: impl.Label(o), Predicate: "p", HasDatum: true, Datum: impl.Datum(s)}}
	switch sym.Choose("fault", 3) {
	case 0:
		f := &file{data: lines[0] + lines[1], chunk: 8}
		f.fail = 1 + sym.Choose("read", (len(f.data)+7)/8+1)
		qs := &sparkl.QuadSource{Reader: f}
		sym.Assert(qs.Open() == nil, "the source can be opened")
		for i := 0; ; i++ {
			t := qs.Next()
			if t.Err != nil {
				sym.Assert(t.Err != io.EOF, "a failure is not the end")
				break
			}
			sym.Assert(i < len(want), "nothing is made up")
			same(t, want[i])
		}
		sym.Cover("read")
	case 1:
		f := &file{data: lines[0] + lines[1], bad: 1}
		qs := &sparkl.QuadSource{Reader: f}
		sym.Assert(qs.Open() == nil, "the source can be opened")
		same(qs.Next(), want[0])
		same(qs.Next(), want[1])
		sym.Assert(qs.Next().Err == io.EOF, "the end is reported")
		sym.Assert(f.seeks > 0 || qs.Open() != nil, "a failure to start again is reported")
		sym.Cover("seek")
	case 2:
		bad := []string{"<" + s + "> <p> <o>", "<a> <b> \"" + s + " .", s, "\"" + s + "\" <p> <o> .", "<a> <b> " + s + " .", "<a> <b> .", "<a> _:" + s + " <c> ."}[sym.Choose("malformed", 7)] + "\n"
		k := sym.Choose("place", 3)
		data := ""
		for i := 0; i < 3; i++ {
			if i == k {
				data += bad
			}
			if i < 2 {
				data += lines[i]
			}
		}
		qs := &sparkl.QuadSource{Reader: &file{data: data}}
		sym.Assert(qs.Open() == nil, "the source can be opened")
		for i := 0; i < k; i++ {
			same(qs.Next(), want[i])
		}
		t := qs.Next()
		sym.Assert(t.Err != nil && t.Err != io.EOF, "a malformed line is an error")
		sym.Cover("malformed")
	}
}

// H_Ambiguous: literals whose text looks like the end of a literal.
// Bounds: literals with a language or a type whose text is any character, then one of "@, "^^<, @ and ^^<, then any two characters.
//
//gosym:time=100
func H_Ambiguous() {
	k := sym.Choose("inner", 4)
	inner := []string{`"@`, `"^^<`, "@", "^^<"}[k]
	before := ""
	if k < 2 || sym.Bool("before") {
		before = sym.Alpha("before", 1, letters)
	}
	text := before + inner + sym.Alpha("after", 2, letters+" @<>")
	written := text
	if k < 2 {
		written = before + `\` + text[len(before):]
	}
	want := sparkl.Token{Subject: "s", Predicate: "p", HasDatum: true, Datum: impl.Datum(text)}
	end := "^^<t>"
	if sym.Bool("lang") {
		want.Language, end = "en", "@en"
	}
	qs := &sparkl.QuadSource{Reader: &file{data: `<s> <p> "` + written + `"` + end + " .\n"}}
	sym.Assert(qs.Open() == nil, "the source can be opened")
	got := qs.Next()
	wrong := got.Err == nil && got.HasDatum && (got.Datum != want.Datum || got.Language != want.Language)
	sym.Assert(!(wrong && taken(`"`+text+`"`+end, got)), "a text that looks like the end of a literal is taken for it")
	same(got, want)
	sym.Cover("read")
}

// taken says if a token is what results when a literal, with its escapes resolved, is taken to end at the first place that looks like it.
func taken(raw string, got sparkl.Token) bool {
	if i := strings.Index(raw, `"^^<`); i > 0 && raw[len(raw)-1] == '>' {
		return got.Language == "" && got.Datum == impl.Datum(raw[1:i])
	}
	if i := strings.Index(raw, `"@`); i > 0 {
		return got.Language == impl.Language(raw[i+2:]) && got.Datum == impl.Datum(raw[1:i])
	}
	return got.Language == "" && got.Datum == impl.Datum(raw)
}
