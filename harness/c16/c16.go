// Package c16: triples render as RDF that says what the data said.
package c16

import (
	"bytes"
	"errors"
	"io"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
	"github.com/anglo-korean/rdf"
)

// iri says if s is an IRI that RDF allows (RFC 3987 as N-Triples narrows it).
func iri(s string) bool {
	if len(s) == 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c <= ' ', c == '<', c == '>', c == '"', c == '{', c == '}', c == '|', c == '^', c == '`', c == '\\':
			return false
		}
	}
	return true
}

func letter(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }

// language says if s is a language tag: letters, then maybe a dash and letters or digits.
func language(s string) bool {
	dash := -1
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case letter(c):
		case '0' <= c && c <= '9' && dash >= 0:
		case c == '-' && dash < 0 && i > 0 && i < len(s)-1:
			dash = i
		default:
			return false
		}
	}
	return true
}

func expect(t rdf.Term, typ rdf.TermType, value string) {
	sym.Assert(t != nil && t.Type() == typ && t.String() == value, "a term says what the data said")
}

// check renders a triple.
func check(t igraph.Triple, canonical bool) {
	got, err := t.Triple(canonical)
	s, p, o := t.Subject, t.Predicate, t.Object
	if canonical {
		s, p, o = t.SSubject, t.SPredicate, t.SObject
	}
	ok := iri(string(s)) && iri(string(p))
	if t.Role == igraph.Data {
		ok = ok && language(string(t.Language))
	} else {
		ok = ok && iri(string(o))
	}
	if !ok {
		sym.Assert(err != nil, "what is not valid RDF is an error")
		sym.Cover("?invalid")
		return
	}
	sym.Assert(err == nil, "what is valid RDF is no error")
	expect(got.Subj, rdf.TermIRI, string(s))
	expect(got.Pred, rdf.TermIRI, string(p))
	if t.Role != igraph.Data {
		expect(got.Obj, rdf.TermIRI, string(o))
		sym.Cover("?node")
		return
	}
	expect(got.Obj, rdf.TermLiteral, string(t.Datum))
	lit, isLit := got.Obj.(rdf.Literal)
	sym.Assert(isLit && lit.Lang() == string(t.Language), "a literal keeps its language")
	if t.Language == "" {
		sym.Cover("?literal")
		want, err := rdf.NewLiteral("x")
		sym.Assert(err == nil && lit.DataType.String() == want.DataType.String(), "a literal without language is a string")
	} else {
		sym.Cover("?language")
	}
}

// ascii makes a string of n arbitrary characters below 128.
func ascii(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 128)
	}
	return s
}

// H_Node: triples between nodes.
// Bounds: arbitrary ASCII labels of up to 2 (thorough: 3) bytes for one position after the other, original and canonical, regular and inferred.
//gosym:time=100
func H_Node() {
	t := igraph.Triple{Subject: "s", Predicate: "p", Object: "o", SSubject: "ss", SPredicate: "sp", SObject: "so", Role: igraph.Regular}
	if sym.Bool("inverse") {
		t.Role = igraph.Inverse
	}
	l := impl.Label(ascii("label", sym.Choose("n", 3+sym.Tier())))
	switch sym.Choose("place", 6) {
	case 0:
		t.Subject = l
	case 1:
		t.Predicate = l
	case 2:
		t.Object = l
	case 3:
		t.SSubject = l
	case 4:
		t.SPredicate = l
	case 5:
		t.SObject = l
	}
	check(t, sym.Bool("canonical"))
}

// H_Data: triples with data.
// Bounds: all data of up to 2 arbitrary bytes, all ASCII languages of up to 3 (thorough: 4) bytes.
//gosym:time=100
func H_Data() {
	t := igraph.Triple{Subject: "s", Predicate: "p", SSubject: "ss", SPredicate: "sp", Role: igraph.Data}
	t.Datum = impl.Datum(sym.String("datum", sym.Choose("n", 3)))
	t.Language = impl.Language(ascii("lang", sym.Choose("m", 4+sym.Tier())))
	check(t, sym.Bool("canonical"))
}

// id makes the n-th identity.
func id(n int) (id impl.ID) {
	for ; n > 0; n-- {
		id.Inc()
	}
	return
}

func escape(s string) (out string) {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			out += `\n`
		case '\r':
			out += `\r`
		case '"':
			out += `\"`
		case '\\':
			out += `\\`
		default:
			out += s[i : i+1]
		}
	}
	return
}

// line is the N-Triples statement of a triple.
func line(t igraph.Triple, canonical bool) string {
	s, p, o := t.Subject, t.Predicate, t.Object
	if canonical {
		s, p, o = t.SSubject, t.SPredicate, t.SObject
	}
	obj := "<" + string(o) + ">"
	if t.Role == igraph.Data {
		obj = `"` + escape(string(t.Datum)) + `"`
		if t.Language != "" {
			obj += "@" + string(t.Language)
		}
	}
	return "<" + string(s) + "> <" + string(p) + "> " + obj + " .\n"
}

type failing struct {
	got  []byte
	room int // bytes that are accepted
}

var errFull = errors.New("full")

func (f *failing) Write(b []byte) (int, error) {
	if len(b) > f.room {
		return 0, errFull
	}
	f.room -= len(b)
	f.got = append(f.got, b...)
	return len(b), nil
}

// entity holds three triples: a node, a datum, and a child's.
func entity(datum impl.Datum, lang impl.Language, l impl.Label) (wisski.Entity, []igraph.Triple) {
	a := igraph.Triple{ID: id(1), Subject: "s", Predicate: "p", Object: l, SSubject: "ss", SPredicate: "sp", SObject: "so"}
	b := igraph.Triple{ID: id(2), Subject: l, Predicate: "q", SSubject: "ss", SPredicate: "sq", Datum: datum, Language: lang, Role: igraph.Data}
	c := igraph.Triple{ID: id(3), Subject: "t", Predicate: "p", Object: "s", SSubject: "st", SPredicate: "sp", SObject: l, Role: igraph.Inverse}
	e := wisski.Entity{URI: "s", Triples: []igraph.Triple{c, a},
		Fields: map[string][]wisski.FieldValue{"f": {{Value: datum, Triples: []igraph.Triple{b, a}}}}}
	return e, []igraph.Triple{a, b, c}
}

// H_Export: all triples of an entity as N-Triples.
// Bounds: an entity with three triples, data of up to 2 arbitrary ASCII bytes, no, a valid and an invalid language, an arbitrary ASCII one-byte label that may be no IRI, original and canonical.
//gosym:time=100
func H_Export() {
	lang := [...]impl.Language{"", "de", "-"}[sym.Choose("lang", 3)]
	datum := impl.Datum(ascii("datum", sym.Choose("n", 3)))
	e, ts := entity(datum, lang, impl.Label(ascii("l", 1)))
	canonical := sym.Bool("canonical")
	w := &failing{room: 1 << 20}
	err := e.WriteAllTriples(w, canonical, rdf.NTriples)
	var want string
	ok := true
	for _, t := range ts {
		if _, err := t.Triple(canonical); err != nil {
			ok = false
		}
		want += line(t, canonical)
	}
	if !ok {
		sym.Assert(err != nil, "a triple that is not valid RDF is an error")
		sym.Cover("invalid")
		return
	}
	sym.Assert(err == nil, "an entity is exported")
	sym.Assert(string(w.got) == want, "one statement per triple in order")
	sym.Cover("exported")
}

// H_Failing: the output fails.
// Bounds: an entity with three triples, and one with a datum longer than the writer's buffer; every number of bytes after which the output fails; N-Triples and Turtle.
//gosym:time=60
func H_Failing() {
	datum := impl.Datum("x")
	if sym.Bool("long") {
		for len(datum) < 5000 {
			datum += "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
		}
	}
	e, _ := entity(datum, "", "l")
	format := rdf.NTriples
	if sym.Bool("turtle") {
		format = rdf.Turtle
	}
	all := &failing{room: 1 << 20}
	sym.Assert(e.WriteAllTriples(all, false, format) == nil, "an entity is exported")
	n := sym.Int("room", 0, 1<<14)
	w := &failing{room: n}
	err := e.WriteAllTriples(w, false, format)
	if n < len(all.got) {
		sym.Assert(err != nil, "a failing output is reported")
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil && string(w.got) == string(all.got), "an entity is exported")
		sym.Cover("room")
	}
}

// H_Turtle: all triples of an entity as Turtle, read again.
// Bounds: an entity with three triples whose subjects and predicates are equal or not in every combination, a datum of up to one (thorough: two) arbitrary ASCII byte, with and without language, original labels of letters under one or two prefixes.
//gosym:time=100
func H_Turtle() {
	lang := [...]impl.Language{"", "de"}[sym.Choose("lang", 2)]
	e, ts := entity(impl.Datum(ascii("datum", sym.Choose("n", 2+sym.Tier()))), lang, "http://y.z/l")
	name := func(n string, k int) impl.Label {
		return [...]impl.Label{"http://x.y/a", "http://x.y/b", "http://y.z#a"}[sym.Choose(n, k)]
	}
	ts[0].Subject, ts[1].Subject, ts[2].Subject = "http://x.y/a", name("s1", 3), name("s2", 2)
	ts[0].Predicate, ts[1].Predicate, ts[2].Predicate = "http://x.y/a", name("p1", 3), name("p2", 2)
	ts[0].Object, ts[2].Object = "http://y.z#l", "http://x.y/a"
	e.Triples = []igraph.Triple{ts[2], ts[0]}
	e.Fields["f"][0].Triples = []igraph.Triple{ts[1]}
	w := &failing{room: 1 << 20}
	sym.Assert(e.WriteAllTriples(w, false, rdf.Turtle) == nil, "an entity is exported")
	d := rdf.NewTripleDecoder(bytes.NewReader(w.got), rdf.Turtle)
	for _, t := range ts {
		got, err := d.Decode()
		sym.Assert(err == nil, "one statement per triple in order")
		expect(got.Subj, rdf.TermIRI, string(t.Subject))
		expect(got.Pred, rdf.TermIRI, string(t.Predicate))
		if t.Role != igraph.Data {
			expect(got.Obj, rdf.TermIRI, string(t.Object))
			continue
		}
		expect(got.Obj, rdf.TermLiteral, string(t.Datum))
		lit, ok := got.Obj.(rdf.Literal)
		sym.Assert(ok && lit.Lang() == string(t.Language), "a literal keeps its language")
	}
	_, err := d.Decode()
	sym.Assert(err == io.EOF, "one statement per triple")
	sym.Cover("read")
}
