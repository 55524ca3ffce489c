// Package c12: an exported index re-imports to the same contents.
package c12

import (
	"bytes"
	"encoding/gob"
	"errors"
	"os"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/env"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/gz"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/pbm"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/tmpl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
	"github.com/FAU-CDI/hangover/pkg/sgob"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

// maybe is a label that may be empty.
func maybe(name string) impl.Label { return impl.Label(sym.String(name, sym.Choose("len", 2))) }

func id(n byte) (id impl.ID) { must(impl.UnmarshalID(&id, []byte{0, 0, 0, n})); return }

// triple is a triple with a bit of everything.
func triple(full bool) (t igraph.Triple) {
	t.ID = id(sym.U8("id"))
	t.SSubject, t.Subject = label("s"), "s"
	if full {
		t.SPredicate, t.Predicate, t.SObject, t.Object = "p", maybe("p"), "", maybe("o")
		t.Datum, t.Language = impl.Datum(sym.String("datum", 1)), impl.Language(sym.String("lang", 1))
		t.Role = igraph.Role(sym.U8("role"))
	}
	return
}

func entity(uri impl.Label, deep int) (e wisski.Entity) {
	e.URI = uri
	switch sym.Choose("parts", 4) {
	case 0:
		e.Path = []impl.Label{maybe("path"), "x"}
		e.Triples = []igraph.Triple{triple(false), triple(true)}
	case 1:
		e.Fields = map[string][]wisski.FieldValue{
			"f": {{Value: impl.Datum(sym.String("v", sym.Choose("len", 2))), Language: impl.Language(maybe("l")), Path: []impl.Label{"q"}}, {Triples: []igraph.Triple{triple(false)}}},
			"g": {},
		}
	case 2:
		e.Fields = map[string][]wisski.FieldValue{}
		e.Children = map[string][]wisski.Entity{"none": {}}
		if deep > 0 {
			e.Children["c"] = []wisski.Entity{entity(label("child"), deep-1)}
		}
	}
	return
}

func eq(c bool) { sym.Assert(c, "the same entities") }

func sameTriples(a, b []igraph.Triple) {
	eq(len(a) == len(b))
	for i := range a {
		x, y := a[i], b[i]
		eq(x.ID == y.ID && x.Role == y.Role)
		eq(x.Subject == y.Subject && x.SSubject == y.SSubject && x.Predicate == y.Predicate && x.SPredicate == y.SPredicate && x.Object == y.Object && x.SObject == y.SObject)
		eq(x.Datum == y.Datum && x.Language == y.Language)
	}
}

func sameLabels(a, b []impl.Label) {
	eq(len(a) == len(b))
	for i := range a {
		eq(a[i] == b[i])
	}
}

func same(a, b wisski.Entity) {
	eq(a.URI == b.URI)
	sameLabels(a.Path, b.Path)
	sameTriples(a.Triples, b.Triples)
	eq(len(a.Fields) == len(b.Fields))
	for k, vs := range a.Fields {
		ws, ok := b.Fields[k]
		eq(ok && len(vs) == len(ws))
		for i := range vs {
			eq(vs[i].Value == ws[i].Value && vs[i].Language == ws[i].Language)
			sameLabels(vs[i].Path, ws[i].Path)
			sameTriples(vs[i].Triples, ws[i].Triples)
		}
	}
	eq(len(a.Children) == len(b.Children))
	for k, vs := range a.Children {
		ws, ok := b.Children[k]
		eq(ok && len(vs) == len(ws))
		for i := range vs {
			same(vs[i], ws[i])
		}
	}
}

// contents are the entities and identities of a cache.
type contents struct {
	ents  map[string][]wisski.Entity
	alias [][2]impl.Label
}

func (c *contents) cache() *sparkl.Cache {
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	for _, a := range c.alias {
		must(ids.Set(a[0], a[1]))
	}
	out, err := sparkl.NewCache(c.ents, &ids, nil)
	must(err)
	return &out
}

// agree says that a cache answers everything as another one does.
func agree(a, b *sparkl.Cache, u impl.Label, bundles ...string) {
	an, bn := a.BundleNames(), b.BundleNames()
	eq(len(an) == len(bn))
	for i := range an {
		eq(an[i] == bn[i])
	}
	for _, bundle := range bundles {
		as, bs := a.Entities(bundle), b.Entities(bundle)
		eq(len(as) == len(bs))
		for i := range as {
			same(as[i], bs[i])
		}
		ae, aok := a.Entity(u, bundle)
		be, bok := b.Entity(u, bundle)
		sym.Assert(aok == bok, "the same lookups")
		if aok {
			same(*ae, *be)
			sym.Cover("?found")
		}
	}
	sym.Assert(a.Canonical(u) == b.Canonical(u), "the same canonical URIs")
	al, bl := a.Aliases(u), b.Aliases(u)
	sym.Assert(len(al) == len(bl), "the same aliases")
	for _, x := range al {
		found := false
		for _, y := range bl {
			found = found || x == y
		}
		sym.Assert(found, "the same aliases")
		sym.Cover("?alias")
	}
	ab, aok := a.Bundle(u)
	bb, bok := b.Bundle(u)
	sym.Assert(aok == bok && ab == bb, "the same bundles")
}

// lookups are contents with symbolic labels.
func lookups() *contents {
	u, v := label("e1"), label("e2")
	sym.Assume(u != v) // which of two bundles with an entity is its bundle is not determined
	c := &contents{ents: map[string][]wisski.Entity{"one": {{URI: u}}, "two": {{URI: v, Path: []impl.Label{u}}}, "empty": {}}}
	from, to := label("from"), label("to")
	sym.Assume(from != to && from != u && from != v)
	c.alias = append(c.alias, [2]impl.Label{from, to}, [2]impl.Label{"#", to})
	sym.Assume(to != "#" && from != "#" && u != "#" && v != "#")
	return c
}

// H_Lookups: every lookup after decoding, into a new cache and into one that held something else.
// Bounds: entities in two bundles, an empty bundle and two identities, arbitrary one-byte URIs; any URI looked up; the cache decoded into is new, or held another entity and identity, or was closed.
//gosym:time=120
func H_Lookups() {
	c := lookups()
	u := label("u")
	a := c.cache()
	var buf bytes.Buffer
	must(a.EncodeTo(gob.NewEncoder(&buf)))

	b := new(sparkl.Cache)
	if used := sym.Choose("used", 3); used > 0 {
		b = (&contents{ents: map[string][]wisski.Entity{"one": {{URI: "x"}, {URI: "y"}}, "old": {{URI: "z"}}}, alias: [][2]impl.Label{{"w", "x"}, {"v", "q"}}}).cache()
		if used == 2 {
			must(b.Close())
		}
	}
	must(b.DecodeFrom(gob.NewDecoder(&buf)))
	agree(a, b, u, "one", "two", "empty", "old")
	ref := c.cache()
	must(a.Close())
	agree(ref, b, u, "one", "two", "empty", "old")
}

// H_Orders: encoding in any order of the maps of a cache.
// Bounds: two entities in two bundles and an identity, fixed URIs; all orders of up to three entries of a map; a few URIs looked up.
//gosym:time=60
func H_Orders() {
	c := &contents{ents: map[string][]wisski.Entity{"one": {{URI: "a"}}, "two": {{URI: "b"}, {URI: "a"}}}, alias: [][2]impl.Label{{"c", "a"}, {"d", "a"}}}
	a := c.cache()
	var buf bytes.Buffer
	sym.MapOrder(3)
	must(a.EncodeTo(gob.NewEncoder(&buf)))
	sym.MapOrder(0)
	b := new(sparkl.Cache)
	must(b.DecodeFrom(gob.NewDecoder(&buf)))
	for _, u := range []impl.Label{"a", "b", "c", "d", "e"} {
		agree(a, b, u, "one", "two")
	}
}

// H_Entities: everything an entity holds.
// Bounds: an entity and its successor with path, triples, fields or children (of one level, thorough two), each left out or with arbitrary one-byte or empty texts.
//gosym:time=120
func H_Entities() {
	c := &contents{ents: map[string][]wisski.Entity{"one": {entity("a", 1+sym.Tier()), entity("b", 0)}}}
	a := c.cache()
	var buf bytes.Buffer
	must(a.EncodeTo(gob.NewEncoder(&buf)))
	b := new(sparkl.Cache)
	must(b.DecodeFrom(gob.NewDecoder(&buf)))
	agree(a, b, "b", "one")
}

func flags() (f viewer.RenderFlags) {
	f.PublicURL = sym.String("public", sym.Choose("len", 2))
	f.TipsyURL = sym.String("tipsy", sym.Choose("len", 2))
	f.Predicates.SameAs = []impl.Label{maybe("same")}
	if sym.Bool("inverse") {
		f.Predicates.InverseOf = []impl.Label{maybe("inverse"), "x"}
	}
	f.StrictCSP = sym.Bool("strict")
	f.HTMLRender = sym.Bool("html")
	f.ImageRender = sym.Bool("image")
	if sym.Bool("stats") {
		f.Stats = stats.NewStats(nil)
	}
	return
}

func sameFlags(a, b viewer.RenderFlags) {
	sym.Assert(a.PublicURL == b.PublicURL && a.TipsyURL == b.TipsyURL && a.StrictCSP == b.StrictCSP && a.HTMLRender == b.HTMLRender && a.ImageRender == b.ImageRender, "the same flags")
	sym.Assert(len(a.Predicates.SameAs) == len(b.Predicates.SameAs) && len(a.Predicates.InverseOf) == len(b.Predicates.InverseOf), "the same predicates")
	for i, l := range a.Predicates.SameAs {
		sym.Assert(l == b.Predicates.SameAs[i], "the same predicates")
	}
	for i, l := range a.Predicates.InverseOf {
		sym.Assert(l == b.Predicates.InverseOf[i], "the same predicates")
	}
}

func samePathbuilder(a, b pathbuilder.Pathbuilder) {
	x, y := a.Bundles(), b.Bundles()
	sym.Assert(len(x) == len(y), "the same pathbuilder")
	for i := range x {
		sym.Assert(x[i].MachineName() == y[i].MachineName() && len(x[i].ChildFields) == len(y[i].ChildFields), "the same pathbuilder")
	}
}

func builder() pathbuilder.Pathbuilder {
	pb := pathbuilder.NewPathbuilder()
	b := world.B(&pb, "one", nil, "E")
	world.F(b, "f", "d", "E")
	world.B(&pb, "two", nil, "F")
	return pb
}

func one() *contents {
	return &contents{ents: map[string][]wisski.Entity{"one": {{URI: label("e1"), Path: []impl.Label{"p"}}}}, alias: [][2]impl.Label{{"#", "z"}}}
}

// H_Flags: a complete export in memory with all flags.
// Bounds: all flags, URLs of up to one byte, up to two predicates of up to one byte, with and without statistics; a pathbuilder of two bundles, a cache with one entity.
//gosym:time=60
//gosym:native=no
func H_Flags() {
	g := glass.Glass{Pathbuilder: builder(), Cache: one().cache(), Flags: flags()}
	var buf bytes.Buffer
	must(g.EncodeTo(gob.NewEncoder(&buf)))
	var h glass.Glass
	must(h.DecodeFrom(gob.NewDecoder(&buf)))
	sameFlags(g.Flags, h.Flags)
	samePathbuilder(g.Pathbuilder, h.Pathbuilder)
	agree(g.Cache, h.Cache, label("u"), "one")
	must(g.Close())
	must(h.Close())
}

// H_Version: data of any version.
// Bounds: every version number (64 bit), otherwise a proper export.
//gosym:native=no
func H_Version() {
	v := int(sym.I64("version"))
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	xml, err := pbxml.Marshal(builder())
	must(err)
	must(sgob.Encode(enc, v))
	must(sgob.Encode(enc, xml))
	must(sgob.Encode(enc, viewer.RenderFlags{PublicURL: "x"}))
	must(one().cache().EncodeTo(enc))
	var h glass.Glass
	err = h.DecodeFrom(gob.NewDecoder(&buf))
	sym.Assert((err == nil) == (v == glass.GlassVersion), "exactly the version of the program is accepted")
	if err == nil {
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

// progress makes statistics, or none.
func progress() *stats.Stats {
	switch sym.Choose("stats", 3) {
	case 0:
		return nil
	case 1:
		return stats.NewStats(nil)
	}
	return stats.NewStats(new(bytes.Buffer))
}

// H_File: export to a file and import from it.
// Bounds: a cache with one entity of arbitrary one-byte URI and an identity; with and without statistics; the file is new or replaces one.
//gosym:time=60
//gosym:native=no
func H_File() {
	if sym.Bool("old") {
		must(os.WriteFile("/out", make([]byte, 600), 0o644))
	}
	c := one()
	g := glass.Glass{Pathbuilder: builder(), Cache: c.cache(), Flags: viewer.RenderFlags{PublicURL: "x", HTMLRender: true}}
	must(glass.Export("/out", g, progress()))
	h, err := glass.Import("/out", progress())
	must(err)
	sameFlags(g.Flags, h.Flags)
	samePathbuilder(g.Pathbuilder, h.Pathbuilder)
	agree(g.Cache, h.Cache, label("u"), "one")
}

func fixed() glass.Glass {
	c := &contents{ents: map[string][]wisski.Entity{"one": {{URI: "a", Path: []impl.Label{"p"}}, {URI: "b"}}, "two": {{URI: "c"}}}, alias: [][2]impl.Label{{"#", "a"}}}
	return glass.Glass{Pathbuilder: builder(), Cache: c.cache(), Flags: viewer.RenderFlags{PublicURL: "x", HTMLRender: true}}
}

// H_Truncated: import of a file that was cut.
// Bounds: an export of three entities and an identity, cut to every length.
//gosym:time=100
//gosym:native=no
func H_Truncated() {
	g := fixed()
	must(glass.Export("/out", g, nil))
	data, err := os.ReadFile("/out")
	must(err)
	quarter := (len(data) + 3) / 4
	at := sym.Choose("quarter", 4)*quarter + sym.Concrete(sym.Int("at", 0, quarter-1))
	sym.Assume(at < len(data))
	must(os.WriteFile("/cut", data[:at], 0o644))
	h, err := glass.Import("/cut", nil)
	if err == nil {
		sameFlags(g.Flags, h.Flags)
		for _, u := range []impl.Label{"a", "b", "c", "#"} {
			agree(g.Cache, h.Cache, u, "one", "two")
		}
		sym.Cover("?complete")
	} else {
		sym.Cover("refused")
	}
	if at < len(data)/2 {
		sym.Assert(err != nil, "half an export is refused")
	}
}

var errDisk = errors.New("disk fails")

// H_Faults: a failure of the file system during export or import.
// Bounds: any one operation fails (creating, writing, closing; opening, reading).
//gosym:time=100
//gosym:native=no
func H_Faults() {
	g := fixed()
	failed := ""
	n, at := 0, sym.Int("at", 0, 60)
	osm.SetFault(func(op string) error {
		n++
		if failed == "" && n-1 == at {
			failed = op
			return errDisk
		}
		return nil
	})
	err := glass.Export("/out", g, nil)
	if failed != "" {
		sym.Assert(err != nil, "an export that was not written is reported")
		sym.Cover("export " + failed)
		return
	}
	must(err)
	h, err := glass.Import("/out", nil)
	if err != nil {
		sym.Assert(failed != "", "an import succeeds when nothing fails")
		sym.Cover("import " + failed)
		return
	}
	sameFlags(g.Flags, h.Flags)
	for _, u := range []impl.Label{"a", "b", "c", "#"} {
		agree(g.Cache, h.Cache, u, "one", "two")
	}
	sym.Cover("complete")
}
