// Package c35: pages and API endpoints show exactly the data they name.
package c35

import (
	"bytes"
	"html/template"
	"net/http"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/web"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
	"github.com/anglo-korean/rdf"
)

const digits = "0123456789ABCDEF"

// encode writes a text as a query value.
func encode(s impl.Label) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if sym.Or(sym.And('a' <= c, c <= 'z'), sym.And('0' <= c, c <= '9')) {
			b.WriteByte(c)
		} else {
			b.WriteByte('%')
			b.WriteByte(digits[c>>4])
			b.WriteByte(digits[c&15])
		}
	}
	return b.String()
}

func id(n byte) (i impl.ID) {
	b := make([]byte, impl.IDLen)
	b[impl.IDLen-1] = n
	sym.Assert(impl.UnmarshalID(&i, b) == nil, "an identifier")
	return
}

func triple(n byte, name string) igraph.Triple {
	return igraph.Triple{ID: id(n), Role: igraph.Data, Subject: "http://l/" + impl.Label(name), SSubject: "http://s/" + impl.Label(name), Predicate: "http://l/p", SPredicate: "http://s/p", Datum: impl.Datum(name)}
}

// entity makes an entity that differs from all others.
func entity(uri impl.Label, n byte) wisski.Entity {
	name := string(rune('a' + n))
	return wisski.Entity{
		URI: uri, Path: []impl.Label{uri},
		Triples: []igraph.Triple{triple(4*n+1, name)},
		Fields:  map[string][]wisski.FieldValue{"f": {{Value: impl.Datum(name), Path: []impl.Label{uri}, Triples: []igraph.Triple{triple(4*n+2, name+"f")}}}},
		Children: map[string][]wisski.Entity{"c": {{
			URI: uri + "c", Path: []impl.Label{uri, uri + "c"}, Triples: []igraph.Triple{triple(4*n+3, name+"c")},
		}}},
	}
}

// written is what an entity's triples have to look like.
func written(e *wisski.Entity, f rdf.Format) string {
	var b bytes.Buffer
	sym.Assert(e.WriteAllTriples(&b, true, f) == nil, "the triples can be written")
	return b.String()
}

// globals says that a page has the settings of the viewer.
func globals(v *viewer.Viewer, data any) {
	g := sym.Field(data, "Globals")
	sym.Assert(!sym.Field(g, "DisableForm").(bool), "with data the forms are enabled")
	sym.Assert(sym.Field(g, "Footer").(template.HTML) == v.Footer, "a page has the footer")
	f := sym.Field(g, "RenderFlags").(viewer.RenderFlags)
	sym.Assert(f.HTMLRender == v.RenderFlags.HTMLRender && f.ImageRender == v.RenderFlags.ImageRender && f.StrictCSP == v.RenderFlags.StrictCSP && f.PublicURL == v.RenderFlags.PublicURL && f.TipsyURL == v.RenderFlags.TipsyURL, "a page has the flags of the viewer")
}

func labels(v any) []impl.Label {
	l, ok := v.([]impl.Label)
	sym.Assert(ok && l != nil, "an endpoint sends a list")
	return l
}

// sent is the only value an endpoint sends.
func sent(a *web.Answer) any {
	sym.Assert(a.Code == http.StatusOK && a.Status == 1 && len(a.Values) == 1 && len(a.Pages) == 0, "an endpoint sends one value")
	sym.Assert(a.Get("Content-Type") == "application/json", "an endpoint sends JSON")
	return a.Values[0]
}

// shown is the data of the only page.
func shown(v *viewer.Viewer, a *web.Answer, name string) any {
	sym.Assert(a.Code == http.StatusOK && a.Status == 1 && len(a.Values) == 0, "a page is shown")
	sym.Assert(strings.HasPrefix(a.Get("Content-Type"), "text/html"), "a page is HTML")
	d := a.Page(name)
	globals(v, d)
	return d
}

// missing says that nothing is there.
func missing(a *web.Answer) {
	sym.Assert(a.Code == http.StatusNotFound && a.Status == 1 && len(a.Pages) == 0 && len(a.Values) == 0, "what nobody has is not found")
	sym.Assert(a.Get("Content-Disposition") == "", "what nobody has is no download")
}

// flags are arbitrary.
func flags() viewer.RenderFlags {
	f := viewer.RenderFlags{HTMLRender: sym.Bool("html"), ImageRender: sym.Bool("images"), StrictCSP: sym.Bool("strict")}
	return f
}

// H_Index: the list of the bundles.
// Bounds: three top-level bundles with arbitrary different names of one and two letters, a child bundle and (optionally) a bundle of the pathbuilder without data; the data is given in any order, with zero to two entities each; arbitrary flags.
//
//gosym:time=120
//gosym:native=no
func H_Index() {
	names := []string{sym.Alpha("one", 1, "abcXYZ019_"), sym.Alpha("two", 2, "abXY_"), "b" + sym.Alpha("three", 1, "abXYZ09_")}
	sym.Assume(names[1] != names[2])
	p := pathbuilder.NewPathbuilder()
	var bundles []*pathbuilder.Bundle
	for _, n := range names {
		bundles = append(bundles, world.B(&p, n, nil, "E"))
	}
	world.B(&p, "child", bundles[0], "E", "p", "C")
	if sym.Bool("without data") {
		world.B(&p, "none", nil, "N")
	}
	data := make(map[string][]wisski.Entity)
	first := sym.Choose("first", 3)
	for i := range names {
		k := (first + i) % 3
		var ents []wisski.Entity
		for j := 0; j < k; j++ {
			ents = append(ents, entity(impl.Label(names[k])+impl.Label(rune('0'+j)), byte(3*k+j)))
		}
		data[names[k]] = ents
	}
	v := web.Ready(flags(), web.Cache(data), &p)
	v.Footer = "<b>footer</b>"

	got := sym.Field(shown(v, web.Ask(v, web.Request("/", "")), "index.html"), "Bundles").([]*pathbuilder.Bundle)
	sym.Assert(len(got) == 3, "the index has every bundle once")
	for _, b := range bundles {
		n := 0
		for _, g := range got {
			if g == b {
				n++
			}
		}
		sym.Assert(n == 1, "the index has every bundle once")
	}
	list, ok := sent(web.Ask(v, web.Request("/api/v1", ""))).([]string)
	sym.Assert(ok && len(list) == 3, "the endpoint names every bundle once")
	for i, g := range got {
		sym.Assert(g.MachineName() == list[i], "the endpoint names the bundles of the index")
		if i > 0 {
			sym.Assert(list[i-1] < list[i], "the bundles are sorted by name")
		}
	}
	for k, n := range names {
		uris := labels(sent(web.Ask(v, web.Request("/api/v1/bundle/"+n, ""))))
		sym.Assert(len(uris) == k, "a bundle has its entities")
		for j, u := range uris {
			sym.Assert(u == data[n][j].URI, "a bundle has its entities")
		}
	}
	sym.Cover("index")
}

type scene struct {
	v          *viewer.Viewer
	cache      *sparkl.Cache
	e1, e2, e3 *wisski.Entity
	alias      impl.Label
	x, y       *pathbuilder.Bundle
	u1, u2, u3 impl.Label
}

// char is any character that a URI in a query may consist of.
func char(name string) impl.Label {
	s := sym.String(name, 1)
	sym.Assume(s[0] != '\n')
	return impl.Label(s)
}

func build() *scene {
	s := new(scene)
	s.u1, s.u2, s.u3, s.alias = char("u1"), "u"+char("u2"), "u"+char("u3"), char("alias")
	sym.Assume(sym.And(s.u1 != s.alias, s.u2 != s.u3))
	p := pathbuilder.NewPathbuilder()
	s.x, s.y = world.B(&p, "x", nil, "E"), world.B(&p, "y", nil, "F")
	world.B(&p, "c", s.x, "E", "p", "C")
	data := map[string][]wisski.Entity{"x": {entity(s.u1, 0), entity(s.u2, 1)}, "y": {entity(s.u3, 2)}}
	s.e1, s.e2, s.e3 = &data["x"][0], &data["x"][1], &data["y"][0]
	s.cache = web.Cache(data, web.Alias{From: s.alias, To: s.u1})
	s.v = web.Ready(flags(), s.cache, &p)
	return s
}

// want is the entity that a bundle has for a URI.
func (s *scene) want(bundle string, u impl.Label) *wisski.Entity {
	switch {
	case bundle == "x" && sym.Or(u == s.u1, u == s.alias):
		return s.e1
	case bundle == "x" && u == s.u2:
		return s.e2
	case bundle == "y" && u == s.u3:
		return s.e3
	}
	return nil
}

func same(a, b *wisski.Entity) bool {
	return a.URI == b.URI && len(a.Path) == len(b.Path) && len(a.Triples) == 1 && a.Triples[0] == b.Triples[0] &&
		len(a.Fields) == 1 && len(a.Fields["f"]) == 1 && a.Fields["f"][0].Value == b.Fields["f"][0].Value && a.Fields["f"][0].Triples[0] == b.Fields["f"][0].Triples[0] &&
		len(a.Children) == 1 && len(a.Children["c"]) == 1 && a.Children["c"][0].URI == b.Children["c"][0].URI
}

var formats = []struct {
	name, kind, file string
	format           rdf.Format
}{{"ntriples", "application/n-triples", "entity.nt", rdf.NTriples}, {"turtle", "text/turtle", "entity.ttl", rdf.Turtle}}

func (s *scene) download(a *web.Answer, k int, e *wisski.Entity) {
	f := formats[k]
	sym.Assert(a.Code == http.StatusOK && a.Status == 1 && len(a.Pages) == 0 && len(a.Values) == 0, "a download is sent")
	sym.Assert(a.Get("Content-Type") == f.kind, "a download has its type")
	sym.Assert(a.Get("Content-Disposition") == `attachment; filename="`+f.file+`"`, "a download has its name")
	sym.Assert(a.Body == written(e, f.format), "a download has all triples of the entity")
}

// open follows a link.
func open(v *viewer.Viewer, link template.URL) *web.Answer {
	l := string(link)
	sym.Assert(strings.HasPrefix(l, "/") && !strings.HasPrefix(l, "//") && strings.IndexByte(l, '#') < 0, "a link leads to this server")
	path, query, _ := strings.Cut(l, "?")
	p, ok := web.Unescape(strings.ReplaceAll(path, "+", "%2B"))
	sym.Assert(ok, "a link is properly encoded")
	return web.Ask(v, web.Request(p, query))
}

// entityPage checks the page of an entity and its links.
func (s *scene) entityPage(a *web.Answer, b *pathbuilder.Bundle, e *wisski.Entity) {
	d := shown(s.v, a, "entity.html")
	sym.Assert(sym.Field(d, "Bundle").(*pathbuilder.Bundle) == b, "a page shows an entity in its bundle")
	sym.Assert(same(sym.Field(d, "Entity").(*wisski.Entity), e), "a page shows the entity")
	aliases := sym.Field(d, "Aliases").([]impl.Label)
	if e == s.e1 {
		sym.Assert(len(aliases) == 1 && aliases[0] == s.alias, "a page shows all other names of the entity")
		sym.Cover("?alias shown")
	} else {
		sym.Assert(len(aliases) == 0, "a page shows no names of other entities")
	}
	links := sym.Field(d, "DownloadLinks")
	s.download(open(s.v, sym.Field(links, "Triples").(template.URL)), 0, e)
	s.download(open(s.v, sym.Field(links, "Turtle").(template.URL)), 1, e)
}

// H_Entity: entities by URI in a bundle.
// Bounds: two entities in one bundle and one in another, with fields and children, with arbitrary different URIs of one or two characters (the second arbitrary), and a name of one arbitrary character for the first; asked for by each of them or by any other URI of one character, in their own, the other, the child and an unknown bundle; arbitrary flags.
//
//gosym:time=150
//gosym:native=no
func H_Entity() {
	s := build()
	bundle := []string{"x", "y", "c", "n"}[sym.Choose("bundle", 4)]
	var u impl.Label
	switch sym.Choose("uri", 5) {
	case 0:
		u = s.u1
	case 1:
		u = s.u2
	case 2:
		u = s.u3
	case 3:
		u = s.alias
	default:
		u = char("u")
		sym.Assume(sym.And(u != s.u1, u != s.alias))
	}
	e := s.want(bundle, u)
	query := "uri=" + encode(u)
	switch k := sym.Choose("route", 4); k {
	case 0:
		a := web.Ask(s.v, web.Request("/entity/"+bundle, query))
		if e == nil {
			missing(a)
			sym.Cover("missing")
			return
		}
		b := s.x
		if bundle == "y" {
			b = s.y
		}
		s.entityPage(a, b, e)
		sym.Cover("page")
	case 1:
		a := web.Ask(s.v, web.Request("/api/v1/entity/"+bundle, query))
		if e == nil {
			missing(a)
			return
		}
		switch got := sent(a).(type) {
		case *wisski.Entity:
			sym.Assert(same(got, e), "an endpoint sends the entity")
		case wisski.Entity:
			sym.Assert(same(&got, e), "an endpoint sends the entity")
		default:
			sym.Assert(false, "an endpoint sends the entity")
		}
		sym.Cover("value")
	default:
		a := web.Ask(s.v, web.Request("/api/v1/"+formats[k-2].name+"/"+bundle, query))
		if e == nil {
			missing(a)
			return
		}
		s.download(a, k-2, e)
		sym.Cover("download")
	}
}

// H_Links: the links of an entity page in a bundle of any name.
// Bounds: bundles whose name is one arbitrary byte except slash after (optionally) a letter; the URI is one arbitrary character before (optionally) a letter; in the quick tier only one of the two is arbitrary.
//
//gosym:time=90
//gosym:native=no
func H_Links() {
	name, u := "b", impl.Label("u")
	if sym.Tier() == 1 || sym.Bool("name") {
		name = sym.String("bundle", 1)
		sym.Assume(sym.And(name[0] != '/', name[0] != '.'))
	}
	if sym.Tier() == 1 || name == "b" {
		u = char("uri")
	}
	if sym.Bool("longer") {
		name, u = "b"+name, u+"u"
	}
	p := pathbuilder.NewPathbuilder()
	s := new(scene)
	s.x = world.B(&p, name, nil, "E")
	data := map[string][]wisski.Entity{name: {entity(u, 0), entity("other", 1)}}
	s.v = web.Ready(flags(), web.Cache(data), &p)
	s.entityPage(web.Ask(s.v, web.Request("/entity/"+name, "uri="+encode(u))), s.x, &data[name][0])
	sym.Cover("links")
}

// H_Bundle: a bundle by name.
// Bounds: bundles of two and one entities with arbitrary URIs, a child bundle, which is no bundle to list, and unknown ones of one arbitrary letter; arbitrary flags.
//
//gosym:time=60
//gosym:native=no
func H_Bundle() {
	s := build()
	switch sym.Choose("bundle", 4) {
	case 0, 1:
		name, b, want := "x", s.x, []impl.Label{s.u1, s.u2}
		if sym.Bool("y") {
			name, b, want = "y", s.y, []impl.Label{s.u3}
		}
		d := shown(s.v, web.Ask(s.v, web.Request("/bundle/"+name, "")), "bundle.html")
		sym.Assert(sym.Field(d, "Bundle").(*pathbuilder.Bundle) == b, "a page shows the bundle")
		for _, got := range [][]impl.Label{sym.Field(d, "URIS").([]impl.Label), labels(sent(web.Ask(s.v, web.Request("/api/v1/bundle/"+name, ""))))} {
			sym.Assert(len(got) == len(want), "a bundle has its entities")
			for i := range want {
				sym.Assert(got[i] == want[i], "a bundle has its entities in order")
			}
		}
		sym.Cover("bundle")
	case 2:
		missing(web.Ask(s.v, web.Request("/bundle/c", "")))
		missing(web.Ask(s.v, web.Request("/api/v1/bundle/c", "")))
		sym.Cover("child")
	case 3:
		n := sym.Alpha("name", 1, "abdXZ019_")
		missing(web.Ask(s.v, web.Request("/bundle/"+n, "")))
		missing(web.Ask(s.v, web.Request("/api/v1/bundle/"+n, "")))
		sym.Cover("unknown")
	}
}

// H_Others: the pages that show the pathbuilder and the state.
// Bounds: arbitrary flags, with and without a TIPSY URL.
//
//gosym:time=30
//gosym:native=no
func H_Others() {
	p := pathbuilder.NewPathbuilder()
	world.B(&p, "x", nil, "E")
	f := flags()
	if sym.Bool("tipsy") {
		f.TipsyURL = "https://t/" + sym.Alpha("tipsy", 1, "ab/?&\"<")
	}
	v := web.Ready(f, web.Cache(map[string][]wisski.Entity{"x": {entity("u", 0)}}), &p)
	switch sym.Choose("page", 4) {
	case 0:
		d := shown(v, web.Ask(v, web.Request("/pathbuilder", "")), "pathbuilder.html")
		sym.Assert(sym.Field(d, "Pathbuilder").(*pathbuilder.Pathbuilder) == &p, "the pathbuilder is shown")
	case 1:
		shown(v, web.Ask(v, web.Request("/about", "")), "about.html")
	case 2:
		a := web.Ask(v, web.Request("/tipsy", ""))
		if f.TipsyURL == "" {
			missing(a)
			sym.Cover("no tipsy")
			return
		}
		shown(v, a, "tipsy.html")
		sym.Cover("tipsy")
	case 3:
		shown(v, web.Ask(v, web.Request("/perf", "")), "perf.html")
	}
	sym.Cover("page")
}
