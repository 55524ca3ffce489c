// Package c36: pages show data as the text it is and nothing else.
package c36

import (
	"html/template"
	"net/http"
	"net/url"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/js"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/pages"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/FAU-CDI/hangover/internal/zverif/model/pbm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// plain stands for a text in the page that another is compared with.
const plain = "mqm"

// text is any text that begins and ends with a letter.
func text(name string) string {
	n := 1 + sym.Tier()
	if sym.Tier() == 0 && sym.Bool("two") {
		// two characters that mean something together
		return "m" + sym.Alpha(name, 1, "<&/\\") + sym.Alpha(name+"2", 1, "/!sl#u-{") + "m"
	}
	return "m" + sym.Alpha(name, n, "<>\"'&`+=%#?;/\\{}a \n-$:") + "m"
}

func render(v *viewer.Viewer, path, query string) []pages.Part {
	a := pages.Ask(v, path, query)
	sym.Assert(a.Code == http.StatusOK, "a page is there")
	sym.Assert(strings.HasPrefix(a.Header().Get("Content-Type"), "text/html"), "a page is HTML")
	p := pages.Read(a.Body())
	closed(p)
	return p
}

// closed says that a page is complete.
func closed(parts []pages.Part) {
	for i := len(parts) - 1; i >= 0; i-- {
		if p := parts[i]; p.Tag != "" {
			sym.Assert(p.Tag == "body" && p.End, "a page is complete")
			return
		}
	}
	sym.Assert(false, "a page is complete")
}

// same says that a page is another one with some other text in place of plain.
func same(base, got []pages.Part, with string) {
	sym.Assert(len(base) == len(got), "data adds and hides no part of a page")
	for i, b := range base {
		g := got[i]
		sym.Assert(b.Shape() == g.Shape(), "data changes no element or attribute of a page")
		if b.Tag == "" {
			if b.In != "script" {
				sym.Assert(sym.EqStr(g.Text, strings.ReplaceAll(b.Text, plain, with)), "data is shown as the text it is")
			}
			continue
		}
		for j, a := range b.Attrs {
			v := g.Attrs[j].Val
			if a.Key == "href" || a.Key == "src" {
				sym.Assert(sym.EqStr(decoded(v), strings.ReplaceAll(decoded(a.Val), plain, with)), "a link leads to what it is made from")
				b, rest, _ := strings.Cut(a.Val, "?")
				g, more, _ := strings.Cut(v, "?")
				if strings.HasPrefix(a.Val, "/") && !strings.Contains(b, plain) {
					sym.Assert(sym.EqStr(b, g), "data does not change where a link leads")
					sym.Assert(strings.Count(rest, "&") == strings.Count(more, "&") && strings.Count(rest, "=") == strings.Count(more, "=") && strings.Count(more, "#") == 0, "data does not end the argument of a link")
				}
				continue
			}
			sym.Assert(sym.EqStr(v, strings.ReplaceAll(a.Val, plain, with)), "data is the value of an attribute as it is")
		}
	}
}

// decoded is a link without percent encoding.
func decoded(s string) string {
	out := make([]byte, 0, len(s))
	query := false
	for i := 0; i < len(s); i++ {
		if s[i] == '?' {
			query = strings.HasPrefix(s, "/") && !strings.HasPrefix(s, "//") // an own link
		}
		if query && s[i] == '+' {
			out = append(out, ' ')
			continue
		}
		if s[i] == '%' && i+2 < len(s) {
			if t, err := url.PathUnescape(s[i : i+3]); err == nil {
				out = append(out, t...)
				i += 2
				continue
			}
		}
		out = append(out, s[i])
	}
	return string(out)
}

// texts are the texts of a page, except for scripts.
func texts(parts []pages.Part) (all []string) {
	for _, p := range parts {
		if p.Tag == "" && p.In != "script" {
			all = append(all, p.Text)
		}
	}
	return
}

// between returns the parts of a page from one text to another.
func between(parts []pages.Part, from, to string) []pages.Part {
	a := -1
	for i, p := range parts {
		if p.Tag == "" && p.Text == from && a < 0 {
			a = i + 1
		} else if p.Tag == "" && p.Text == to && a >= 0 {
			return parts[a:i]
		}
	}
	if to == "" && a >= 0 {
		return parts[a:]
	}
	sym.Assert(false, "a page has its sections")
	return nil
}

// lists says that a part of a page has exactly these texts, in order.
func lists(parts []pages.Part, want ...string) {
	got := texts(parts)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		sym.Observe("got", strings.Join(got, "|"))
		sym.Observe("want", strings.Join(want, "|"))
	}
	sym.Assert(ok, "a page shows everything, in order")
}

// links are the targets of the links with a text.
func links(parts []pages.Part, label string) (all []string) {
	for i, p := range parts {
		if p.Tag == "a" && !p.End {
			h, ok := p.Attr("href")
			if ok && i+1 < len(parts) && parts[i+1].Tag == "" && parts[i+1].Text == label {
				all = append(all, h)
			}
		}
	}
	return
}

// harmless says that nothing but the own scripts can run.
func harmless(parts []pages.Part) {
	for _, p := range parts {
		for _, a := range p.Attrs {
			sym.Assert(!strings.HasPrefix(a.Key, "on") && a.Key != "style" && a.Key != "srcdoc", "no attribute runs a script")
			if a.Key == "href" || a.Key == "src" {
				v := strings.ToLower(strings.TrimLeft(a.Val, " \n\t"))
				sym.Assert(!strings.HasPrefix(v, "javascript:") && !strings.HasPrefix(v, "data:") && !strings.HasPrefix(v, "vbscript:"), "no link runs a script")
				if p.Tag == "script" {
					sym.Assert(strings.HasPrefix(a.Val, "/assets/"), "only the own scripts are loaded")
				}
			}
		}
	}
}

type build struct {
	uri   impl.Label
	flags viewer.RenderFlags
	rich  string // a formatted text
	foot  template.HTML
}

func id(n byte) (i impl.ID) {
	b := make([]byte, impl.IDLen)
	b[impl.IDLen-1] = n
	sym.Assert(impl.UnmarshalID(&i, b) == nil, "an identifier")
	return
}

func named(b *pathbuilder.Bundle, name string) { b.Path.Name = name }

func field(b *pathbuilder.Bundle, id, typ, name string) {
	world.F(b, id, "p", "E")
	f := &b.ChildFields[len(b.ChildFields)-1]
	f.FieldType, f.Name = typ, name
	f.Cardinality = 1
}

func triples(s string) []igraph.Triple {
	l := impl.Label(s)
	return []igraph.Triple{
		{ID: id(1), Role: igraph.Regular, Subject: "s1" + l, SSubject: "c1" + l, Predicate: "p1" + l, SPredicate: "p1" + l, Object: "o1" + l, SObject: "o1" + l},
		{ID: id(2), Role: igraph.Inverse, Subject: "s2" + l, SSubject: "s2" + l, Predicate: "p2" + l, SPredicate: "c2" + l, Object: "o2" + l, SObject: "c3" + l},
		{ID: id(3), Role: igraph.Data, Subject: "s3" + l, SSubject: "s3" + l, Predicate: "p3" + l, SPredicate: "p3" + l, Datum: "d3" + impl.Datum(s), Language: "l3" + impl.Language(s)},
	}
}

// entityViewer has an entity that has all kinds of fields, with a text in all of them.
func entityViewer(s string, b build) *viewer.Viewer {
	p := pathbuilder.NewPathbuilder()
	b1 := world.B(&p, "b1", nil, "E")
	named(b1, "bundle "+s)
	for _, t := range []string{"string", "entity_reference", "link", "image", "text_long", "none"} {
		field(b1, "f_"+t, t, t+" field "+s)
	}
	c1 := world.B(&p, "c1", b1, "E", "p", "E")
	named(c1, "child "+s)
	field(c1, "g", "string", "child field "+s)

	v := func(text, lang string) wisski.FieldValue {
		return wisski.FieldValue{Value: impl.Datum(text), Language: impl.Language(lang)}
	}
	rich := b.rich
	if rich == "" {
		rich = "long " + s
	}
	e := wisski.Entity{
		URI: b.uri, Path: []impl.Label{b.uri}, Triples: triples(s),
		Fields: map[string][]wisski.FieldValue{
			"f_string":           {v("one "+s, ""), v("two "+s, "lang "+s)},
			"f_entity_reference": {v("ref/"+s, "")},
			"f_link":             {v("http://l/"+s, "")},
			"f_image":            {v("http://i/"+s, "")},
			"f_text_long":        {v(rich, "")},
		},
		Children: map[string][]wisski.Entity{"c1": {
			{URI: "first", Fields: map[string][]wisski.FieldValue{"g": {v("inner "+s, "")}}},
			{URI: "second", Fields: map[string][]wisski.FieldValue{"g": {v("more "+s, "")}}},
		}},
	}
	w := pages.Ready(b.flags, pages.Cache(map[string][]wisski.Entity{"b1": {e}}, impl.Label("alias "+s), b.uri), &p)
	w.Footer = b.foot
	return w
}

const blank = "This Table shows all triples that define this entity.\n        The main entity URI is underlined."

// section is the part of an entity's page with its values.
func section(parts []pages.Part, n int) []pages.Part {
	// the table of an entity starts after its graph
	for i, p := range parts {
		if g, _ := p.Attr("data-render-graph"); g != "" && !p.End {
			if n--; n == 0 {
				end := len(parts)
				for j := i; j < len(parts); j++ {
					if parts[j].Tag == "table" && parts[j].End {
						end = j
						break
					}
				}
				for j := i; j < end; j++ {
					if parts[j].Tag == "tbody" && !parts[j].End {
						return parts[j:end]
					}
				}
				return parts[i:end]
			}
		}
	}
	sym.Assert(false, "a page has the values of its entities")
	return nil
}

// H_Values: the values of an entity, whatever they are.
// Bounds: an entity with a field of each type, one without values, two values and a language for one, and two children; texts with any of 21 special characters or one of 32 pairs (any two of 21 in the thorough tier) in every value, name and language at once; images embedded or not.
//
//gosym:time=240
//gosym:native=no
func H_Values() {
	s := text("text")
	flags := viewer.RenderFlags{ImageRender: sym.Bool("images")}
	base := render(entityViewer(plain, build{uri: "http://e/1", flags: flags}), "/entity/b1", "uri=http://e/1")
	got := render(entityViewer(s, build{uri: "http://e/1", flags: flags}), "/entity/b1", "uri=http://e/1")
	same(base, got, s)
	harmless(got)

	image := []string{"http://i/" + plain}
	if flags.ImageRender {
		image = nil
	}
	want := []string{"string field " + plain, "string", "2", "(Cardinality 1)", "one " + plain, "two " + plain, "lang " + plain,
		"entity_reference field " + plain, "entity_reference", "1", "(Cardinality 1)", "ref/" + plain,
		"link field " + plain, "link", "1", "(Cardinality 1)", "http://l/" + plain,
		"image field " + plain, "image", "1", "(Cardinality 1)"}
	want = append(want, image...)
	want = append(want, "text_long field "+plain, "text_long", "1", "(Cardinality 1)", "long "+plain,
		"none field "+plain, "none", "0", "(Cardinality 1)")
	lists(section(base, 1), want...)
	lists(section(base, 2), "child field "+plain, "string", "1", "(Cardinality 1)", "inner "+plain)
	lists(section(base, 3), "child field "+plain, "string", "1", "(Cardinality 1)", "more "+plain)

	l := links(base, "ref/"+plain)
	sym.Assert(len(l) == 1 && strings.HasPrefix(l[0], "/wisski/get?uri=") && decoded(l[0]) == "/wisski/get?uri=ref/"+plain, "a reference leads to the resolver")
	l = links(base, "http://l/"+plain)
	sym.Assert(len(l) == 1 && l[0] == "http://l/"+plain, "a link leads to its value")
	n := 0
	for _, p := range section(base, 1) {
		if p.Tag == "img" {
			src, _ := p.Attr("src")
			sym.Assert(src == "http://i/"+plain, "an image is the value")
			n++
		}
	}
	sym.Assert(flags.ImageRender == (n == 1), "images are embedded exactly when that is enabled")
	sym.Cover("shown")
}

// graph checks the data of the drawn graph.
func graph(parts []pages.Part, s string) {
	for i, p := range parts {
		if g, _ := p.Attr("data-render-graph"); g != "" && !p.End {
			t, _ := p.Attr("type")
			sym.Assert(t == "application/json", "the graph is data")
			v, ok := js.Parse(parts[i+1].Text)
			sym.Assert(ok, "the graph is well-formed JSON")
			m, _ := v.(map[string]any)
			sym.Assert(len(m) == 2, "the graph has triples and data")
			rows := func(name string, want ...[]string) {
				l, ok := m[name].([]any)
				sym.Assert(ok && len(l) == len(want), "the graph has every triple")
				for i, w := range want {
					r, ok := l[i].([]any)
					sym.Assert(ok && len(r) == 3, "a triple of the graph has three parts")
					for j, x := range w {
						t, ok := r[j].(string)
						sym.Assert(ok && sym.EqStr(t, x), "the graph has the triples as they are")
					}
				}
			}
			rows("triples", []string{"c1" + s, "p1" + s, "o1" + s}, []string{"s2" + s, "c2" + s, "c3" + s})
			rows("data", []string{"s3" + s, "p3" + s, "d3" + s})
			return
		}
	}
	sym.Assert(false, "a page has a graph")
}

// H_Triples: the triples of an entity, its URI and its aliases, whatever they are.
// Bounds: an entity with a triple of each role, literal and canonical labels the same or different, and one alias; texts with any of 21 special characters or one of 32 pairs (any two of 21 in the thorough tier) in all labels, data, languages and URIs at once; or a triple with the URI itself.
//
//gosym:time=240
//gosym:native=no
func H_Triples() {
	s := text("text")
	sym.Assume(!strings.Contains(s, "\n")) // not part of any URI
	make_ := func(s string) []pages.Part {
		uri := impl.Label("http://e/" + s)
		return render(entityViewer(s, build{uri: uri}), "/entity/b1", "uri="+url.QueryEscape(string(uri)))
	}
	base := make_(plain)
	got := make_(s)
	same(base, got, s)
	harmless(got)
	graph(base, plain)
	graph(got, s)

	u := "http://e/" + plain
	lists(between(base, "Kinds", "Download as:"),
		"s1"+plain, "(", "c1"+plain, ")", "p1"+plain, "o1"+plain,
		"s2"+plain, "p2"+plain, "(", "c2"+plain, ")", "o2"+plain, "(", "c3"+plain, ")", "Inverted",
		"s3"+plain, "p3"+plain, "d3"+plain, "Data", "l3"+plain)
	lists(between(base, "Aliases", "Resolve URI"), "alias "+plain)
	sym.Assert(strings.Contains(texts(base)[0], u), "the title has the URI")
	n := 0
	for i, p := range base {
		if p.Tag == "h1" && !p.End {
			n++
			sym.Assert(base[i+1].Text == u, "the heading is the URI")
		}
	}
	sym.Assert(n == 1, "a page has a heading")
	nt, ttl := links(base, "NTriples"), links(base, "Turtle")
	sym.Assert(len(nt) == 1 && decoded(nt[0]) == "/api/v1/ntriples/b1?uri="+u && len(ttl) == 1 && decoded(ttl[0]) == "/api/v1/turtle/b1?uri="+u, "the downloads are those of the entity")
	sym.Cover("shown")
}

// H_Lists: the bundles and the entities of a bundle.
// Bounds: two bundles and two entities; texts with any of 21 special characters or one of 32 pairs (any two of 21 in the thorough tier) in the URIs, and in the names of the bundles.
//
//gosym:time=150
//gosym:native=no
func H_Lists() {
	s := text("text")
	make_ := func(s string) *viewer.Viewer {
		p := pathbuilder.NewPathbuilder()
		named(world.B(&p, "b1", nil, "E"), "bundle "+s)
		named(world.B(&p, "b2", nil, "E"), "other "+s)
		l := impl.Label(s)
		return pages.Ready(viewer.RenderFlags{}, pages.Cache(map[string][]wisski.Entity{"b1": {{URI: "http://e/" + l}, {URI: "x:" + l}, {URI: l}}, "b2": {}}), &p)
	}
	v, w := make_(plain), make_(s)
	base, got := render(v, "/", ""), render(w, "/", "")
	same(base, got, s)
	harmless(got)
	lists(between(base, "2 Bundles", "Resolve URI"), "bundle "+plain, "other "+plain)
	one, two := links(base, "bundle "+plain), links(base, "other "+plain)
	sym.Assert(len(one) == 1 && one[0] == "/bundle/b1" && len(two) == 1 && two[0] == "/bundle/b2", "a bundle's link leads to it")

	base, got = render(v, "/bundle/b1", ""), render(w, "/bundle/b1", "")
	same(base, got, s)
	harmless(got)
	for _, u := range []string{"http://e/" + plain, "x:" + plain, plain} {
		l := links(base, u)
		sym.Assert(len(l) == 1 && decoded(l[0]) == "/entity/b1?uri="+u, "an entity's link leads to it")
	}
	sym.Cover("shown")
}

// H_Links: values that are links, whatever they begin with.
// Bounds: values of link and image fields that are one of 7 beginnings, in any letter case for one letter, maybe after one of 6 characters, with any of 6 characters inserted or not and anything after them; images embedded or not.
//
//gosym:time=150
//gosym:native=no
func H_Links() {
	schemes := []string{"javascript", "data", "vbscript", "http", "mailto", "", "//x/y"}
	s := schemes[sym.Choose("scheme", len(schemes))]
	switch sym.Choose("how", 4) {
	case 1:
		if s != "" {
			s = strings.ToUpper(s[:1]) + s[1:]
		}
	case 2:
		s = sym.Alpha("before", 1, " \t\n\x01a/") + s
	case 3:
		if len(s) > 4 {
			s = s[:4] + sym.Alpha("inside", 1, "\t\n&a %") + s[4:]
		}
	}
	v := s + sym.Alpha("after", 1, ":/&?") + "x"
	flags := viewer.RenderFlags{ImageRender: sym.Bool("images"), HTMLRender: true}
	p := pathbuilder.NewPathbuilder()
	b := world.B(&p, "b1", nil, "E")
	field(b, "l", "link", "a link")
	field(b, "i", "image", "an image")
	f := []wisski.FieldValue{{Value: impl.Datum(v)}}
	w := pages.Ready(flags, pages.Cache(map[string][]wisski.Entity{"b1": {{URI: "http://e/1", Fields: map[string][]wisski.FieldValue{"l": f, "i": f}}}}), &p)
	got := render(w, "/entity/b1", "uri=http://e/1")
	harmless(got)
	n := 0
	for _, p := range got {
		if p.Tag == "img" {
			n++
		}
	}
	sym.Assert((n == 1) == flags.ImageRender, "images are embedded exactly when that is enabled")
	sym.Cover("shown")
}

// H_Rich: formatted texts.
// Bounds: values with elements, attributes and any of 8 special characters, with a link and an image below a public URL and one elsewhere; HTML rendering enabled or not, images embedded or not; in a field of formatted text and in one of text.
//
//gosym:time=150
//gosym:native=no
func H_Rich() {
	x := sym.Alpha("text", 1, "<>\"&a/'=")
	rich := "<b>m" + x + "m</b><a href=\"http://w/wisski/x\">l</a><img src=\"http://o/wisski/x\">"
	flags := viewer.RenderFlags{HTMLRender: sym.Bool("html"), ImageRender: sym.Bool("images"), PublicURL: "http://w/"}
	p := pathbuilder.NewPathbuilder()
	b := world.B(&p, "b1", nil, "E")
	field(b, "r", "text_long", "formatted")
	field(b, "t", []string{"string", "text", "", "text_with_summary"}[sym.Choose("type", 4)], "unformatted")
	v := func(s string) *viewer.Viewer {
		f := []wisski.FieldValue{{Value: impl.Datum(s)}}
		return pages.Ready(flags, pages.Cache(map[string][]wisski.Entity{"b1": {{URI: "http://e/1", Fields: map[string][]wisski.FieldValue{"r": f, "t": f}}}}), &p)
	}
	got := render(v(rich), "/entity/b1", "uri=http://e/1")
	base := render(v(plain), "/entity/b1", "uri=http://e/1")
	if !flags.HTMLRender {
		for _, p := range got {
			sym.Assert(p.Tag != "img", "no value is HTML")
		}
		n := 0
		for _, t := range texts(got) {
			if t == rich {
				n++
			}
		}
		sym.Assert(n == 2, "a value is shown as it is")
		sym.Cover("text")
		return
	}
	// exactly one of the values is HTML
	n, as, is := 0, 0, 0
	for _, t := range texts(got) {
		if t == rich {
			n++
		}
	}
	for _, p := range got {
		if h, _ := p.Attr("href"); p.Tag == "a" && h == "/wisski/x" {
			as++
		}
		sym.Assert(p.Tag != "a" || p.End || !strings.HasPrefix(p.Attrs[0].Val, "http://w/"), "links in a formatted text are rewritten")
		if h, _ := p.Attr("src"); p.Tag == "img" && h == "http://o/wisski/x" {
			is++
		}
	}
	sym.Assert(n == 1 && as == 1 && is == 1, "only formatted text is shown as HTML, all of it")
	sym.Assert(len(texts(got)) >= len(texts(base)), "a formatted text is shown")
	sym.Cover("html")
}

// H_Footer: what every page ends with.
// Bounds: texts with any of 21 special characters or one of 32 pairs (any two of 21 in the thorough tier) in the public URL, the predicates and the URL of TIPSY; a footer; four combinations of the flags, on three pages (not the page about licenses, which is long).
//
//gosym:time=150
//gosym:native=no
func H_Footer() {
	s := text("text")
	tipsy := sym.Bool("tipsy")
	html, images := sym.Bool("html"), sym.Bool("images")
	route := []string{"/", "/perf", "/pathbuilder", "/"}[sym.IteInt(html, 1, 0)+sym.IteInt(images, 2, 0)]
	sym.Assume(tipsy == (html != images))
	make_ := func(s string) []pages.Part {
		p := pathbuilder.NewPathbuilder()
		f := viewer.RenderFlags{PublicURL: "http://h/" + s, HTMLRender: html, ImageRender: images, Predicates: sparkl.Predicates{SameAs: []impl.Label{"same" + impl.Label(s), "too"}, InverseOf: []impl.Label{"inv" + impl.Label(s)}}}
		if tipsy {
			f.TipsyURL = "http://t/" + s
		}
		v := pages.Ready(f, pages.Cache(map[string][]wisski.Entity{}), &p)
		v.Footer = "<i>the footer</i>"
		return render(v, route, "")
	}
	base, got := make_(plain), make_(s)
	same(base, got, s)
	harmless(got)
	yes := map[bool]string{true: "true", false: "false"}
	want := []string{"the footer", "HTML Render: " + yes[html], "Image Render: " + yes[images], "Public URL: http://h/" + plain, "SameAs Predicates: [same" + plain + " too]", "InverseOf Predicates: [inv" + plain + "]", "Pathbuilder"}
	if tipsy {
		want = append(want, "TIPSY")
	}
	want = append(want, "Viewer Performance", "About & License Notices")
	lists(between(base, "Resolve URI", ""), want...)
	sym.Assert((len(links(base, "TIPSY")) == 1) == tipsy, "TIPSY is offered exactly when it is there")
	for _, p := range base {
		if p.Tag == "button" && !p.End || p.Tag == "input" {
			_, d := p.Attr("disabled")
			_, r := p.Attr("readonly")
			sym.Assert(!d && !r, "with data the form is enabled")
		}
	}
	sym.Cover("shown")
}

// H_Pathbuilder: the page of the pathbuilder and the page of the editor.
// Bounds: a bundle with two fields and a child bundle with one; texts with any of 21 special characters or one of 32 pairs (any two of 21 in the thorough tier) in all their properties, and in the URL of TIPSY.
//
//gosym:time=150
//gosym:native=no
func H_Pathbuilder() {
	s := text("text")
	make_ := func(s string) *viewer.Viewer {
		p := pathbuilder.NewPathbuilder()
		b := world.B(&p, "b1"+s, nil, "E")
		field(b, "one"+s, "typ"+s, "first"+s)
		f := &b.ChildFields[0]
		f.UUID, f.FieldTypeInformative, f.DisplayWidget, f.FormatterWidget, f.PathArray, f.DatatypeProperty = "uuid"+s, "info"+s, "disp"+s, "form"+s, []string{"p1" + s, "p2" + s}, "data"+s
		field(b, "two"+s, "t2", "second"+s)
		c := world.B(&p, "c1"+s, b, "E")
		field(c, "three"+s, "t3", "third"+s)
		return pages.Ready(viewer.RenderFlags{TipsyURL: "http://t/" + s}, pages.Cache(map[string][]wisski.Entity{}), &p)
	}
	v, w := make_(plain), make_(s)
	base, got := render(v, "/pathbuilder", ""), render(w, "/pathbuilder", "")
	same(base, got, s)
	harmless(got)
	var names []string
	for _, t := range texts(base) {
		for _, n := range []string{"b1", "one", "first", "uuid", "typ", "(info", "disp", "form", "p1", "p2", "data", "two", "second", "c1", "three", "third"} {
			if t == n+plain || t == n+plain+")" {
				names = append(names, n)
			}
		}
	}
	sym.Assert(strings.Join(names, " ") == "b1 one uuid one first typ (info disp form p1 p2 data two two second c1 three three third", "the pathbuilder is shown in full")

	pbm.SetText("<xml " + plain + ">")
	base = render(v, "/tipsy", "")
	pbm.SetText("<xml " + s + ">")
	got = render(w, "/tipsy", "")
	same(base, got, s)
	harmless(got)
	n := 0
	for _, p := range base {
		if i, _ := p.Attr("id"); i == "tipsy" {
			u, _ := p.Attr("data-url")
			d, _ := p.Attr("data-data")
			f, _ := p.Attr("data-filename")
			sym.Assert(u == "http://t/"+plain && d == "<xml "+plain+">" && f == "hangover.xml", "the editor gets the pathbuilder")
			n++
		}
	}
	sym.Assert(n == 1, "there is an editor")
	sym.Cover("shown")
}

// H_Loading: pages while the data is loading.
// Bounds: every page, before there is data; texts with any of 21 special characters or one of 32 pairs (any two of 21 in the thorough tier) in the public URL, or none.
//
//gosym:time=100
//gosym:native=no
func H_Loading() {
	s := text("text")
	route := []string{"/", "/bundle/b1", "/entity/b1", "/pathbuilder", "/tipsy", "/perf"}[sym.Choose("page", 6)]
	public := sym.Bool("public")
	sym.Assume(sym.Or(s == plain, sym.And(public, route == "/")))
	make_ := func(s string) []pages.Part {
		f := viewer.RenderFlags{TipsyURL: "http://t/"}
		if public {
			f.PublicURL = "http://h/" + s
		}
		v := pages.Loading(f)
		return render(v, route, "uri=http://e/1")
	}
	base, got := make_(plain), make_(s)
	same(base, got, s)
	harmless(got)
	if route != "/perf" {
		sym.Assert(texts(base)[0] == "Hangover - Loading", "the page says that the data is loading")
	}
	n := 0
	for _, p := range base {
		_, d := p.Attr("disabled")
		_, r := p.Attr("readonly")
		if p.Tag == "button" && d || p.Tag == "input" && r {
			n++
		}
	}
	sym.Assert(n == 2, "without data the form is disabled")
	sym.Cover("loading")
}

// agree says that a JSON value is another one with some other text in place of plain.
func agree(base, got any, with string) {
	switch b := base.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		sym.Assert(ok && len(g) == len(b), "data does not change an object")
		for k, v := range b {
			x, ok := g[strings.ReplaceAll(k, plain, with)]
			sym.Assert(ok, "data does not change an object")
			agree(v, x, with)
		}
	case []any:
		g, ok := got.([]any)
		sym.Assert(ok && len(g) == len(b), "data does not change a list")
		for i, v := range b {
			agree(v, g[i], with)
		}
	case string:
		g, ok := got.(string)
		sym.Assert(ok && sym.EqStr(g, strings.ReplaceAll(b, plain, with)), "data is sent as the text it is")
	default:
		sym.Assert(base == got, "data changes nothing else")
	}
}

func sent(v http.Handler, path, query string, code int) any {
	a := pages.Ask(v, path, query)
	sym.Assert(a.Code == code && a.Header().Get("Content-Type") == "application/json", "an endpoint answers")
	x, ok := js.Parse(strings.TrimSpace(a.Body()))
	sym.Assert(ok, "an endpoint sends one well-formed JSON value")
	return x
}

// at goes into a JSON value.
func at(v any, path ...any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, ok := v.(map[string]any)
			sym.Assert(ok, "an endpoint sends an object")
			v, ok = m[k]
			sym.Assert(ok, "an endpoint sends everything")
		case int:
			l, ok := v.([]any)
			sym.Assert(ok && k < len(l), "an endpoint sends everything")
			v = l[k]
		}
	}
	return v
}

// H_JSON: what the endpoints send.
// Bounds: the entity of H_Values and H_Triples, the list of its bundle, and the list of bundles; texts with any of 21 special characters or one of 32 pairs (any two of 21 in the thorough tier) in every string at once; before there is data and after.
//
//gosym:time=150
//gosym:native=no
func H_JSON() {
	s := text("text")
	sym.Assume(!strings.Contains(s, "\n")) // not part of any URI
	uri := impl.Label("http://e/")
	v, w := entityViewer(plain, build{uri: uri + plain}), entityViewer(s, build{uri: uri + impl.Label(s)})
	base := sent(v, "/api/v1/entity/b1", "uri="+url.QueryEscape(string(uri)+plain), http.StatusOK)
	agree(base, sent(w, "/api/v1/entity/b1", "uri="+url.QueryEscape(string(uri)+s), http.StatusOK), s)
	for _, c := range []struct {
		want string
		path []any
	}{
		{string(uri) + plain, []any{"URI"}}, {string(uri) + plain, []any{"Path", 0}},
		{"one " + plain, []any{"Fields", "f_string", 0, "Value"}}, {"", []any{"Fields", "f_string", 0, "Language"}},
		{"two " + plain, []any{"Fields", "f_string", 1, "Value"}}, {"lang " + plain, []any{"Fields", "f_string", 1, "Language"}},
		{"http://i/" + plain, []any{"Fields", "f_image", 0, "Value"}},
		{"first", []any{"Children", "c1", 0, "URI"}}, {"more " + plain, []any{"Children", "c1", 1, "Fields", "g", 0, "Value"}},
		{"s1" + plain, []any{"Triples", 0, "Subject"}}, {"c1" + plain, []any{"Triples", 0, "SSubject"}}, {"o1" + plain, []any{"Triples", 0, "Object"}},
		{"c2" + plain, []any{"Triples", 1, "SPredicate"}}, {"c3" + plain, []any{"Triples", 1, "SObject"}}, {"p2" + plain, []any{"Triples", 1, "Predicate"}},
		{"d3" + plain, []any{"Triples", 2, "Datum"}}, {"l3" + plain, []any{"Triples", 2, "Language"}},
	} {
		sym.Assert(at(base, c.path...) == c.want, "an endpoint sends everything")
	}
	sym.Assert(at(base, "Triples", 1, "Role") == js.Number("1") && at(base, "Triples", 2, "Role") == js.Number("2"), "an endpoint sends the kinds of triples")
	sym.Assert(len(at(base, "Fields").(map[string]any)) == 5 && len(at(base, "Children").(map[string]any)) == 1 && len(at(base, "Triples").([]any)) == 3, "an endpoint sends everything")

	list := sent(v, "/api/v1/bundle/b1", "", http.StatusOK)
	agree(list, sent(w, "/api/v1/bundle/b1", "", http.StatusOK), s)
	sym.Assert(len(list.([]any)) == 1 && at(list, 0) == string(uri)+plain, "a bundle lists its entities")
	list = sent(v, "/api/v1", "", http.StatusOK)
	sym.Assert(len(list.([]any)) == 1 && at(list, 0) == "b1", "the index lists the bundles")

	none := pages.Loading(viewer.RenderFlags{})
	for _, p := range []string{"/api/v1", "/api/v1/bundle/b1", "/api/v1/entity/b1", "/api/v1/ntriples/b1"} {
		m := sent(none, p, "uri=x", http.StatusServiceUnavailable)
		sym.Assert(at(m, "Progress", "Done") == false, "before there is data an endpoint says so")
	}
	sym.Assert(at(sent(none, "/api/v1/progress", "", http.StatusOK), "Done") == false && at(sent(v, "/api/v1/progress", "", http.StatusOK), "Done") == true, "the progress says whether there is data")
	sent(v, "/api/v1/perf", "", http.StatusOK)
	sym.Cover("sent")
}
