// Package c20: resolving a URI redirects to the entity that has it.
package c20

import (
	"net/http"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/web"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

const digits = "0123456789ABCDEF"

// encode writes a query value: letters and digits as they are, everything else as a byte in hexadecimal.
func encode(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' {
			b.WriteByte(c)
		} else {
			b.WriteByte('%')
			b.WriteByte(digits[c>>4])
			b.WriteByte(digits[c&15])
		}
	}
	return b.String()
}

// parse splits a redirect into the decoded path and the query.
func parse(location string) (path, query string) {
	sym.Assert(strings.HasPrefix(location, "/") && !strings.HasPrefix(location, "//"), "a redirect stays on this server")
	sym.Assert(strings.IndexByte(location, '#') < 0, "a redirect has no fragment")
	path, query, ok := strings.Cut(location, "?")
	sym.Assert(ok, "a redirect has a query")
	segs := strings.Split(path, "/")
	for i, s := range segs {
		d, ok := web.Unescape(strings.ReplaceAll(s, "+", "%2B"))
		sym.Assert(ok, "a redirect is properly encoded")
		segs[i] = d
	}
	return strings.Join(segs, "/"), query
}

// value decodes a query that has only a uri.
func value(query string) string {
	sym.Assert(strings.HasPrefix(query, "uri="), "the query is the URI")
	query = query[len("uri="):]
	sym.Assert(strings.IndexByte(query, '&') < 0 && strings.IndexByte(query, ';') < 0, "the query has only the URI")
	for i := 0; i < len(query); i++ {
		sym.Assert(query[i] > ' ' && query[i] < 0x7f, "the query is printable")
	}
	s, ok := web.Unescape(query)
	sym.Assert(ok, "the query is properly encoded")
	return s
}

// trimmed says that a text of up to two bytes has no white space around it.
func trimmed(s string) bool {
	space := func(c byte) bool { return sym.Or(sym.And(c >= '\t', c <= '\r'), c == ' ') }
	first, last := s[0], s[len(s)-1]
	ok := sym.And(!space(first), !space(last))
	if len(s) == 2 {
		ok = sym.And(ok, !sym.And(first == 0xc2, sym.Or(last == 0x85, last == 0xa0)))
	}
	return ok
}

func uri(name string, n int) impl.Label {
	s := sym.String(name, n)
	sym.Assume(trimmed(s))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '\n')
	}
	return impl.Label(s)
}

func pb(names ...string) *pathbuilder.Pathbuilder {
	p := pathbuilder.NewPathbuilder()
	for _, n := range names {
		world.B(&p, n, nil, "E")
	}
	return &p
}

// resolved says that a redirect leads to the entity page of the URI in the bundle.
func resolved(v *viewer.Viewer, a *web.Answer, canon impl.Label, bundle string) {
	sym.Assert(a.Code == http.StatusTemporaryRedirect, "the request is redirected")
	path, query := parse(a.Get("Location"))
	sym.Assert(path == "/entity/"+bundle, "the redirect names the bundle")
	sym.Assert(value(query) == string(canon), "the query is exactly the canonical URI")
	page := web.Ask(v, web.Request(path, query))
	data := page.Page("entity.html")
	e := sym.Field(data, "Entity").(*wisski.Entity)
	sym.Assert(e.URI == canon, "the redirect leads to the entity")
	sym.Cover("redirected")
}

// H_Resolve: a URI that an entity has, directly or as an alias, or that none has.
// Bounds: entities of arbitrary two-byte (first byte fixed in the quick tier) and one-byte URI in two bundles, an arbitrary one-byte alias of the first; the requested URI is one of them or any other one-byte text (without line breaks and outer white space).
//gosym:time=200
//gosym:native=no
func H_Resolve() {
	e1, e2 := uri("e1", 1+sym.Tier()), uri("e2", 1)
	if sym.Tier() == 0 {
		e1 = "a" + e1
	}
	alias := uri("alias", 1)
	sym.Assume(alias != e2)
	v := web.Ready(viewer.RenderFlags{}, web.Cache(map[string][]wisski.Entity{"one": {{URI: e1}}, "two": {{URI: e2}}}, web.Alias{From: alias, To: e1}), pb("one", "two"))
	ask := func(u impl.Label) *web.Answer { return web.Ask(v, web.Request("/wisski/get", "uri="+encode(string(u)))) }
	switch sym.Choose("ask", 4) {
	case 0:
		resolved(v, ask(e1), e1, "one")
	case 1:
		resolved(v, ask(e2), e2, "two")
	case 2:
		resolved(v, ask(alias), e1, "one")
	case 3:
		u := uri("u", 1)
		sym.Assume(u != e2 && u != alias)
		a := ask(u)
		sym.Assert(a.Code == http.StatusNotFound && a.Get("Location") == "", "a URI no entity has is not found")
		sym.Cover("not found")
	}
}

// H_Bundle: bundles of any name.
// Bounds: a bundle whose name is any byte except slash, alone and before and after a letter, or (thorough) any two bytes except slash; not a single or double dot.
//gosym:time=90
//gosym:native=no
func H_Bundle() {
	name := sym.String("bundle", 1)
	switch sym.Choose("shape", 3+sym.Tier()) {
	case 1:
		name += "b"
	case 2:
		name = "b" + name
	case 3:
		name += sym.String("bundle", 1)
	}
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != '/')
	}
	sym.Assume(name != "." && name != "..")
	v := web.Ready(viewer.RenderFlags{}, web.Cache(map[string][]wisski.Entity{name: {{URI: "u"}}}), pb(name))
	resolved(v, web.Ask(v, web.Request("/wisski/get", "uri=u")), "u", name)
}

const unescaped = "aZ09-_.~$&+,;=:@!'()*"

// H_Navigate: WissKI navigation paths under public URLs.
// Bounds: two public URLs, one with a path, separated by a comma or a line break with or without white space; ids of one character (thorough two) that need no escaping, alone and after a digit; the entity has the URI made from either public URL with either scheme, or a URI that is none of these.
//gosym:time=100
//gosym:native=no
func H_Navigate() {
	id := sym.Alpha("id", 1+sym.Tier(), unescaped)
	if sym.Bool("long") {
		id = "1" + id
	}
	sym.Assume(id != "." && id != "..")
	path := "/wisski/navigate/" + id + "/view"
	publics := []string{"http://a.example", "https://a.example", "http://b.example/w", "https://b.example/w"}
	flags := viewer.RenderFlags{PublicURL: "https://a.example" + []string{", ", "\n", ",", " \r\n"}[sym.Choose("separator", 4)] + "http://b.example/w"}
	k := sym.Choose("public", 6)
	e := impl.Label("http://c.example" + path)
	if k < 4 {
		e = impl.Label(publics[k] + path)
	} else if k == 4 {
		e = impl.Label(publics[0] + path + "/")
	}
	canon := e
	var aliases []web.Alias
	if sym.Bool("alias") {
		canon = "http://canon"
		aliases = append(aliases, web.Alias{From: e, To: canon})
	}
	v := web.Ready(flags, web.Cache(map[string][]wisski.Entity{"one": {{URI: "http://other"}, {URI: canon}}}, aliases...), pb("one"))
	a := web.Ask(v, web.Request(path, ""))
	if k >= 4 {
		sym.Assert(a.Code == http.StatusNotFound && a.Get("Location") == "", "a path no entity has is not found")
		sym.Cover("not found")
		return
	}
	sym.Assert(a.Code == http.StatusTemporaryRedirect, "the request is redirected")
	p, q := parse(a.Get("Location"))
	sym.Assert(p == "/wisski/get", "the redirect leads to the resolver")
	sym.Assert(value(q) == string(e), "the query is exactly the public URI")
	resolved(v, web.Ask(v, web.Request(p, q)), canon, "one")
}
