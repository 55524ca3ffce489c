// Package c21: the content security policy.
package c21

import (
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/web"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func space(c byte) bool {
	return sym.Or(sym.Or(c == ' ', c == '\t'), sym.Or(sym.Or(c == '\n', c == '\f'), c == '\r'))
}

// fields splits a text at ASCII white space, which is what separates the parts of a directive.
func fields(s string) (out []string) {
	start := -1
	for i := 0; i < len(s); i++ {
		if space(s[i]) {
			if start >= 0 {
				out = append(out, s[start:i])
			}
			start = -1
		} else if start < 0 {
			start = i
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

// cut splits a text at every separator.
func cut(s string, sep byte) (out []string) {
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return append(out, s[start:])
}

// policy parses the header as a browser does.
func policy(a *web.Answer) map[string][]string {
	sym.Assert(len(a.Header()["Content-Security-Policy"]) == 1, "every answer has one content security policy")
	header := a.Get("Content-Security-Policy")
	policies := cut(header, ',')
	sym.Assert(len(policies) == 1, "the header is a single policy")
	p := make(map[string][]string)
	for _, d := range cut(policies[0], ';') {
		parts := fields(d)
		if len(parts) == 0 {
			continue
		}
		name := parts[0]
		switch name {
		case "default-src", "connect-src", "script-src", "font-src", "style-src", "frame-src", "img-src", "media-src":
		default:
			sym.Assert(false, "the policy has only the known directives")
		}
		_, again := p[name]
		sym.Assert(!again, "a directive is given once")
		p[name] = parts[1:]
	}
	return p
}

func is(p map[string][]string, name string, sources ...string) {
	got, ok := p[name]
	sym.Assert(ok && len(got) == len(sources), "a directive has the sources the flags say")
	for i, s := range sources {
		sym.Assert(sym.EqStr(got[i], s), "a directive has the sources the flags say")
	}
}

func none(p map[string][]string, name string) {
	_, ok := p[name]
	sym.Assert(!ok, "a directive is absent unless the flags say so")
}

// isURL says that a source is an http(s) URL.
func isURL(s string) bool {
	return strings.HasPrefix(s, "http://") && len(s) > len("http://") || strings.HasPrefix(s, "https://") && len(s) > len("https://")
}

// inert says that a source matches nothing because it is neither a scheme, a host nor a keyword.
func inert(s string) bool { return strings.HasPrefix(s, "http:/") || strings.HasPrefix(s, "https:/") }

// fixed checks all but the sources of frames, images and media.
func fixed(p map[string][]string, f viewer.RenderFlags) {
	is(p, "default-src", "'none'")
	is(p, "connect-src", "'self'")
	is(p, "script-src", "'self'")
	is(p, "font-src", "'self'")
	if f.HTMLRender {
		is(p, "style-src", "'self'", "'unsafe-inline'")
	} else {
		is(p, "style-src", "'self'")
	}
}

// content checks images and media.
func content(p map[string][]string, f viewer.RenderFlags, check func(string)) {
	if f.HTMLRender || f.ImageRender {
		check("img-src")
	} else {
		none(p, "img-src")
	}
	if f.HTMLRender {
		check("media-src")
	} else {
		none(p, "media-src")
	}
}

// ask sends a request to a viewer with the flags.
func ask(f viewer.RenderFlags, path, query string, ready bool) *web.Answer {
	if !ready {
		return web.Ask(web.New(f), web.Request(path, query))
	}
	p := pathbuilder.NewPathbuilder()
	world.B(&p, "b", nil, "E")
	v := web.Ready(f, web.Cache(map[string][]wisski.Entity{"b": {{URI: "e"}}}), &p)
	return web.Ask(v, web.Request(path, query))
}

func flags() viewer.RenderFlags {
	return viewer.RenderFlags{HTMLRender: sym.Bool("html"), ImageRender: sym.Bool("image"), StrictCSP: sym.Bool("strict")}
}

// H_Flags: every combination of flags, at every route.
// Bounds: all combinations of the flags with no, an http, an https and another tipsy URL and none, one or two public URLs; every kind of route (pages, redirect, API, not found), before and after the data is there.
//
//gosym:time=100
//gosym:native=no
func H_Flags() {
	f := flags()
	tipsy := []string{"", "http://t", "https://t/x?a=b", "ftp://t", "'self'", "httpx://t"}[sym.Choose("tipsy", 6)]
	f.TipsyURL = tipsy
	k := sym.Choose("public", 5)
	f.PublicURL = []string{"", "http://w", "https://w/x", "http://w,https://v/y", "w\nhttps://v:80"}[k]
	want := [][]string{{}, {"http://w", "https://w"}, {"http://w/x", "https://w/x"}, {"http://w", "https://w", "http://v/y", "https://v/y"}, {"http://w", "https://w", "http://v:80", "https://v:80"}}[k]
	if !f.StrictCSP {
		want = []string{"*"}
	}
	r := [][2]string{{"/", ""}, {"/about", ""}, {"/bundle/b", ""}, {"/entity/b", "uri=e"}, {"/wisski/get", "uri=e"}, {"/wisski/get", "uri=x"}, {"/api/v1", ""}, {"/api/v1/ntriples/b", "uri=e"}, {"/tipsy", ""}, {"/nothing", ""}, {"//about", ""}}[sym.Choose("route", 11)]
	p := policy(ask(f, r[0], r[1], sym.Bool("ready")))
	fixed(p, f)
	if tipsy == "http://t" || tipsy == "https://t/x?a=b" {
		is(p, "frame-src", tipsy)
	} else {
		none(p, "frame-src")
	}
	content(p, f, func(name string) {
		got := p[name]
		sym.Assert(len(got) == len(want), "a directive has the sources the flags say")
		for _, s := range want {
			found := false
			for _, g := range got {
				found = found || g == s
			}
			sym.Assert(found, "a directive has the sources the flags say")
		}
		sym.Cover("content")
	})
}

// special are characters that have a meaning in URLs, lists or policies, and a letter.
const special = ",\n ;'*/:?#%@a.\t\"\r\f"

// text is any two special characters (three in the thorough tier), or any byte.
func text(name string) string {
	if sym.Bool("any byte") {
		return sym.String(name, 1)
	}
	return sym.Alpha(name, 2+sym.Tier(), special)
}

// H_Tipsy: no tipsy URL adds a directive or a source.
// Bounds: tipsy URLs of "http://t" or "https://t" followed by any byte, or by 2 of 18 special characters (3 in the thorough tier), and "/x"; of any byte or these and ://t; and of 9 bytes that differ from "https://t" in one arbitrary byte; without rendering.
//
//gosym:time=100
//gosym:native=no
func H_Tipsy() {
	var f viewer.RenderFlags
	allowed := true
	x := "x"
	switch sym.Choose("form", 4) {
	case 0:
		x = text("tipsy")
		f.TipsyURL = "http://t" + x + "/x"
	case 1:
		x = text("tipsy")
		f.TipsyURL = "https://t" + x + "/x"
	case 2:
		f.TipsyURL = text("tipsy") + "://t"
		allowed = false
	case 3:
		i := sym.Choose("place", 8)
		t, x := "https://t", sym.String("tipsy", 1)
		sym.Assume(x[0] != t[i])
		f.TipsyURL = t[:i] + x[:1] + t[i+1:]
		allowed = false
	}
	p := policy(ask(f, "/about", "", false))
	fixed(p, f)
	none(p, "img-src")
	none(p, "media-src")
	if !allowed {
		none(p, "frame-src")
		sym.Cover("refused")
		return
	}
	got, ok := p["frame-src"]
	if !ok {
		sym.Cover("?unusable")
		return
	}
	sym.Assert(len(got) == 1 && isURL(got[0]), "a tipsy URL is a single source")
	plain := true
	for i := 0; i < len(x); i++ {
		plain = sym.And(plain, sym.Or(sym.And(x[i] >= 'a', x[i] <= 'z'), x[i] == '/'))
	}
	sym.Assert(sym.Implies(plain, sym.EqStr(got[0], f.TipsyURL)), "a tipsy URL is its own source")
	sym.Cover("frame")
}

// H_Public: no public URL adds a directive, or a source that allows more than it says.
// Bounds: the strict setting; the public URLs are "http://w" and a text, a text alone, or a text after a comma, of any byte or of 2 of 18 special characters (3 in the thorough tier).
//
//gosym:time=150
//gosym:native=no
func H_Public() {
	f := viewer.RenderFlags{HTMLRender: true, StrictCSP: true}
	x := text("public")
	switch sym.Choose("form", 4) {
	case 0:
		f.PublicURL = "http://w" + x
	case 1:
		f.PublicURL = x
	case 2:
		f.PublicURL = "http://w," + x
	case 3:
		f.PublicURL = "https:" + x
	}
	items := 1
	for i := 0; i < len(f.PublicURL); i++ {
		items += sym.IteInt(sym.Or(f.PublicURL[i] == ',', f.PublicURL[i] == '\n'), 1, 0)
	}
	p := policy(ask(f, "/about", "", false))
	fixed(p, f)
	none(p, "frame-src")
	content(p, f, func(name string) {
		got, ok := p[name]
		sym.Assert(ok, "a directive has the sources the flags say")
		sym.Assert(len(got) <= 2*items, "every public URL gives at most its own sources")
		for _, s := range got {
			sym.Assert(isURL(s) || inert(s), "a source is a URL that names a place")
		}
	})
	sym.Cover("checked")
}
