// Package pages asks a viewer for pages, which are rendered for real, and reads them.
package pages

import (
	"net/http"
	"net/url"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/env"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/muxm"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/pbm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
	"golang.org/x/net/html"
)

// Answer is a recorded response.
type Answer struct {
	head http.Header
	Code int
	body []byte
}

func (a *Answer) Header() http.Header {
	if a.head == nil {
		a.head = make(http.Header)
	}
	return a.head
}

func (a *Answer) WriteHeader(code int) {
	if a.Code == 0 {
		a.Code = code
	}
}

func (a *Answer) Write(p []byte) (int, error) {
	a.WriteHeader(http.StatusOK)
	a.body = append(a.body, p...)
	return len(p), nil
}

// Body is what was sent.
func (a *Answer) Body() string { return string(a.body) }

// Ask sends a request.
func Ask(v http.Handler, path, query string) *Answer {
	a := new(Answer)
	v.ServeHTTP(a, &http.Request{Method: http.MethodGet, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: make(http.Header), Host: "localhost", URL: &url.URL{Path: path, RawQuery: query}})
	a.WriteHeader(http.StatusOK)
	return a
}

// Cache makes a cache; aliases are pairs.
func Cache(ents map[string][]wisski.Entity, aliases ...impl.Label) *sparkl.Cache {
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	for i := 0; i+1 < len(aliases); i += 2 {
		sym.Assert(ids.Set(aliases[i], aliases[i+1]) == nil, "no operation fails")
	}
	c, err := sparkl.NewCache(ents, &ids, nil)
	sym.Assert(err == nil, "no operation fails")
	return &c
}

// Ready makes a viewer that has its data.
func Ready(flags viewer.RenderFlags, cache *sparkl.Cache, pb *pathbuilder.Pathbuilder) *viewer.Viewer {
	v := &viewer.Viewer{Stats: stats.NewStats(nil), RenderFlags: flags}
	v.Prepare(cache, pb)
	return v
}

// Loading makes a viewer that has no data yet.
func Loading(flags viewer.RenderFlags) *viewer.Viewer {
	return &viewer.Viewer{Stats: stats.NewStats(nil), RenderFlags: flags}
}

// Part is a piece of a page: the start of an element, its end, or the text in between.
type Part struct {
	Tag   string // empty for a text
	End   bool
	Attrs []html.Attribute
	Text  string // without space around it
	In    string // what a text is in: the elements that are open
}

// Attr is the value of an attribute.
func (p Part) Attr(name string) (string, bool) {
	for _, a := range p.Attrs {
		if a.Key == name {
			return a.Val, true
		}
	}
	return "", false
}

// Shape says what the piece is, without the values in it.
func (p Part) Shape() string {
	s := p.Tag
	if p.End {
		s = "/" + s
	}
	for _, a := range p.Attrs {
		s += " " + a.Key
	}
	return s
}

// Read takes a page apart like a browser.
func Read(page string) (parts []Part) {
	z := html.NewTokenizer(strings.NewReader(page))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return parts
		case html.TextToken:
			t := string(z.Text())
			if t = strings.TrimSpace(t); t != "" {
				in := ""
				if n := len(parts); n > 0 && !parts[n-1].End {
					in = parts[n-1].Tag
				}
				parts = append(parts, Part{Text: t, In: in})
			}
		case html.StartTagToken, html.SelfClosingTagToken:
			t := z.Token()
			parts = append(parts, Part{Tag: t.Data, Attrs: t.Attr})
		case html.EndTagToken:
			t := z.Token()
			parts = append(parts, Part{Tag: t.Data, End: true})
		case html.CommentToken:
			parts = append(parts, Part{Tag: "!--"})
		}
	}
}
