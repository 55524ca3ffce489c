// Package web asks a viewer and records what it answers.
package web

import (
	"net/http"
	"net/url"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/env"
	"github.com/FAU-CDI/hangover/internal/zverif/model/jsonm"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/muxm"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/pbm"
	"github.com/FAU-CDI/hangover/internal/zverif/model/tmpl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// Answer is a recorded response.
type Answer struct {
	head   http.Header
	Code   int
	Body   string
	Status int // how often a status was written
	Pages  []tmpl.Rendered
	Values []any
}

func (a *Answer) Header() http.Header {
	if a.head == nil {
		a.head = make(http.Header)
	}
	return a.head
}

func (a *Answer) WriteHeader(code int) {
	a.Status++
	if a.Code == 0 {
		a.Code = code
	}
}

func (a *Answer) Write(p []byte) (int, error) {
	if a.Code == 0 {
		a.WriteHeader(http.StatusOK)
	}
	a.Body += string(p)
	return len(p), nil
}

func (a *Answer) Get(name string) string { return a.Header().Get(name) }

// Request is a request as the server makes it from the target of a request line.
func Request(path, query string) *http.Request {
	return &http.Request{Method: http.MethodGet, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: make(http.Header), Host: "localhost", URL: &url.URL{Path: path, RawQuery: query}}
}

// Ask sends a request.
func Ask(v http.Handler, r *http.Request) *Answer {
	a := new(Answer)
	pages, values := len(tmpl.All()), len(jsonm.Encoded())
	v.ServeHTTP(a, r)
	a.Pages, a.Values = tmpl.All()[pages:], jsonm.Encoded()[values:]
	if a.Code == 0 {
		a.Code = http.StatusOK
	}
	return a
}

// AskBeside sends a request while others may be answered; what was written must be concrete.
func AskBeside(v http.Handler, r *http.Request) *Answer {
	a := new(Answer)
	v.ServeHTTP(a, r)
	if a.Code == 0 {
		a.Code = http.StatusOK
	}
	return a
}

// Collect finds what the answers of AskBeside contain.
func (a *Answer) Collect() {
	for _, p := range tmpl.All() {
		if strings.Contains(a.Body, p.Mark) {
			a.Pages = append(a.Pages, p)
		}
	}
	for i, v := range jsonm.Encoded() {
		if strings.Contains(a.Body, jsonm.Mark(i)) {
			a.Values = append(a.Values, v)
		}
	}
}

// Page is the data of the only page rendered.
func (a *Answer) Page(name string) any {
	sym.Assert(len(a.Pages) == 1 && a.Pages[0].Name == name, "exactly the page is rendered")
	return a.Pages[0].Data
}

// Alias is an identity.
type Alias struct{ From, To impl.Label }

// Cache makes a cache.
func Cache(ents map[string][]wisski.Entity, aliases ...Alias) *sparkl.Cache {
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	for _, a := range aliases {
		sym.Assert(ids.Set(a.From, a.To) == nil, "no operation fails")
	}
	c, err := sparkl.NewCache(ents, &ids, nil)
	sym.Assert(err == nil, "no operation fails")
	return &c
}

// New makes a viewer with the flags.
func New(flags viewer.RenderFlags) *viewer.Viewer {
	return &viewer.Viewer{Stats: stats.NewStats(nil), RenderFlags: flags}
}

// Ready makes a viewer that has its data.
func Ready(flags viewer.RenderFlags, cache *sparkl.Cache, pb *pathbuilder.Pathbuilder) *viewer.Viewer {
	v := New(flags)
	v.Prepare(cache, pb)
	return v
}

// Unescape decodes a query value as a form does, or says it is malformed.
func Unescape(s string) (string, bool) {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			out = append(out, ' ')
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, ok1 := digit(s[i+1])
			l, ok2 := digit(s[i+2])
			if !sym.And(ok1, ok2) {
				return "", false
			}
			out = append(out, h<<4|l)
			i += 2
		default:
			out = append(out, s[i])
		}
	}
	return string(out), true
}

func digit(c byte) (byte, bool) {
	low := c <= '9'
	return byte(sym.IteInt(low, int(c)-'0', int(c)-'A'+10)), sym.Or(sym.And(c >= '0', low), sym.And(c >= 'A', c <= 'F'))
}
