// Package muxm models gorilla/mux: routes are matched in order against cleaned paths and queries.
package muxm

import (
	"net/http"
	"net/url"
	"path"
	"strings"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
	"github.com/gorilla/mux"
)

type query struct{ key, name, pattern string }

type route struct {
	template string
	prefix   bool
	handler  http.Handler
	queries  []query
}

type router struct{ routes []*route }

func of(r *mux.Router) *router {
	s, _ := model.Attached(r).(*router)
	if s == nil {
		s = &router{}
		model.Attach(r, s)
	}
	return s
}

func add(r *mux.Router, t *route) *mux.Route {
	s := of(r)
	s.routes = append(s.routes, t)
	m := new(mux.Route)
	model.Attach(m, t)
	return m
}

func get(m *mux.Route) *route {
	t, _ := model.Attached(m).(*route)
	if t == nil {
		model.Unsupported("a route that was not made by a router")
	}
	return t
}

//gosym:replace github.com/gorilla/mux.NewRouter
func newRouter() *mux.Router { return new(mux.Router) }

//gosym:replace (*github.com/gorilla/mux.Router).HandleFunc
func handleFunc(r *mux.Router, path string, f func(http.ResponseWriter, *http.Request)) *mux.Route {
	return add(r, &route{template: path, handler: http.HandlerFunc(f)})
}

//gosym:replace (*github.com/gorilla/mux.Router).Handle
func handle(r *mux.Router, path string, h http.Handler) *mux.Route {
	return add(r, &route{template: path, handler: h})
}

//gosym:replace (*github.com/gorilla/mux.Router).PathPrefix
func pathPrefix(r *mux.Router, path string) *mux.Route {
	return add(r, &route{template: path, prefix: true})
}

//gosym:replace (*github.com/gorilla/mux.Route).Handler
func routeHandler(m *mux.Route, h http.Handler) *mux.Route { get(m).handler = h; return m }

//gosym:replace (*github.com/gorilla/mux.Route).HandlerFunc
func routeHandlerFunc(m *mux.Route, f func(http.ResponseWriter, *http.Request)) *mux.Route {
	get(m).handler = http.HandlerFunc(f)
	return m
}

//gosym:replace (*github.com/gorilla/mux.Route).Queries
func queries(m *mux.Route, pairs ...string) *mux.Route {
	t := get(m)
	for i := 0; i+1 < len(pairs); i += 2 {
		v := pairs[i+1]
		if len(v) < 2 || v[0] != '{' || v[len(v)-1] != '}' {
			model.Unsupported("a query of a route that is not a variable")
		}
		name, pattern, ok := strings.Cut(v[1:len(v)-1], ":")
		if !ok {
			pattern = ".*"
		}
		t.queries = append(t.queries, query{pairs[i], name, pattern})
	}
	return m
}

// matches decides the patterns of a single variable.
func matches(pattern, s string) bool {
	switch pattern {
	case "[^/]+":
		return s != "" && strings.IndexByte(s, '/') < 0
	case ".+", ".*":
		return (s != "" || pattern == ".*") && strings.IndexByte(s, '\n') < 0
	case `\d+`, `\d*`, "[0-9]+":
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				return false
			}
		}
		return s != "" || pattern == `\d*`
	}
	model.Unsupported("the pattern " + pattern + " of a route")
	return false
}

func matchPath(t *route, p string, vars map[string]string) bool {
	if t.prefix {
		return strings.HasPrefix(p, t.template)
	}
	parts := strings.Split(t.template, "/")
	for i, part := range parts {
		seg, rest := p, ""
		if i < len(parts)-1 {
			k := strings.IndexByte(p, '/')
			if k < 0 {
				return false
			}
			seg, rest = p[:k], p[k+1:]
		}
		if len(part) > 1 && part[0] == '{' && part[len(part)-1] == '}' {
			name, pattern, ok := strings.Cut(part[1:len(part)-1], ":")
			if !ok {
				pattern = "[^/]+"
			}
			if strings.IndexByte(pattern, '/') >= 0 && pattern != "[^/]+" {
				model.Unsupported("the pattern " + pattern + " of a route")
			}
			if strings.IndexByte(seg, '/') >= 0 || !matches(pattern, seg) {
				return false
			}
			vars[name] = seg
		} else if strings.IndexByte(part, '{') >= 0 {
			model.Unsupported("the template " + t.template + " of a route")
		} else if seg != part {
			return false
		}
		p = rest
	}
	return true
}

// first is findFirstQueryKey of mux.
func first(raw, key string) (string, bool) {
	rest := raw
	for len(rest) > 0 {
		k := rest
		if i := strings.IndexAny(rest, "&;"); i >= 0 {
			k, rest = rest[:i], rest[i+1:]
		} else {
			rest = ""
		}
		if len(k) == 0 {
			continue
		}
		v := ""
		if i := strings.IndexByte(k, '='); i >= 0 {
			k, v = k[:i], k[i+1:]
		}
		if len(k) < len(key) {
			continue
		}
		ks, err := url.QueryUnescape(k)
		if err != nil || ks != key {
			continue
		}
		vs, err := url.QueryUnescape(v)
		if err != nil {
			continue
		}
		return vs, true
	}
	return "", false
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}

type vars struct{ m map[string]string }

//gosym:replace (*github.com/gorilla/mux.Router).ServeHTTP
func serveHTTP(r *mux.Router, w http.ResponseWriter, req *http.Request) {
	s := of(r)
	if p := cleanPath(req.URL.Path); p != req.URL.Path {
		u := *req.URL
		u.Path = p
		w.Header().Set("Location", u.String())
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
next:
	for _, t := range s.routes {
		m := make(map[string]string)
		if !matchPath(t, req.URL.Path, m) {
			continue
		}
		for _, q := range t.queries {
			v, ok := first(req.URL.RawQuery, q.key)
			if !ok || !matches(q.pattern, v) {
				continue next
			}
			m[q.name] = v
		}
		if t.handler == nil {
			break
		}
		clone := *req
		model.Attach(&clone, &vars{m})
		t.handler.ServeHTTP(w, &clone)
		return
	}
	http.Error(w, "404 page not found", http.StatusNotFound)
}

//gosym:replace github.com/gorilla/mux.Vars
func getVars(r *http.Request) map[string]string {
	if v, _ := model.Attached(r).(*vars); v != nil {
		return v.m
	}
	return nil
}

//gosym:replace github.com/gorilla/mux.SetURLVars
func setVars(r *http.Request, m map[string]string) *http.Request {
	clone := *r
	model.Attach(&clone, &vars{m})
	return &clone
}

// The body of a redirect is of no interest.
//
//gosym:replace net/http.htmlEscape
func htmlEscape(s string) string { return "" }
