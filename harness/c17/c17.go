// Package c17: the viewer while data is still being loaded.
package c17

import (
	"net/http"
	"sync"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/web"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

type kind int

const (
	page  kind = iota // needs the data, answers with a page or a redirect
	api               // needs the data, answers with JSON
	other             // needs no data
)

// route is a request, and what answers it once the data is there: the code and the page.
type route struct {
	path, query string
	kind        kind
	code        int
	page        string
}

const public = "http://w"

func routes(bundle, uri string) []route {
	ok, missing, moved := http.StatusOK, http.StatusNotFound, http.StatusTemporaryRedirect
	return []route{
		{"/", "", page, ok, "index.html"},
		{"/pathbuilder", "", page, ok, "pathbuilder.html"},
		{"/tipsy", "", page, ok, "tipsy.html"},
		{"/bundle/b", "", page, ok, "bundle.html"},
		{"/bundle/b", "limit=1&skip=0", page, ok, "bundle.html"},
		{"/bundle/b", "limit=1&skip=9", page, missing, ""},
		{"/entity/b", "uri=e", page, ok, "entity.html"},
		{"/wisski/get", "uri=e", page, moved, ""},
		{"/wisski/navigate/1/view", "", page, moved, ""},
		{"/wisski/navigate/2/view", "", page, missing, ""},
		{"/api/v1", "", api, ok, ""},
		{"/api/v1/bundle/b", "", api, ok, ""},
		{"/api/v1/entity/b", "uri=e", api, ok, ""},
		{"/api/v1/ntriples/b", "uri=e", api, ok, "-"},
		{"/api/v1/turtle/b", "uri=e", api, ok, "-"},
		{"/about", "", other, ok, "about.html"},
		{"/perf", "", other, ok, "perf.html"},
		{"/api/v1/progress", "", other, ok, ""},
		{"/api/v1/perf", "", other, ok, ""},
		{"/favicon.ico", "", other, ok, "-"},
		{"/nothing", "", other, missing, ""},
		// symbolic ones
		{"/bundle/" + bundle, "", page, missing, ""},
		{"/entity/b", "uri=" + uri, page, missing, ""},
		{"/entity/" + bundle, "uri=e", page, missing, ""},
		{"/wisski/get", "uri=" + uri, page, missing, ""},
		{"/wisski/navigate/" + bundle + "/view", "", page, missing, ""},
		{"/api/v1/bundle/" + bundle, "", api, missing, ""},
		{"/api/v1/entity/" + bundle, "uri=" + uri, api, missing, ""},
		{"/api/v1/ntriples/b", "uri=" + uri, api, missing, ""},
		{"/api/v1/turtle/b", "uri=" + uri, api, missing, ""},
	}
}

// concrete is the number of routes without symbolic parts.
const concrete = 21

func data() (*sparkl.Cache, *pathbuilder.Pathbuilder) {
	p := pathbuilder.NewPathbuilder()
	world.B(&p, "b", nil, "E")
	ents := []wisski.Entity{{URI: "e"}, {URI: public + "/wisski/navigate/1/view"}}
	return web.Cache(map[string][]wisski.Entity{"b": ents}), &p
}

func fresh() *viewer.Viewer {
	return web.New(viewer.RenderFlags{TipsyURL: "https://t", PublicURL: public})
}

// loading says that an answer is the one while loading and returns its progress.
func loading(a *web.Answer, r route) stats.Progress {
	sym.Assert(a.Status <= 1, "one status is sent")
	if r.kind == page {
		sym.Assert(len(a.Pages) == 1 && a.Pages[0].Name == "loading.html" && len(a.Values) == 0, "while loading a page answers with the loading page and nothing else")
		return sym.Field(a.Pages[0].Data, "Progress").(stats.Progress)
	}
	sym.Assert(a.Code == http.StatusServiceUnavailable, "while loading an API endpoint is unavailable")
	sym.Assert(len(a.Values) == 1 && len(a.Pages) == 0, "while loading an API endpoint sends a single message")
	m, ok := a.Values[0].(viewer.ProgressMessage)
	sym.Assert(ok, "the message carries the progress")
	return m.Progress
}

// isLoading says if an answer is one of those while loading.
func isLoading(a *web.Answer) bool {
	for _, p := range a.Pages {
		if p.Name == "loading.html" {
			return true
		}
	}
	for _, v := range a.Values {
		if _, ok := v.(viewer.ProgressMessage); ok {
			return true
		}
	}
	return a.Code == http.StatusServiceUnavailable
}

// ready says that an answer is the one with data.
func ready(a *web.Answer, r route) {
	sym.Assert(!isLoading(a), "with data nothing is loading")
	sym.Assert(a.Status <= 1, "one status is sent")
	sym.Assert(a.Code == r.code, "a route has its own answer")
	switch {
	case r.page == "-":
	case r.page != "":
		sym.Assert(len(a.Pages) == 1 && a.Pages[0].Name == r.page && len(a.Values) == 0, "a route has its own answer")
	case r.code == http.StatusOK:
		sym.Assert(len(a.Values) == 1 && len(a.Pages) == 0, "a route has its own answer")
	default:
		sym.Assert(len(a.Values) == 0 && len(a.Pages) == 0, "a route has its own answer")
	}
}

// H_Loading: every route before and after the data is there.
// Bounds: every registered route, with bundles and entities that exist, and with names and URIs of two arbitrary letters; any stage of three, and any counts; then the data, and the same request again; then other data, which must have no effect.
//
//gosym:time=60
//gosym:native=no
func H_Loading() {
	v := fresh()
	stage := []stats.Stage{"", stats.StageScanTriples, stats.StageExtractCache}[sym.Choose("stage", 3)]
	current, total := 0, 0
	if stage != "" {
		v.Stats.Start(stage)
		current, total = sym.Int("current", -1<<40, 1<<40), sym.Int("total", -1<<40, 1<<40)
		v.Stats.SetCT(current, total)
	}
	bundle, uri := sym.Alpha("bundle", 2, "abcdefghijklmnopqrstuvwxyz"), sym.Alpha("uri", 2, "abcdefghijklmnopqrstuvwxyz0123456789")
	rs := routes(bundle, uri)
	r := rs[sym.Choose("route", len(rs))]
	ask := func() *web.Answer { return web.Ask(v, web.Request(r.path, r.query)) }
	a := ask()
	if r.kind == other {
		ready(a, r)
	} else {
		p := loading(a, r)
		sym.Assert(!p.Done && p.Stage == stage && p.Current == current && p.Total == total, "the progress is that of the loading")
		sym.Cover("loading")
	}
	cache, pb := data()
	v.Prepare(cache, pb)
	sym.Assert(v.Stats.Done(), "the data is there")
	ready(ask(), r)
	sym.Cover("ready")

	empty := pathbuilder.NewPathbuilder()
	v.Prepare(web.Cache(nil), &empty)
	ready(ask(), r)
	sym.Assert(v.Cache == cache && v.Pathbuilder == pb, "the data is set only once")
	sym.Cover("again")
}

// H_Race: a request while the data arrives.
// Bounds: every route with concrete names, requested by one goroutine before or after another request to the index, while another goroutine counts and then hands over the data; all schedules with at most 3 delays (4 in the thorough tier); data races are violations.
//
//gosym:time=150
//gosym:native=no
func H_Race() {
	sym.Races(true)
	v := fresh()
	v.Stats.Start(stats.StageExtractCache)
	rs := routes("xx", "xx")[:concrete]
	r := rs[sym.Choose("route", len(rs))]
	cache, pb := data()
	a := make([]*web.Answer, 2)
	sym.Delays(3 + sym.Tier())
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		a[0] = web.AskBeside(v, web.Request(r.path, r.query))
		a[1] = web.AskBeside(v, web.Request(r.path, r.query))
	}()
	go func() {
		defer wg.Done()
		v.Stats.SetCT(3, 3)
		v.Prepare(cache, pb)
	}()
	wg.Wait()
	was := false
	for i, x := range a {
		x.Collect()
		if r.kind != other && isLoading(x) {
			p := loading(x, r)
			sym.Assert(p.Done && p.Current == 0 || !p.Done && p.Stage == stats.StageExtractCache && p.Current == p.Total, "the progress is one of the loading")
			sym.Assert(i == 0 || was, "once there, the data stays")
			was = true
			sym.Cover("loading")
			continue
		}
		ready(x, r)
		sym.Cover("ready")
	}
	last := web.Ask(v, web.Request(r.path, r.query))
	ready(last, r)
}

// H_Visitors: several requests, the first ones ever, while the data arrives.
// Bounds: two goroutines with a request each out of four, while a third hands over the data; all schedules with at most 2 delays (3 in the thorough tier); data races are violations.
//
//gosym:time=100
//gosym:native=no
func H_Visitors() {
	sym.Races(true)
	v := fresh()
	all := routes("xx", "xx")
	rs := []route{all[0], all[6], all[11], all[17]}
	rs = []route{rs[sym.Choose("first", len(rs))], rs[sym.Choose("second", len(rs))]}
	cache, pb := data()
	a := make([]*web.Answer, 2)
	sym.Delays(2 + sym.Tier())
	var wg sync.WaitGroup
	wg.Add(3)
	for i := range a {
		i := i
		go func() {
			defer wg.Done()
			a[i] = web.AskBeside(v, web.Request(rs[i].path, rs[i].query))
		}()
	}
	go func() {
		defer wg.Done()
		v.Prepare(cache, pb)
	}()
	wg.Wait()
	for i, x := range a {
		x.Collect()
		if rs[i].kind != other && isLoading(x) {
			loading(x, rs[i])
			sym.Cover("loading")
			continue
		}
		ready(x, rs[i])
		sym.Cover("ready")
	}
}
