// Package c34: the viewer command serves, exports or measures as its flags say.
package c34

import (
	"errors"
	"html/template"
	"net/http"
	"strings"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/cmds"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/cmds/hangover"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/web"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/gz"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/model/netm"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	"github.com/FAU-CDI/hangover/internal/zverif/model/proc"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

const typ = " <" + string(world.Type) + "> "

func bundles() *pathbuilder.Pathbuilder {
	pb := pathbuilder.NewPathbuilder()
	b := world.B(&pb, "b", nil, "x:C")
	world.F(b, "name", "x:d", "x:C")
	return &pb
}

func source(v string) {
	cmds.Put("/in", bundles(), "<x:a>"+typ+"<x:C> .\n<x:b>"+typ+"<x:C> .\n<x:a> <x:d> \""+v+"\" .\n<x:c> <x:same> <x:b> .\n")
	osm.Mkdir("/out")
}

// flags are chosen arguments and what they mean.
type flags struct {
	args   []string
	render viewer.RenderFlags
	footer template.HTML // if given
	addr   string
	merged bool
}

func (f *flags) on(name string) bool {
	if !sym.Bool(name) {
		return false
	}
	f.args = append(f.args, "-"+name)
	return true
}

func (f *flags) with(name, value string) string {
	if !sym.Bool(name) {
		return ""
	}
	f.args = append(f.args, "-"+name+"="+value)
	return value
}

func (f *flags) look() {
	f.render.HTMLRender = f.on("html")
	f.render.ImageRender = f.on("images")
	f.render.StrictCSP = f.on("strict-csp")
	f.render.PublicURL = f.with("public", "http://w/")
	f.render.TipsyURL = f.with("tipsy", "https://t")
	f.footer = template.HTML(f.with("footer", "<b>f</b>"))
}

// shown says that a server answers as the flags have it.
func (f *flags) shown(h http.Handler) {
	ref := web.New(f.render)
	a, b := web.Ask(h, web.Request("/about", "")), web.Ask(ref, web.Request("/about", ""))
	const csp = "Content-Security-Policy"
	sym.Assert(a.Get(csp) == b.Get(csp), "the content security policy is that of the flags")
	g, want := sym.Field(a.Page("about.html"), "Globals"), sym.Field(b.Page("about.html"), "Globals")
	sym.Assert(sym.Field(g, "HTMLRender") == sym.Field(want, "HTMLRender") && sym.Field(g, "ImageRender") == sym.Field(want, "ImageRender"), "what is rendered is what the flags say")
	link := "http://w/wisski/get?uri=x:a"
	type replacer interface{ ReplaceURL(string) string }
	sym.Assert(g.(replacer).ReplaceURL(link) == want.(replacer).ReplaceURL(link), "links are those of the public URL")
	if f.footer != "" {
		sym.Assert(sym.Field(g, "Footer") == any(f.footer), "the footer is the one given")
	}
	c, d := web.Ask(h, web.Request("/tipsy", "")), http.StatusOK
	if f.render.TipsyURL == "" {
		d = http.StatusNotFound
	}
	sym.Assert(c.Code == d, "tipsy is embedded if the flags say so")
}

func loading(a *web.Answer) bool {
	return len(a.Pages) == 1 && a.Pages[0].Name == "loading.html" || a.Code == http.StatusServiceUnavailable
}

// wait waits for the data.
func wait(h http.Handler) {
	for n := 0; ; n++ {
		a := web.Ask(h, web.Request("/", ""))
		if !loading(a) {
			a.Page("index.html")
			return
		}
		sym.Assert(n < 10000, "the data is there at some time")
		time.Sleep(1)
	}
}

// content checks what a server knows.
func content(h http.Handler, merged bool) {
	for _, u := range []string{"x:a", "x:b"} {
		a := web.Ask(h, web.Request("/api/v1/entity/b", "uri="+u))
		if !merged {
			sym.Assert(a.Code == http.StatusOK, "every entity is found")
		}
	}
	a := web.Ask(h, web.Request("/wisski/get", "uri=x:c"))
	if merged {
		sym.Assert(a.Code == http.StatusTemporaryRedirect, "identities are those of the flag")
	} else {
		sym.Assert(a.Code == http.StatusNotFound, "nothing else is found")
	}
}

// H_Serve starts a server with any combination of flags.
//
// Bounds: every combination of -html, -images, -strict-csp, -public, -tipsy and -footer; two entities with a value of one of two characters.
//
//gosym:time=120
//gosym:native=no
func H_Serve() {
	source(sym.Alpha("value", 1, "vw"))
	f := &flags{}
	f.look()
	served := 0
	netm.SetServe(func(h http.Handler) error {
		served++
		wait(h)
		f.shown(h)
		content(h, false)
		return errors.New("closed")
	})
	sym.Assert(proc.Run(hangover.Main, append(f.args, "-sameas=", "/in")...) == 0, "the command ends when the server does")
	sym.Assert(served == 1 && len(netm.Listened()) == 1, "there is one server")
	sym.Cover("served")
}

// H_Load starts a server with any combination of the flags for loading, from sources or an index.
//
// Bounds: every combination of -addr, -cache and -sameas, from two files, a directory or an index; from an index made under other flags with every combination of -html, -images, -strict-csp, -public, -tipsy and -footer.
//
//gosym:time=120
//gosym:native=no
func H_Load() {
	source("v")
	f := &flags{addr: ":3000"}
	if a := f.with("addr", "localhost:80"); a != "" {
		f.addr = a
	}
	args := []string{"/in"}
	switch sym.Choose("source", 3) {
	case 0:
		f.merged = f.with("sameas", "x:same") != ""
		f.with("cache", "/cache")
	case 1:
		args = []string{"/in/a.xml", "/in/a.nq"}
	case 2:
		// made under other flags, which do not matter
		made := viewer.RenderFlags{}
		if sym.Bool("made with flags") {
			made = viewer.RenderFlags{HTMLRender: true, ImageRender: true, StrictCSP: true, PublicURL: "http://made/", TipsyURL: "https://made"}
		}
		g, err := glass.Create("/in/a.xml", "/in/a.nq", "", made, nil)
		sym.Assert(err == nil && glass.Export("/in/index", g, nil) == nil, "the index is made")
		args = []string{"/in/index"}
		f.look()
	}
	listening := true
	osm.SetFault(func(op string) error {
		if op != "os.read" || osm.Last() == "/dev/stderr" {
			return nil
		}
		listening = listening && len(netm.Listened()) == 1
		return nil
	})
	netm.SetServe(func(h http.Handler) error {
		wait(h)
		f.shown(h)
		content(h, f.merged)
		return errors.New("closed")
	})
	sym.Assert(proc.Run(hangover.Main, append(f.args, args...)...) == 0, "the command ends when the server does")
	sym.Assert(len(netm.Listened()) == 1 && netm.Listened()[0] == f.addr, "the server is at its address")
	sym.Assert(listening, "the server is there before data is loaded")
	sym.Cover("served")
}

// H_Export exports instead of serving.
//
// Bounds: -export with or without -bench, -cache and -sameas; a value of one of four characters; also -bench alone.
//
//gosym:time=120
//gosym:native=no
func H_Export() {
	v := sym.Alpha("value", 1, "vw<,")
	source(v)
	f := &flags{}
	export := f.with("export", "/out/index")
	bench := f.on("bench")
	sym.Assume(sym.Or(export != "", bench))
	f.merged = f.with("sameas", "x:same") != ""
	f.with("cache", "/cache")
	netm.SetServe(func(h http.Handler) error {
		sym.Assert(false, "nothing is served when exporting or measuring")
		return nil
	})
	sym.Assert(proc.Run(hangover.Main, append(f.args, "/in")...) == 0, "the command succeeds")
	sym.Assert(len(netm.Listened()) == 0, "nothing is listened on when exporting or measuring")
	if export == "" {
		sym.Assert(!osm.Exists("/out/index"), "nothing is written")
		sym.Cover("measured")
		return
	}
	g, err := glass.Import(export, nil)
	sym.Assert(err == nil, "what was exported can be read")
	es := g.Cache.Entities("b")
	sym.Assert(len(es) == 2, "every entity is exported")
	for _, e := range es {
		if e.URI == "x:a" {
			sym.Assert(len(e.Fields["name"]) == 1 && sym.EqStr(string(e.Fields["name"][0].Value), v), "every value is exported")
		}
	}
	sym.Assert((len(g.Cache.Aliases("x:b"))+len(g.Cache.Aliases("x:c")) > 0) == f.merged, "identities are those of the flag")
	sym.Assert(len(g.Pathbuilder.Bundles()) == 1, "the pathbuilder is exported")
	sym.Cover("exported")
}

// H_Faults fails anything.
//
// Bounds: exporting, measuring or serving; any one opening, reading, creation, writing or closing of a file, or listening, fails (closing of what was only read aside); also sources that are missing or malformed.
//
//gosym:time=120
//gosym:native=no
func H_Faults() {
	source("v")
	osm.WriteFile("/in/bad", []byte("<x:a> <x:b"), 0)
	osm.Mkdir("/empty")
	f := &flags{}
	mode := sym.Choose("mode", 3)
	switch mode {
	case 0:
		f.args = append(f.args, "-export=/out/index")
	case 1:
		f.args = append(f.args, "-bench")
	}
	args := [][]string{{"/in"}, {"/none"}, {"/in/a.xml", "/in/bad"}, {"/empty"}, {"/in/a.nq", "/in/a.nq"}, {}, {"/in/a.xml", "/in/a.nq", "/in"}}[sym.Choose("arguments", 7)]
	fails := len(args) != 1 || args[0] != "/in"
	at, n := -1, 0
	if !fails {
		at = sym.Int("failing", 0, 40)
	}
	count := func() error {
		n++
		if n-1 == at {
			fails = true
			return errors.New("no")
		}
		return nil
	}
	osm.SetFault(func(op string) error {
		if osm.Last() == "/dev/stderr" || op == "os.close" && strings.HasPrefix(osm.Last(), "/in") {
			return nil
		}
		return count()
	})
	netm.SetFault(func(string) error { return count() })
	netm.SetServe(func(h http.Handler) error {
		if fails {
			select {}
		}
		wait(h)
		return errors.New("closed")
	})
	code := proc.Run(hangover.Main, append(f.args, args...)...)
	if fails {
		sym.Assert(code != 0, "a failure is reported")
		sym.Cover("failed")
		return
	}
	sym.Assert(code == 0, "the command succeeds")
	sym.Cover("succeeded")
}

// H_Predicates says which predicates name identities and inverses.
//
// Bounds: -sameas and -inverseof are each absent, empty, a predicate, or two predicates separated by a comma; the data uses the default predicate or one of those; served or exported.
//
//gosym:time=90
//gosym:native=no
func H_Predicates() {
	pb := pathbuilder.NewPathbuilder()
	world.F(world.B(&pb, "b", nil, "x:C"), "name", "x:d", "x:C", "x:p", "x:D")
	var args []string
	pick := func(flag, standard string) (used string, on bool) {
		preds := []string{standard, "x:1", "x:2"}
		used = preds[sym.Choose(flag+" used", 3)]
		switch sym.Choose(flag, 4) {
		case 0:
			return used, used == standard
		case 1:
			args = append(args, "-"+flag+"=")
			return used, false
		case 2:
			args = append(args, "-"+flag, "x:1")
			return used, used == "x:1"
		default:
			args = append(args, "-"+flag, "x:2, x:1")
			return used, used == "x:1" || used == "x:2"
		}
	}
	same, merged := pick("sameas", string(wisski.SameAs))
	inv, inverted := pick("inverseof", string(wisski.InverseOf))
	if same == inv {
		return // says two things at once
	}
	cmds.Put("/in", &pb, "<x:p> <"+inv+"> <x:q> .\n<x:a>"+typ+"<x:C> .\n<x:b> <"+same+"> <x:a> .\n<x:n> <x:q> <x:b> .\n<x:n>"+typ+"<x:D> .\n<x:n> <x:d> \"v\" .\n")
	osm.Mkdir("/out")
	check := func(e *wisski.Entity) {
		vs := e.Fields["name"]
		if merged && inverted {
			sym.Assert(len(vs) == 1 && vs[0].Value == "v", "identities and inverses are those of the flags")
		} else {
			sym.Assert(len(vs) == 0, "identities and inverses are those of the flags")
		}
	}
	if sym.Bool("export") {
		sym.Assert(proc.Run(hangover.Main, append(args, "-export=/out/index", "/in")...) == 0, "the command succeeds")
		g, err := glass.Import("/out/index", nil)
		sym.Assert(err == nil && len(g.Cache.Entities("b")) == 1, "the entity is exported")
		check(&g.Cache.Entities("b")[0])
		sym.Cover("exported")
		return
	}
	netm.SetServe(func(h http.Handler) error {
		wait(h)
		u := "x:a"
		a := web.Ask(h, web.Request("/entity/b", "uri="+u))
		check(sym.Field(a.Page("entity.html"), "Entity").(*wisski.Entity))
		return errors.New("closed")
	})
	sym.Assert(proc.Run(hangover.Main, append(args, "/in")...) == 0, "the command ends when the server does")
	sym.Cover("served")
}
