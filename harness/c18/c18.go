// Package c18: paging through a bundle.
package c18

import (
	"html/template"
	"net/http"
	"strconv"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/web"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// Default is the documented page size.
const defaultLimit, maxLimit = 100, 1000

func label(i int) impl.Label { return impl.Label("http://e/" + strconv.Itoa(i)) }

// bundle makes a viewer of one bundle of n entities.
func bundle(name string, n int) *viewer.Viewer {
	p := pathbuilder.NewPathbuilder()
	world.B(&p, name, nil, "E")
	ents := make([]wisski.Entity, n)
	for i := range ents {
		ents[i].URI = label(i)
	}
	return web.Ready(viewer.RenderFlags{}, web.Cache(map[string][]wisski.Entity{name: ents}), &p)
}

type page struct {
	total, start, end       int
	first, prev, next, last string
	uris                    []impl.Label
}

// read takes the page out of an answer.
func read(a *web.Answer) page {
	sym.Assert(a.Code == http.StatusOK, "a page of the bundle is shown")
	d := a.Page("bundle.html")
	link := func(name string) string { return string(sym.Field(d, name).(template.URL)) }
	p := page{first: link("FirstLink"), prev: link("PrevLink"), next: link("NextLink"), last: link("LastLink")}
	p.total, p.start, p.end = sym.Field(d, "Total").(int), sym.Field(d, "PageStart").(int), sym.Field(d, "PageEnd").(int)
	p.uris = sym.Field(d, "URIS").([]impl.Label)
	return p
}

// open follows a link of a page.
func open(v *viewer.Viewer, link string) page {
	sym.Assert(strings.HasPrefix(link, "/") && !strings.HasPrefix(link, "//"), "a link leads to this server")
	path, query, _ := strings.Cut(link, "?")
	p, ok := web.Unescape(strings.ReplaceAll(path, "+", "%2B"))
	sym.Assert(ok, "a link is properly encoded")
	return read(web.Ask(v, web.Request(p, query)))
}

// shows says that a page shows the entities from the offset on.
func (p page) shows(from, to, total int) {
	sym.Assert(p.total == total, "the total is the number of entities")
	sym.Assert(p.start == from+1 && p.end == to, "the first and last positions are those shown")
	sym.Assert(len(p.uris) == to-from, "as many entities are shown as the page has")
	for i, u := range p.uris {
		sym.Assert(u == label(from+i), "the entities are shown in order")
	}
}

// check asks for a page and follows all its links. The size and the offset are those that apply.
func check(v *viewer.Viewer, path, query string, total, limit, skip int) {
	a := web.Ask(v, web.Request(path, query))
	if skip >= total {
		sym.Assert(a.Code == http.StatusNotFound && len(a.Pages) == 0, "an offset past the end is not found")
		sym.Cover("?past the end")
		return
	}
	p := read(a)
	to := min(skip+limit, total)
	p.shows(skip, to, total)
	if skip > 0 {
		sym.Assert(p.prev != "" && p.first != "", "there is a previous page")
		q := open(v, p.prev)
		sym.Assert(q.end == skip || q.start == 1, "the previous page ends where this one begins, or is the first")
		sym.Assert(q.start <= skip, "the previous page begins before this one")
		q.shows(q.start-1, min(q.start-1+limit, total), total)
		q = open(v, p.first)
		sym.Assert(q.start == 1, "the first page begins with the first entity")
		q.shows(0, min(limit, total), total)
		sym.Cover("?previous")
	} else {
		sym.Assert(p.prev == "", "the first page has no previous page")
	}
	if to < total {
		sym.Assert(p.next != "" && p.last != "", "there is a next page")
		open(v, p.next).shows(to, min(to+limit, total), total)
		q := open(v, p.last)
		sym.Assert(q.end == total && q.start <= total && q.start > skip+1, "the last page reaches the end")
		q.shows(q.start-1, total, total)
		sym.Cover("next")
	} else {
		sym.Assert(p.next == "", "the last page has no next page")
	}
}

// number reads a text of digits.
func number(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = 10*n + int(s[i]-'0')
	}
	return n
}

// H_Pages: every size and offset.
// Bounds: 0 to 5 entities (thorough 0 to 9); sizes and offsets of any one or two digits.
//
//gosym:time=100
//gosym:native=no
func H_Pages() {
	total := sym.Choose("total", 6+4*sym.Tier())
	l, s := sym.Alpha("limit", 1+sym.Tier(), "0123456789"), sym.Alpha("skip", 1+sym.Tier(), "0123456789")
	if sym.Tier() == 0 && sym.Bool("zero") {
		l, s = "0"+l, "0"+s
	}
	limit, skip := number(l), number(s)
	if limit == 0 {
		limit = defaultLimit
	}
	check(bundle("b", total), "/bundle/b", "limit="+l+"&skip="+s, total, limit, skip)
}

// H_Defaults: sizes and offsets that are no numbers within range, or missing.
// Bounds: 102 entities; the size and the offset, or both, missing, empty, any byte that is no digit before or after a digit, too large for an integer or beyond the largest size.
//
//gosym:time=60
//gosym:native=no
func H_Defaults() {
	v := bundle("b", 102)
	limit, skip := defaultLimit, 0
	query := ""
	text := func(name string) string {
		d := sym.Alpha(name, 1, "0123456789")
		c := sym.U8(name)
		// a delimiter of queries would give a shorter number
		sym.Assume(sym.And(c > ' ', c < 0x7f, sym.Or(c < '0', c > '9'), c != '&', c != ';', c != '%', c != '#'))
		if sym.Bool(name) {
			return d + string(rune(c))
		}
		return string(rune(c)) + d
	}
	switch sym.Choose("case", 9) {
	case 0:
	case 1:
		query = "limit=1"
	case 2:
		query = "skip=1"
	case 3:
		query = "limit=&skip="
	case 4:
		query = "limit=" + text("l") + "&skip=1"
	case 5:
		query = "limit=1&skip=" + text("s")
	case 6:
		query = "limit=100" + sym.Alpha("l", 1, "123456789") + "&skip=1"
		skip = 1
	case 7:
		query = "limit=99999999999999999999&skip=1"
		skip = 1
	case 8:
		query = "limit=100&skip=99999999999999999999"
	}
	check(v, "/bundle/b", query, 102, limit, skip)
}

// H_Large: the largest size.
// Bounds: 1001 entities, sizes 999 and 1000, offsets 0, 1, 998 to 1001.
//
//gosym:time=60
//gosym:native=no
func H_Large() {
	skip := []int{0, 1, 998, 999, 1000, 1001}[sym.Choose("skip", 6)]
	limit := maxLimit - sym.Choose("limit", 2)
	check(bundle("b", 1001), "/bundle/b", "skip="+strconv.Itoa(skip)+"&limit="+strconv.Itoa(limit), 1001, limit, skip)
}

// H_Names: the links of a bundle of any name.
// Bounds: three entities in a bundle whose name is any byte except slash with a letter after it; pages of one.
//
//gosym:time=60
//gosym:native=no
func H_Names() {
	name := sym.String("name", 1) + "b"
	sym.Assume(name[0] != '/')
	check(bundle(name, 3), "/bundle/"+name, "limit=1&skip=1", 3, 1, 1)
}

// H_Unknown: a bundle that does not exist.
// Bounds: any other name of one letter.
//
//gosym:native=no
func H_Unknown() {
	name := sym.Alpha("name", 1, "abcdefghijklmnopqrstuvwxyz")
	sym.Assume(name != "b")
	a := web.Ask(bundle("b", 2), web.Request("/bundle/"+name, ""))
	sym.Assert(a.Code == http.StatusNotFound && len(a.Pages) == 0, "an unknown bundle is not found")
	sym.Cover("unknown")
}
