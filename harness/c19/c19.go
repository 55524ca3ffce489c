// Package c19: links into the WissKI are rewritten.
package c19

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/web"
	"github.com/FAU-CDI/hangover/internal/zverif/model/htmlm"
	"github.com/FAU-CDI/hangover/internal/zverif/model/tmpl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
	"github.com/FAU-CDI/hangover/pkg/htmlx"
	"golang.org/x/net/html"
)

// globals gives what a page knows of the viewer.
func globals(public string) any {
	v := web.New(viewer.RenderFlags{PublicURL: public, HTMLRender: true})
	a := web.Ask(v, web.Request("/about", ""))
	sym.Assert(a.Code == http.StatusOK, "the page is shown")
	return sym.Field(a.Page("about.html"), "Globals")
}

func replacer(public string) func(string) string {
	return globals(public).(interface{ ReplaceURL(string) string }).ReplaceURL
}

// decode decodes a path or a fragment.
func decode(s string) string {
	d, ok := web.Unescape(strings.ReplaceAll(s, "+", "%2B"))
	sym.Assert(ok, "a link is properly encoded")
	return d
}

// split takes a link without scheme and host apart.
func split(s string) (path, query, fragment string) {
	s, fragment, _ = strings.Cut(s, "#")
	path, query, _ = strings.Cut(s, "?")
	return path, query, fragment
}

// stays says that a link is to this server: a path that cannot be taken for a host.
func stays(s string) bool {
	return len(s) > 0 && s[0] == '/' && (len(s) == 1 || s[1] != '/' && s[1] != '\\')
}

// hosted is where a link goes on after scheme and host.
func hosted(s string) string {
	i := strings.Index(s, "://")
	s = s[i+3:]
	return s[strings.IndexByte(s, '/'):]
}

func check(public, link string, prefixes ...string) {
	got := replacer(public)(link)
	into := false
	for _, p := range prefixes {
		into = into || strings.HasPrefix(link, p)
	}
	if !into {
		sym.Assert(got == link, "a link that does not point into the WissKI is unchanged")
		sym.Cover("?unchanged")
		return
	}
	sym.Assert(stays(got), "a link into the WissKI stays on this server")
	p, q, f := split(got)
	wp, wq, wf := split(hosted(link))
	sym.Assert(decode(p) == decode(wp), "the path is kept")
	sym.Assert(q == wq, "the query is kept")
	sym.Assert(decode(f) == decode(wf), "the fragment is kept")
	sym.Assert(strings.Count(p, "/") == strings.Count(wp, "/"), "the path is kept")
	sym.Cover("?changed")
}

// urlChars are characters of URLs, each with a meaning of its own.
const urlChars = "aw:/?#@.&=+!"

// text is a text of characters that URLs may have.
func text(name string) string {
	s := sym.Alpha(name, 2+sym.Tier(), urlChars)
	if sym.Bool("escaped") {
		s = s[:1] + "%" + sym.Alpha(name+" high", 1, "27") + sym.Alpha(name+" low", 1, "0F5") + s[1:]
	}
	return s
}

// H_Links: any link.
// Bounds: one of three lists of public URLs; links that begin like a prefix, one with a path, another host, or with another scheme, and go on with 2 of 12 characters special in URLs (3 in the thorough tier), maybe with an escaped character in between, maybe more; only valid URLs.
//
//gosym:time=150
//gosym:native=no
func H_Links() {
	k := sym.Choose("public", 4)
	public := []string{"http://w", "https://w/a,", "http://w, http://v/a", ""}[k]
	prefixes := [][]string{
		{"http://w/wisski", "https://w/wisski"},
		{"http://w/a/wisski", "https://w/a/wisski"},
		{"http://w/wisski", "https://w/wisski", "http://v/a/wisski", "https://v/a/wisski"},
		{},
	}[k]
	link := []string{"http://w/wisski", "https://w/wisski/navigate/1", "http://w/a/wisski/x", "https://v/a/wisski", "http://v/wisski", "ftp://w/wisski", "/wisski"}[sym.Choose("link", 7)]
	link += text("rest")
	link += []string{"", "/view?q#f"}[sym.Choose("end", 2)]
	check(public, link, prefixes...)
}

// H_Prefixes: a link that differs from a prefix.
// Bounds: links that are a prefix with any one byte replaced, removed or inserted, and a rest; one public URL.
//
//gosym:time=100
//gosym:native=no
func H_Prefixes() {
	base := "https://w/wisski/1"
	i := sym.Choose("place", len(base)-2)
	x := sym.Alpha("x", 1, urlChars+"WHTSihtpsk")
	link := ""
	switch sym.Choose("change", 3) {
	case 0:
		link = base[:i] + x + base[i+1:]
	case 1:
		link = base[:i] + base[i+1:]
	case 2:
		link = base[:i] + x + base[i:]
	}
	check("http://w", link, "http://w/wisski", "https://w/wisski")
}

// H_Public: any public URL.
// Bounds: public URLs that are any 2 of 12 characters special in URLs (3 in the thorough tier), alone, after http://w or after http:// and before w; a few links.
//
//gosym:time=100
//gosym:native=no
func H_Public() {
	x := sym.Alpha("public", 2+sym.Tier(), urlChars)
	public := []string{x, "http://w" + x, "http://" + x + "w"}[sym.Choose("form", 3)]
	link := []string{"http://w/wisski/1", "https://w/a/wisski/1?q#f", "http://a@w/wisski/1", "http:wisski/1", "https:///wisski/1", "/wisski", "http://wisski/1", "wisski"}[sym.Choose("link", 8)]
	got := replacer(public)(link)
	if got == link {
		sym.Cover("unchanged")
		return
	}
	sym.Assert(strings.HasPrefix(link, "http://") || strings.HasPrefix(link, "https://"), "only links to some host are changed")
	rest := hosted(link)
	sym.Assert(got == rest, "only scheme and host are removed")
	sym.Assert(strings.Contains(rest, "wisski"), "only links into the WissKI are changed")
	sym.Cover("changed")
}

// node makes an arbitrary node.
func node(i int) (n *html.Node, want func(*html.Node)) {
	name := func(s string) string { return s + strconv.Itoa(i) }
	n = &html.Node{}
	switch sym.Choose(name("type"), 3) {
	case 0:
		n.Type = html.ElementNode
		n.Data = []string{"a", "img", "p"}[sym.Choose(name("element"), 3)]
	case 1:
		n.Type = html.TextNode
		n.Data = []string{"a", "img"}[sym.Choose(name("text"), 2)]
	case 2:
		n.Type = html.ElementNode
		n.Data = sym.Alpha(name("name"), 1, "abcdefghijklmnopqrstuvwxyz")
	}
	if n.Type == html.ElementNode {
		keys := sym.Choose(name("attributes"), 6)
		v, w := sym.String(name("value"), 1), sym.String(name("other"), 1)
		switch keys {
		case 1:
			n.Attr = []html.Attribute{{Key: "href", Val: v}}
		case 2:
			n.Attr = []html.Attribute{{Key: "src", Val: v}}
		case 3:
			n.Attr = []html.Attribute{{Key: "src", Val: v}, {Key: "href", Val: w}}
		case 4:
			n.Attr = []html.Attribute{{Key: "title", Val: v}, {Key: "href", Val: w}, {Key: "alt", Val: v}}
		case 5:
			n.Attr = []html.Attribute{{Key: sym.Alpha(name("key"), 3, "rscehf"), Val: v}}
		}
	}
	old := append([]html.Attribute{}, n.Attr...)
	typ, data := n.Type, n.Data
	return n, func(got *html.Node) {
		sym.Assert(got.Type == typ && sym.EqStr(got.Data, data), "nodes are kept")
		sym.Assert(len(got.Attr) == len(old), "attributes are kept")
		for j, o := range old {
			g := got.Attr[j]
			sym.Assert(sym.EqStr(g.Key, o.Key) && g.Namespace == o.Namespace, "attributes are kept")
			link := typ == html.ElementNode && sym.Or(sym.And(sym.EqStr(data, "a"), sym.EqStr(o.Key, "href")), sym.And(sym.EqStr(data, "img"), sym.EqStr(o.Key, "src")))
			sym.Assert(sym.Implies(link, sym.EqStr(g.Val, "["+o.Val+"]")), "the target of a link or an image is replaced")
			sym.Assert(sym.Implies(!link, sym.EqStr(g.Val, o.Val)), "everything else is kept")
		}
	}
}

func wrap(s string) string { return "[" + s + "]" }

// H_Tree: every place in a tree.
// Bounds: trees of 2 nodes (3 in the thorough tier) of all shapes, after and inside concrete nodes to a depth of 4; each an element a, img, p or of any one letter, or a text, with 0 to 3 attributes of symbolic names and values; HTML parsing and rendering by contract.
//
//gosym:time=150
//gosym:native=no
func H_Tree() {
	nodes := 2 + sym.Tier()
	var top []*html.Node
	var all []*html.Node
	var wants []func(*html.Node)
	deep := &html.Node{Type: html.ElementNode, Data: "div"}
	inner := &html.Node{Type: html.ElementNode, Data: "a", Attr: []html.Attribute{{Key: "href", Val: "in"}}}
	if sym.Bool("deep") {
		mid := &html.Node{Type: html.ElementNode, Data: "span"}
		deep.AppendChild(mid)
		mid.AppendChild(inner)
		top = append(top, deep)
	}
	parents := make([]int, nodes)
	for i := range parents {
		n, want := node(i)
		all, wants = append(all, n), append(wants, want)
		parents[i] = sym.Choose("parent"+strconv.Itoa(i), i+1+len(top)) - 1
		switch {
		case parents[i] < 0 && len(top) > 0 && top[0] == deep:
			inner.AppendChild(n)
		case parents[i] < 0 || parents[i] >= i:
			top = append(top, n)
			parents[i] = -2
		default:
			all[parents[i]].AppendChild(n)
		}
	}
	src := htmlm.Put(top...)
	out := htmlx.ReplaceLinks(src, wrap)
	got := htmlm.Rendered()
	sym.Assert(len(got) == len(top), "every node is rendered once")
	marks := ""
	for i, g := range got {
		sym.Assert(g == top[i] || g.Data == top[i].Data, "the nodes are rendered in order")
		marks += "<rendered " + strconv.Itoa(i) + ">"
	}
	sym.Assert(out == marks, "what is rendered is returned")
	for i, want := range wants {
		want(all[i])
	}
	if len(top) > 0 && top[0] == deep {
		sym.Assert(inner.Attr[0].Val == "[in]", "the target of a link or an image is replaced")
		sym.Cover("deep")
	}
	sym.Cover("tree")
}

// H_Rendered: what the pages use to render HTML.
// Bounds: a link and an image, inside others, with any 2 of 12 characters special in URLs (3 in the thorough tier) after the prefix; HTML parsing and rendering by contract.
//
//gosym:time=100
//gosym:native=no
func H_Rendered() {
	x := sym.Alpha("rest", 2+sym.Tier(), "aw:/.&=+!")
	g := globals("http://w")
	render := tmpl.Func("renderhtml")
	a := &html.Node{Type: html.ElementNode, Data: "a", Attr: []html.Attribute{{Key: "class", Val: "http://w/wisski"}, {Key: "href", Val: "https://w/wisski" + x}}}
	img := &html.Node{Type: html.ElementNode, Data: "img", Attr: []html.Attribute{{Key: "src", Val: "http://v/wisski" + x}, {Key: "alt", Val: "http://w/wisski"}}}
	b := &html.Node{Type: html.ElementNode, Data: "img", Attr: []html.Attribute{{Key: "src", Val: "http://w/wisski" + x}}}
	a.AppendChild(img)
	sym.Call(render, htmlm.Put(a, b), g)
	sym.Assert(a.Attr[1].Val == "/wisski"+x && b.Attr[0].Val == "/wisski"+x, "links into the WissKI stay on this server")
	sym.Assert(img.Attr[0].Val == "http://v/wisski"+x && img.Attr[1].Val == "http://w/wisski" && a.Attr[0].Val == "http://w/wisski", "everything else is kept")
	sym.Cover("rendered")
}
