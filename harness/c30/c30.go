// Package c30: values embedded in attributes.
package c30

import (
	"html/template"
	"net/http"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/web"
	"github.com/FAU-CDI/hangover/internal/zverif/model/pbm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// attribute parses a single attribute as an HTML parser does.
func attribute(a, name string) string {
	prefix := ` data-` + name + `="`
	sym.Assert(len(a) > len(prefix) && sym.EqStr(a[:len(prefix)], prefix), "the attribute has its name")
	a = a[len(prefix):]
	end := strings.IndexByte(a, '"')
	sym.Assert(end == len(a)-1, "the value ends where the attribute does")
	a = a[:end]
	var out []byte
	for i := 0; i < len(a); i++ {
		c := a[i]
		switch {
		case c == '\r':
			// an HTML parser normalizes line breaks
			out = append(out, '\n')
			if i+1 < len(a) && a[i+1] == '\n' {
				i++
			}
		case c == '&':
			n := strings.IndexByte(a[i:], ';')
			sym.Assert(n > 1, "a character reference ends")
			r, ok := reference(a[i+1 : i+n])
			sym.Assert(ok, "only known characters are referred to")
			out = append(out, r)
			i += n
		default:
			out = append(out, c)
		}
	}
	return string(out)
}

// reference resolves a character reference.
func reference(s string) (byte, bool) {
	switch s {
	case "amp", "AMP":
		return '&', true
	case "lt", "LT":
		return '<', true
	case "gt", "GT":
		return '>', true
	case "quot", "QUOT":
		return '"', true
	case "apos":
		return '\'', true
	}
	if s[0] != '#' || len(s) < 2 {
		return 0, false
	}
	n, base := 0, 10
	s = s[1:]
	if s[0] == 'x' || s[0] == 'X' {
		base, s = 16, s[1:]
	}
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte("0123456789abcdef", s[i]|0x20)
		if s[i] >= '0' && s[i] <= '9' {
			d = int(s[i] - '0')
		}
		if d < 0 || d >= base {
			return 0, false
		}
		n = n*base + d
		if n > 127 {
			return 0, false
		}
	}
	return byte(n), n > 0 && len(s) > 0
}

func tipsy(flags viewer.RenderFlags) any {
	p := pathbuilder.NewPathbuilder()
	v := web.Ready(flags, web.Cache(nil), &p)
	a := web.Ask(v, web.Request("/tipsy", ""))
	sym.Assert(a.Code == http.StatusOK, "the page is shown")
	return a.Page("tipsy.html")
}

func attr(page any, field, name string) string {
	return attribute(string(sym.Field(page, field).(template.HTMLAttr)), name)
}

// text is any ASCII text without NUL, or one of a few characters of several bytes.
func text(n int) string {
	s := sym.String("value", n)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] > 0, s[i] < 0x80))
	}
	return s
}

// H_Data: the pathbuilder in an attribute.
// Bounds: the text of the pathbuilder is any 1 to 3 ASCII characters other than NUL (4 in the thorough tier), between other characters or not.
//
//gosym:time=150
//gosym:native=no
func H_Data() {
	s := text(sym.Choose("length", 4+sym.Tier()))
	s = []string{"", "é"}[sym.Choose("before", 2)] + s + []string{"", "\u2028&amp;", "x"}[sym.Choose("after", 3)]
	pbm.SetText(s)
	page := tipsy(viewer.RenderFlags{TipsyURL: "https://t"})
	sym.Assert(sym.EqStr(attr(page, "Data", "data"), s), "the attribute decodes to the pathbuilder")
	sym.Assert(attr(page, "URL", "url") == "https://t", "the attribute decodes to the URL")
	sym.Assert(attr(page, "Filename", "filename") != "", "the file has a name")
	sym.Cover("data")
}

// H_URL: the tipsy URL in an attribute.
// Bounds: an http or https URL that goes on with 0 to 2 (3 in the thorough tier) of 14 characters, among them all that are special in HTML.
//
//gosym:time=150
//gosym:native=no
func H_URL() {
	s := []string{"http://", "https://t"}[sym.Choose("scheme", 2)] + sym.Alpha("url", sym.Choose("length", 3+sym.Tier()), "\"&'<>=;#\r\n /`a")
	page := tipsy(viewer.RenderFlags{TipsyURL: s})
	sym.Assert(sym.EqStr(attr(page, "URL", "url"), s), "the attribute decodes to the URL")
	sym.Cover("url")
}
