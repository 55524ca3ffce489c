// Package c32: the CSV export writes one file per table with every row.
package c32

import (
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/cmds"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/cmds/n2j"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	"github.com/FAU-CDI/hangover/internal/zverif/model/proc"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/sqlm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// parse reads CSV as RFC 4180 has it, with lines that end in LF or CRLF.
func parse(s string) (rows [][]string) {
	for i := 0; i < len(s); {
		var row []string
		for {
			var f []byte
			if i < len(s) && s[i] == '"' {
				for i++; ; i++ {
					sym.Assert(i < len(s), "a quotation ends")
					if s[i] == '"' {
						i++
						if i >= len(s) || s[i] != '"' {
							break
						}
					}
					f = append(f, s[i])
				}
				sym.Assert(i < len(s) && (s[i] == ',' || s[i] == '\n' || s[i] == '\r'), "nothing follows a quotation")
			} else {
				for i < len(s) && s[i] != ',' && s[i] != '\n' {
					sym.Assert(s[i] != '"' && s[i] != '\r', "what is special is quoted")
					f = append(f, s[i])
					i++
				}
			}
			row = append(row, string(f))
			sym.Assert(i < len(s), "the last line ends")
			if s[i] == ',' {
				i++
				continue
			}
			if s[i] == '\r' {
				i++
			}
			sym.Assert(i < len(s) && s[i] == '\n', "a line ends")
			i++
			break
		}
		rows = append(rows, row)
	}
	return
}

// file says that a file has the rows.
func file(name string, columns []string, want [][]string) {
	path := "/out/" + name + ".csv"
	sym.Assert(osm.Exists(path), "there is a file for every table")
	got := parse(osm.Content(path))
	sym.Assert(len(got) == len(want)+1, "every row is in the file, after a header")
	sym.Assert(len(got[0]) == len(columns), "every column is in the file")
	at := map[string]int{}
	for i, c := range got[0] {
		at[c] = i
	}
	for _, c := range columns {
		_, ok := at[c]
		sym.Assert(ok, "every column is in the file")
	}
	used := make([]bool, len(want))
	for _, r := range got[1:] {
		sym.Assert(len(r) == len(columns), "every row has every column")
		found := false
		for j, w := range want {
			if used[j] || found || r[at["uri"]] != w[0] {
				continue
			}
			used[j], found = true, true
			for k, c := range columns {
				sym.Assert(sym.EqStr(r[at[c]], w[k]), "every value is in its column")
			}
		}
		sym.Assert(found, "no row is in the file that is not in the table")
	}
}

// escaped is a text as it is written in N-Quads.
func escaped(s string) string {
	return strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\r", "\\r", "\t", "\\t").Replace(s)
}

func bundles() *pathbuilder.Pathbuilder {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "x:T")
	world.F(t, "name", "x:d", "x:T")
	world.F(t, "ref", "x:e", "x:T")
	c := world.B(&pb, "child", t, "x:T", "x:p", "x:C")
	world.F(c, "title", "x:d", "x:T", "x:p", "x:C")
	world.B(&pb, "other", nil, "x:O")
	return &pb
}

const typ = " <" + string(world.Type) + "> "

// H_Values exports values that are special in CSV.
//
// Bounds: two entities, one of them with up to two values for a field, out of 10 with quotation marks, commas, line breaks, spaces and nothing, one of any of three further characters, and a child; both field modes; files there before.
//
//gosym:time=120
//gosym:native=no
func H_Values() {
	texts := []string{"", "\"", "a,b", "\n", "\r\n", " a", "\\.", "a\"\"b", "\t", "#"}
	one, two := texts[sym.Choose("first", len(texts))], ""
	plain := sym.Alpha("plain", 1, ",;a")
	s := "<x:a>" + typ + "<x:T> .\n<x:b>" + typ + "<x:T> .\n<x:o>" + typ + "<x:O> .\n<x:c>" + typ + "<x:C> .\n<x:a> <x:p> <x:c> .\n"
	s += "<x:a> <x:d> \"" + escaped(one) + "\" .\n<x:c> <x:d> \"" + plain + "\"@en .\n"
	both := sym.Bool("two values")
	if both {
		two = texts[sym.Choose("second", 4)]
		s += "<x:a> <x:d> \"" + escaped(two) + "\"@de .\n"
	}
	tables := sym.Bool("tables")
	cmds.Put("/in", bundles(), s)
	osm.Mkdir("/out")
	if sym.Bool("there before") {
		osm.WriteFile("/out/bundle__top.csv", []byte(strings.Repeat("there,before\n", 20)), 0)
	}
	n := len(osm.Created())
	args := []string{"-csv", "/out", "/in"}
	if tables {
		args = append([]string{"-sql-field-tables"}, args...)
	}
	sym.Assert(proc.Run(n2j.Main, args...) == 0, "the export succeeds")
	for _, p := range osm.Created()[n:] {
		sym.Assert(strings.HasPrefix(p, "/out/") && strings.HasSuffix(p, ".csv"), "only files of the export are written")
	}
	if tables {
		file("bundle__top", []string{"uri"}, [][]string{{"x:a"}, {"x:b"}})
		file("bundle__child", []string{"uri", "parent"}, [][]string{{"x:c", "x:a"}})
		names := [][]string{{"x:a", one, ""}}
		if both {
			names = append(names, []string{"x:a", two, "de"})
		}
		file("field__top__name", []string{"uri", "value", "lang"}, names)
		file("field__top__ref", []string{"uri", "value", "lang"}, nil)
		file("field__child__title", []string{"uri", "value", "lang"}, [][]string{{"x:c", plain, "en"}})
		sym.Cover("field tables")
	} else {
		if both {
			one += "," + two
		}
		file("bundle__top", []string{"uri", "field__name", "field__ref"}, [][]string{{"x:a", one, ""}, {"x:b", "", ""}})
		file("bundle__child", []string{"uri", "parent", "field__title"}, [][]string{{"x:c", "x:a", plain}})
		sym.Cover("columns")
	}
	file("bundle__other", []string{"uri"}, [][]string{{"x:o"}})
}

// H_Rows exports tables of any length.
//
// Bounds: 0..4 entities of one bundle, each with 0..2 children and 0..1 values, 0..2 of another.
//
//gosym:time=120
//gosym:native=no
func H_Rows() {
	s := "<x:x> <x:y> <x:z> .\n"
	var top, child, other [][]string
	for i, n := 0, sym.Choose("entities", 4+sym.Tier()); i < n; i++ {
		u := "x:a" + string(rune('0'+i))
		s += "<" + u + ">" + typ + "<x:T> .\n"
		v := ""
		if i == 0 && sym.Bool("value") {
			v = sym.Alpha("text", 1, "v, ")
			s += "<" + u + "> <x:e> \"" + v + "\" .\n"
		}
		if i < 2 {
			for j, m := 0, sym.Choose("children", 3); j < m; j++ {
				c := u + string(rune('0'+j))
				s += "<" + u + "> <x:p> <" + c + "> .\n<" + c + ">" + typ + "<x:C> .\n"
				child = append(child, []string{c, u, ""})
			}
		}
		top = append(top, []string{u, "", v})
	}
	for i, n := 0, sym.Choose("others", 3); i < n; i++ {
		u := "x:o" + string(rune('0'+i))
		s += "<" + u + ">" + typ + "<x:O> .\n"
		other = append(other, []string{u})
	}
	cmds.Put("/in", bundles(), s)
	osm.Mkdir("/out")
	sym.Assert(proc.Run(n2j.Main, "-csv=/out", "/in") == 0, "the export succeeds")
	file("bundle__top", []string{"uri", "field__name", "field__ref"}, top)
	file("bundle__child", []string{"uri", "parent", "field__title"}, child)
	file("bundle__other", []string{"uri"}, other)
	sym.Cover("exported")
}
