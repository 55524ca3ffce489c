// Package c31: command line exports do what their flag says.
package c31

import (
	"errors"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/cmds"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/cmds/n2j"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/js"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	"github.com/FAU-CDI/hangover/internal/zverif/model/proc"
	"github.com/FAU-CDI/hangover/internal/zverif/model/sqlm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

const typ = "<" + string(world.Type) + ">"

// source is two entities, one of them with two values.
func source(v string) {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "x:C")
	world.F(t, "name", "x:d", "x:C")
	cmds.Put("/in", &pb, "<x:a> "+typ+" <x:C> .\n<x:b> "+typ+" <x:C> .\n<x:a> <x:d> \""+v+"\"@de .\n<x:a> <x:d> \"w\" .\n<x:c> <x:same> <x:b> .\n<x:c> <x:d> \"u\" .\n")
	osm.Mkdir("/out")
}

// text is a value that has to be escaped here and there.
func text() string { return sym.Alpha("value", 1, "v,<'") }

func writes(path string) (n int) {
	for _, p := range osm.Created() {
		if strings.HasPrefix(p, path) && p != path {
			n++
		}
	}
	return
}

// none says that nothing was exported.
func none() {
	sym.Assert(len(sqlm.All()) == 0, "no database is opened")
	sym.Assert(proc.Stdout() == "", "nothing is written to standard output")
	sym.Assert(writes("/out") == 0, "no file is written")
}

// rows checks the rows of a table, which start with a URI.
func rows(t *sqlm.Table, want map[string][][]string, merged bool) {
	sym.Assert(t != nil, "every table is there")
	n := 0
	for _, v := range want {
		n += len(v)
	}
	sym.Assert(len(t.Rows) == n, "as many rows as there are")
	next := map[string]int{}
	for _, r := range t.Rows {
		u, _ := r[0].(string)
		if merged && u == "x:c" {
			u = "x:b" // either names the entity
		}
		k := next[u]
		next[u]++
		sym.Assert(k < len(want[u]), "no row too much")
		sym.Assert(len(want[u][k]) == len(r)-1, "as many columns as there are")
		for i, x := range r[1:] {
			s, _ := x.(string)
			sym.Assert(sym.EqStr(s, want[u][k][i]), "every column holds its value")
		}
	}
}

// database checks what was exported to a database.
func database(driver, source, v, sep string, tables, merged bool) {
	sym.Assert(len(sqlm.All()) == 1, "one database is opened")
	d := sqlm.All()[0]
	sym.Assert(d.Driver == driver && d.Source == source, "the database is the one that was asked for")
	sym.Assert(d.Closed, "the database is closed")
	sym.Assert(proc.Stdout() == "", "nothing is written to standard output")
	sym.Assert(writes("/out") == 0, "no file is written")
	b := ""
	if merged {
		b = "u"
	}
	if !tables {
		sym.Assert(len(d.Tables) == 1, "there is a table per bundle")
		rows(d.Table("bundle__top"), map[string][][]string{"x:a": {{v + sep + "w"}}, "x:b": {{b}}}, merged)
		return
	}
	sym.Assert(len(d.Tables) == 2, "there is a table per bundle and field")
	rows(d.Table("bundle__top"), map[string][][]string{"x:a": {{}}, "x:b": {{}}}, merged)
	f := map[string][][]string{"x:a": {{v, "de"}, {"w", ""}}}
	if merged {
		f["x:b"] = [][]string{{b, ""}}
	}
	rows(d.Table("field__top__name"), f, merged)
}

func printed(v string, merged bool) {
	got, ok := js.Parse(proc.Stdout())
	sym.Assert(ok, "what is printed is JSON")
	bs, _ := got.(map[string]any)
	es, _ := bs["top"].([]any)
	sym.Assert(len(bs) == 1 && len(es) == 2, "every entity is printed")
	seen := map[string]bool{}
	for _, e := range es {
		e, _ := e.(map[string]any)
		u, _ := e["URI"].(string)
		if merged && u == "x:c" {
			u = "x:b" // either names the entity
		}
		sym.Assert(!seen[u] && (u == "x:a" || u == "x:b"), "every entity is printed with its URI")
		seen[u] = true
		fs, _ := e["Fields"].(map[string]any)
		vs, _ := fs["name"].([]any)
		want := [][2]string{{v, "de"}, {"w", ""}}
		if u == "x:b" {
			want = nil
			if merged {
				want = [][2]string{{"u", ""}}
			}
		}
		sym.Assert(len(vs) == len(want), "every value is printed")
		for i, x := range vs {
			x, _ := x.(map[string]any)
			t, _ := x["Value"].(string)
			l, _ := x["Language"].(string)
			sym.Assert(sym.EqStr(t, want[i][0]) && l == want[i][1], "every value is printed with its language")
		}
	}
	sym.Assert(len(sqlm.All()) == 0, "no database is opened")
	sym.Assert(writes("/out") == 0, "no file is written")
}

// H_Flags chooses any combination of flags.
//
// Bounds: every combination of -mysql, -sqlite, -csv, -sql-field-tables, -cache, -sameas and a separator of one character, on two entities with up to two values, one of any of four characters.
//
//gosym:time=200
//gosym:native=no
func H_Flags() {
	v := text()
	source(v)
	var args []string
	n, sep := 0, ","
	flag := func(name, value string) bool {
		if !sym.Bool(name) {
			return false
		}
		if value != "" {
			name += "=" + value
		}
		args = append(args, "-"+name)
		return true
	}
	csv := flag("csv", "/out")
	mysql := flag("mysql", "me:pw@/db")
	sqlite := flag("sqlite", "/out.db")
	for _, b := range []bool{mysql, sqlite, csv} {
		if b {
			n++
		}
	}
	tables, merged := false, false
	if n == 1 {
		tables = flag("sql-field-tables", "")
		if !tables {
			x := sym.Alpha("separator", 1, ";,")
			args, sep = append(args, "-sql-seperator", x), x
		}
	}
	if n < 2 {
		merged = flag("sameas", "x:same")
		flag("cache", "/cache")
	}
	code := proc.Run(n2j.Main, append(args, "/in")...)
	if n > 1 {
		sym.Assert(code != 0, "more than one kind of export is refused")
		none()
		sym.Cover("refused")
		return
	}
	sym.Assert(code == 0, "the export succeeds")
	switch {
	case mysql:
		database("mysql", "me:pw@/db", v, sep, tables, merged)
		sym.Cover("mysql")
	case sqlite:
		database("sqlite", "/out.db", v, sep, tables, merged)
		sym.Cover("sqlite")
	case csv:
		for _, d := range sqlm.All() {
			sym.Assert(d.Driver == "sqlite" && d.Source == ":memory:", "a CSV export leaves no database behind")
		}
		sym.Assert(proc.Stdout() == "", "nothing is written to standard output")
		want := 1
		if tables {
			want = 2
		}
		sym.Assert(writes("/out") == want, "there is a file per table")
		sym.Assert(osm.Exists("/out/bundle__top.csv") && osm.Exists("/out/field__top__name.csv") == tables, "there is a file per table")
		sym.Cover("csv")
	default:
		printed(v, merged)
		sym.Cover("json")
	}
}

// H_Faults fails any operation on the inputs and outputs.
//
// Bounds: any of the four kinds of export, on two entities; any one statement, query, row, or reading, creation, writing or closing of a file fails (closing of what was only read or is only kept in memory aside).
//
//gosym:time=150
//gosym:native=no
func H_Faults() {
	source("v")
	var args []string
	kind := sym.Choose("kind", 4)
	switch kind {
	case 1:
		args = append(args, "-sqlite=/out.db")
	case 2:
		args = append(args, "-mysql=x")
	case 3:
		args = append(args, "-csv=/out")
	}
	if kind > 0 && sym.Bool("tables") {
		args = append(args, "-sql-field-tables")
	}
	at, n, failed := sym.Int("failing", 0, 60), 0, ""
	fail := errors.New("no")
	count := func(op string) error {
		n++
		if n-1 == at {
			failed = op
			return fail
		}
		return nil
	}
	osm.SetFault(func(op string) error {
		switch {
		case osm.Last() == "/dev/stderr", op == "os.close" && strings.HasPrefix(osm.Last(), "/in"):
			return nil
		case op == "os.close" && osm.Last() == "/dev/stdout":
			return nil
		}
		return count(op)
	})
	sqlm.SetFault(func(op string) error {
		if op == "close" && kind == 3 {
			return nil
		}
		return count(op)
	})
	code := proc.Run(n2j.Main, append(args, "/in")...)
	if failed != "" {
		sym.Assert(code != 0, "a failing export is reported")
		sym.Cover("failed")
		return
	}
	sym.Assert(code == 0, "the export succeeds")
	sym.Cover("succeeded")
}

// H_Arguments gives any number of arguments, some of which do not exist or are malformed.
//
// Bounds: 0..3 arguments out of a pathbuilder, statements, a directory with both, one that is empty, something that does not exist, and malformed statements.
//
//gosym:time=60
//gosym:native=no
func H_Arguments() {
	source("v")
	osm.Mkdir("/empty")
	osm.WriteFile("/bad", []byte("<x:a> <x:b"), 0)
	names := []string{"/in/a.xml", "/in/a.nq", "/in", "/empty", "/none", "/bad"}
	var args []string
	for i := sym.Choose("arguments", 4); i > 0; i-- {
		args = append(args, names[sym.Choose("argument", len(names))])
	}
	code := proc.Run(n2j.Main, args...)
	if len(args) == 1 && args[0] == "/in" || len(args) == 2 && args[0] == "/in/a.xml" && args[1] == "/in/a.nq" {
		sym.Assert(code == 0, "the export succeeds")
		printed("v", false)
		sym.Cover("exported")
		return
	}
	sym.Assert(code != 0, "an export without its sources fails")
	none()
	sym.Cover("refused")
}

// H_Predicates says which predicates name identities and inverses.
//
// Bounds: -sameas and -inverseof are each absent, empty, a predicate, or two predicates separated by a comma; the data uses the default predicate or the one given, or another one; exported as JSON or to a database.
//
//gosym:time=90
//gosym:native=no
func H_Predicates() {
	pb := pathbuilder.NewPathbuilder()
	world.F(world.B(&pb, "top", nil, "x:C"), "name", "x:d", "x:C", "x:p", "x:D")
	var args []string
	pick := func(flag, standard string) (used string, on bool) {
		preds := []string{standard, "x:1", "x:2"}
		used = preds[sym.Choose(flag+" used", 3)]
		switch sym.Choose(flag, 4) {
		case 0:
			return used, used == standard
		case 1:
			args = append(args, "-"+flag+"=")
			return used, false
		case 2:
			args = append(args, "-"+flag, "x:1")
			return used, used == "x:1"
		default:
			args = append(args, "-"+flag, "x:2, x:1")
			return used, used == "x:1" || used == "x:2"
		}
	}
	same, merged := pick("sameas", string(wisski.SameAs))
	inv, inverted := pick("inverseof", string(wisski.InverseOf))
	if same == inv {
		return // says two things at once
	}
	cmds.Put("/in", &pb, "<x:p> <"+inv+"> <x:q> .\n<x:a> "+typ+" <x:C> .\n<x:b> <"+same+"> <x:a> .\n<x:n> <x:q> <x:b> .\n<x:n> "+typ+" <x:D> .\n<x:n> <x:d> \"v\" .\n")
	found := merged && inverted
	if sym.Bool("sqlite") {
		sym.Assert(proc.Run(n2j.Main, append(args, "-sqlite=/out.db", "/in")...) == 0, "the export succeeds")
		t := sqlm.All()[0].Table("bundle__top")
		sym.Assert(t != nil && len(t.Rows) == 1, "there is one entity")
		s, _ := t.Rows[0][1].(string)
		sym.Assert((s == "v") == found, "identities and inverses are those of the flags")
		sym.Cover("database")
		return
	}
	sym.Assert(proc.Run(n2j.Main, append(args, "/in")...) == 0, "the export succeeds")
	sym.Assert(strings.Contains(proc.Stdout(), "\"v\"") == found, "identities and inverses are those of the flags")
	sym.Cover("printed")
}
