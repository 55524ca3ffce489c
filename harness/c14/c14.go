// Package c14: the SQL export contains every entity, value and child exactly once.
package c14

import (
	"errors"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/env"
	"github.com/FAU-CDI/hangover/internal/zverif/model/sqlm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

// bundles has two top-level bundles, the first with two fields and a child with a field and a child without one.
func bundles() (*pathbuilder.Pathbuilder, []*pathbuilder.Bundle) {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kT")
	world.F(t, "name", "d", "kT")
	world.F(t, "ref", "d", "kT")
	c := world.B(&pb, "child", t, "kT", "p", "kC")
	world.F(c, "name", "d", "kT", "p", "kC")
	world.B(&pb, "leaf", c, "kT", "p", "kC", "q", "kL")
	o := world.B(&pb, "other", nil, "kO")
	world.F(o, "title", "d", "kO")
	return &pb, []*pathbuilder.Bundle{t, o}
}

// value is any value, the language is any if there is a column for it.
func value(tables bool) wisski.FieldValue {
	v := wisski.FieldValue{Value: impl.Datum(sym.String("value", sym.Choose("length", 1+sym.Tier()+1)))}
	if tables && sym.Bool("language") {
		v.Language = impl.Language(sym.String("language", 1))
	}
	return v
}

func values(n int, tables bool) (out []wisski.FieldValue) {
	for ; n > 0; n-- {
		out = append(out, value(tables))
	}
	return
}

// row is a row that has to be in a table, by column.
type row map[string]any

type tables struct {
	columns map[string][]string
	rows    map[string][]row
	fields  bool   // tables for fields
	sep     string // otherwise what values are joined by
	widest  int    // of the tables that rows go into
}

func (w *tables) into(table string, r row) {
	w.rows[table] = append(w.rows[table], r)
	if len(w.columns[table]) > w.widest {
		w.widest = len(w.columns[table])
	}
}

func (w *tables) bundle(b *pathbuilder.Bundle) {
	c := []string{"uri"}
	if b.Parent != nil {
		c = append(c, "parent")
	}
	for _, f := range b.ChildFields {
		if w.fields {
			w.columns["field__"+b.Path.ID+"__"+f.Path.ID] = []string{"uri", "value", "lang"}
		} else {
			c = append(c, "field__"+f.Path.ID)
		}
	}
	w.columns["bundle__"+b.Path.ID] = c
	for _, b := range b.ChildBundles {
		w.bundle(b)
	}
}

func (w *tables) entity(b *pathbuilder.Bundle, parent string, e *wisski.Entity) {
	r := row{"uri": string(e.URI)}
	if b.Parent != nil {
		r["parent"] = parent
	}
	for _, f := range b.ChildFields {
		vs := e.Fields[f.Path.ID]
		if w.fields {
			for _, v := range vs {
				w.into("field__"+b.Path.ID+"__"+f.Path.ID, row{"uri": string(e.URI), "value": string(v.Value), "lang": string(v.Language)})
			}
			continue
		}
		if len(vs) == 0 {
			r["field__"+f.Path.ID] = nil
			continue
		}
		joined := ""
		for i, v := range vs {
			if i > 0 {
				joined += w.sep
			}
			joined += string(v.Value)
		}
		r["field__"+f.Path.ID] = joined
	}
	w.into("bundle__"+b.Path.ID, r)
	for _, c := range b.ChildBundles {
		es := e.Children[c.Path.ID]
		for i := range es {
			w.entity(c, string(e.URI), &es[i])
		}
	}
}

// want is what the database has to hold.
func want(s *exporter.SQL, bs []*pathbuilder.Bundle, es map[string][]wisski.Entity) *tables {
	w := &tables{columns: map[string][]string{}, rows: map[string][]row{}, fields: s.MakeFieldTables, sep: s.Separator}
	for _, b := range bs {
		w.bundle(b)
		for i := range es[b.Path.ID] {
			w.entity(b, "", &es[b.Path.ID][i])
		}
	}
	return w
}

func (w *tables) check(d *sqlm.Database) {
	sym.Assert(len(d.Tables) == len(w.columns), "a table for every bundle and nothing else")
	for _, t := range d.Tables {
		columns, ok := w.columns[t.Name]
		sym.Assert(ok, "a table for every bundle and nothing else")
		sym.Assert(len(columns) == len(t.Columns), "every table has its columns")
		sym.Assert(len(t.Rows) == len(w.rows[t.Name]), "as many rows as there are entities or values")
		// rows are told apart by their URI and parent; values of a field keep their order
		used := make([]bool, len(t.Rows))
		for _, r := range w.rows[t.Name] {
			found := false
			for i, have := range t.Rows {
				if used[i] || found {
					continue
				}
				ok := true
				for j, c := range t.Columns {
					if c == "uri" || c == "parent" {
						ok = ok && have[j] == r[c]
					}
				}
				if !ok {
					continue
				}
				used[i], found = true, true
				for j, c := range t.Columns {
					x, known := r[c]
					sym.Assert(known, "every table has its columns")
					a, isA := have[j].(string)
					b, isB := x.(string)
					sym.Assert(isA == isB && (isA || have[j] == nil), "a missing value is NULL, others are not")
					sym.Assert(sym.EqStr(a, b), "every column holds its value")
				}
			}
			sym.Assert(found, "every entity has its row")
		}
	}
}

// limits checks that statements stay in their limits.
func limits(s *exporter.SQL, d *sqlm.Database) {
	for _, l := range d.Log {
		sym.Assert(l.Vars <= s.MaxQueryVar, "no statement has more variables than allowed")
		sym.Assert(l.Rows <= s.BatchSize, "no statement has more rows than a batch")
	}
}

func add(s *exporter.SQL, b *pathbuilder.Bundle, es []wisski.Entity) error {
	if err := s.Begin(b, int64(len(es))); err != nil {
		return err
	}
	for i := range es {
		e := es[i]
		if err := s.Add(b, &e); err != nil {
			return err
		}
	}
	return s.End(b)
}

func all(s *exporter.SQL, bs []*pathbuilder.Bundle, es map[string][]wisski.Entity) error {
	for _, b := range bs {
		if err := add(s, b, es[b.Path.ID]); err != nil {
			return err
		}
	}
	return nil
}

func name(k string, i int) impl.Label { return impl.Label(k + string(rune('0'+i))) }

// H_Values exports two entities with any values.
//
// Bounds: two entities of a bundle with two fields, 0..2 values each for one field and 0..1 for the other, of 0..1 characters, with or without a language of 1; both field modes; separators of 0..1 characters; any batch size 1..2 (thorough 3) and any number of variables 0..6 (thorough 12).
//
//gosym:time=120
//gosym:native=no
func H_Values() {
	_, bs := bundles()
	db, d := sqlm.New("x", "y")
	s := &exporter.SQL{DB: db, MakeFieldTables: sym.Bool("tables"), BatchSize: sym.Int("batch", 1, 2+sym.Tier()), MaxQueryVar: sym.Int("vars", 0, 6+6*sym.Tier())}
	if sym.Bool("separated") {
		s.Separator = sym.String("separator", 1)
	}
	es := map[string][]wisski.Entity{"top": {
		{URI: "a", Fields: map[string][]wisski.FieldValue{"name": values(sym.Choose("values", 3), s.MakeFieldTables), "ref": values(sym.Choose("values", 2), s.MakeFieldTables)}},
		{URI: "b", Fields: map[string][]wisski.FieldValue{"ref": values(1, s.MakeFieldTables)}},
	}}
	w := want(s, bs, es)
	if err := all(s, bs, es); err != nil {
		sym.Assert(s.MaxQueryVar < w.widest, "the export only fails if a row has too many variables")
		sym.Cover("too wide")
		limits(s, d)
		return
	}
	sym.Assert(s.MaxQueryVar >= w.widest, "an export that cannot add a row fails")
	limits(s, d)
	w.check(d)
	sym.Cover("exported")
}

// H_Batches exports many entities, with children, in batches.
//
// Bounds: 0..4 (thorough 5) entities of one bundle and 0..2 (3) of another, one of them with 0..3 children with one child each; any batch size 1..5 (6) and any number of variables 4..12 (20); one value of any character per entity; both field modes.
//
//gosym:time=120
//gosym:native=no
func H_Batches() {
	_, bs := bundles()
	db, d := sqlm.New("x", "y")
	s := &exporter.SQL{DB: db, MakeFieldTables: sym.Bool("tables"), Separator: ", ", BatchSize: sym.Int("batch", 1, 5+sym.Tier()), MaxQueryVar: sym.Int("vars", 4, 12+8*sym.Tier())}
	es := map[string][]wisski.Entity{}
	for i, n := 0, sym.Choose("entities", 5+sym.Tier()); i < n; i++ {
		e := wisski.Entity{URI: name("a", i), Fields: map[string][]wisski.FieldValue{"name": {{Value: impl.Datum(sym.String("value", 1))}}}}
		if i == n-1 {
			e.Children = map[string][]wisski.Entity{}
			for j, m := 0, sym.Choose("children", 4); j < m; j++ {
				e.Children["child"] = append(e.Children["child"], wisski.Entity{URI: name("c", j),
					Fields:   map[string][]wisski.FieldValue{"name": {{Value: impl.Datum(sym.String("value", 1)), Language: "de"}}},
					Children: map[string][]wisski.Entity{"leaf": {{URI: name("l", j)}}},
				})
			}
		}
		es["top"] = append(es["top"], e)
	}
	for i, n := 0, sym.Choose("others", 3+sym.Tier()); i < n; i++ {
		es["other"] = append(es["other"], wisski.Entity{URI: name("o", i)})
	}
	must(all(s, bs, es))
	limits(s, d)
	want(s, bs, es).check(d)
	sym.Assert(!d.Closed, "the database is open until the export ends")
	must(s.Close())
	sym.Assert(d.Closed, "and closed then")
	sym.Cover("exported")
}

// H_Shared has the same child below two parents, and an entity that is child and parent.
//
// Bounds: two entities with 0..2 children each out of two, any of them the same; both field modes; batch sizes 1..3.
//
//gosym:time=60
//gosym:native=no
func H_Shared() {
	_, bs := bundles()
	db, d := sqlm.New("x", "y")
	s := &exporter.SQL{DB: db, MakeFieldTables: sym.Bool("tables"), Separator: ",", BatchSize: sym.Int("batch", 1, 3), MaxQueryVar: 100}
	kids := func() (out []wisski.Entity) {
		for i := 0; i < 2; i++ {
			if sym.Bool("has child") {
				out = append(out, wisski.Entity{URI: name("", i), Fields: map[string][]wisski.FieldValue{"name": values(1, s.MakeFieldTables)}})
			}
		}
		return
	}
	es := map[string][]wisski.Entity{"top": {
		{URI: "0", Children: map[string][]wisski.Entity{"child": kids()}},
		{URI: "1", Children: map[string][]wisski.Entity{"child": kids()}},
	}}
	must(all(s, bs, es))
	want(s, bs, es).check(d)
	sym.Cover("exported")
}

// H_Again exports a second time into the same database.
//
// Bounds: 0..2 entities with a value of one character each time; both field modes.
//
//gosym:time=60
//gosym:native=no
func H_Again() {
	_, bs := bundles()
	db, d := sqlm.New("x", "y")
	tables := sym.Bool("tables")
	for i := 0; i < 2; i++ {
		s := &exporter.SQL{DB: db, MakeFieldTables: tables, Separator: ",", BatchSize: 2, MaxQueryVar: 100, SkipClose: true}
		es := map[string][]wisski.Entity{}
		for j, n := 0, sym.Choose("entities", 3); j < n; j++ {
			es["top"] = append(es["top"], wisski.Entity{URI: name("a", j), Fields: map[string][]wisski.FieldValue{"name": {{Value: impl.Datum(sym.String("value", 1))}}}, Children: map[string][]wisski.Entity{
				"child": {{URI: name("c", j), Fields: map[string][]wisski.FieldValue{"name": {{Value: impl.Datum(sym.String("value", 1))}}}}},
			}})
		}
		must(all(s, bs, es))
		want(s, bs, es).check(d)
		must(s.Close())
		sym.Assert(!d.Closed, "the database stays open if it is to")
	}
	sym.Cover("exported twice")
}

// H_Faults fails any statement.
//
// Bounds: three entities with values and a child in batches of 2; both field modes; any one statement fails.
//
//gosym:time=60
//gosym:native=no
func H_Faults() {
	_, bs := bundles()
	db, d := sqlm.New("x", "y")
	s := &exporter.SQL{DB: db, MakeFieldTables: sym.Bool("tables"), Separator: ",", BatchSize: 2, MaxQueryVar: 6}
	es := map[string][]wisski.Entity{"top": {
		{URI: "a", Fields: map[string][]wisski.FieldValue{"name": values(1, s.MakeFieldTables)}, Children: map[string][]wisski.Entity{"child": {{URI: "c", Fields: map[string][]wisski.FieldValue{"name": {{Value: "v"}}}, Children: map[string][]wisski.Entity{"leaf": {{URI: "l"}}}}}}},
		{URI: "b"}, {URI: "c", Fields: map[string][]wisski.FieldValue{"ref": {{Value: "v"}}}},
	}, "other": {{URI: "o"}}}
	at, n, failed := sym.Int("failing", 0, 40), 0, false
	fail := errors.New("no")
	sqlm.SetFault(func(op string) error {
		n++
		if n-1 == at {
			failed = true
			return fail
		}
		return nil
	})
	err := all(s, bs, es)
	if e := s.Close(); err == nil {
		err = e
	}
	if failed {
		sym.Assert(err != nil, "a statement that fails makes the export fail")
		sym.Cover("failed")
		return
	}
	must(err)
	want(s, bs, es).check(d)
	sym.Cover("nothing failed")
}

// tee passes on what is exported and remembers it.
type tee struct {
	s  *exporter.SQL
	es map[string]*[]wisski.Entity
}

func (t *tee) Begin(b *pathbuilder.Bundle, n int64) error { return t.s.Begin(b, n) }
func (t *tee) Add(b *pathbuilder.Bundle, e *wisski.Entity) error {
	es := t.es[b.Path.ID]
	*es = append(*es, *e)
	return t.s.Add(b, e)
}
func (t *tee) End(b *pathbuilder.Bundle) error { return t.s.End(b) }
func (t *tee) Close() error                    { return t.s.Close() }

// H_Export exports through sparkl, where bundles are exported at the same time.
//
// Bounds: three entities of the first bundle, one with a child and one with two values, and two of the second; any batch size 1..3; both field modes; all schedules with at most 2 delays; unsynchronized accesses are reported.
//
//gosym:time=120
//gosym:native=no
func H_Export() {
	src := new(world.Source)
	for _, e := range []impl.Label{"a", "b", "c"} {
		src.Triple(e, world.Type, "kT")
	}
	src.Triple("a", "p", "x")
	src.Triple("x", world.Type, "kC")
	src.Triple("o", world.Type, "kO")
	src.Triple("u", world.Type, "kO")
	src.Data("b", "d", "", "de")
	src.Data("b", "d", impl.Datum(sym.String("value", 1)), "")
	pb, bs := bundles()
	db, d := sqlm.New("x", "y")
	s := &exporter.SQL{DB: db, MakeFieldTables: sym.Bool("tables"), Separator: ",", BatchSize: sym.Int("batch", 1, 3), MaxQueryVar: 6}
	t := &tee{s, map[string]*[]wisski.Entity{"top": {}, "other": {}}}
	ix, err := sparkl.MakeIndex(src, world.Predicates, sparkl.NewEngine(""), sparkl.DefaultIndexOptions(pb), nil)
	must(err)
	if sym.Tier() > 0 {
		sym.Delays(2)
	} else {
		sym.Delays(1)
	}
	sym.Races(true)
	must(sparkl.Export(pb, ix, storages.NewBundleEngine(""), t, nil))
	sym.NoSchedules()
	es := map[string][]wisski.Entity{}
	for _, b := range bs {
		es[b.Path.ID] = *t.es[b.Path.ID]
	}
	sym.Assert(len(es["top"]) == 3 && len(es["other"]) == 2, "every entity is exported")
	limits(s, d)
	want(s, bs, es).check(d)
	sym.Assert(d.Closed, "the database is closed")
	sym.Cover("exported")
}
