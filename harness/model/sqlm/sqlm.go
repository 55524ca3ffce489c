// Package sqlm models database/sql: a connection is a set of tables that understands the few statements needed to create, drop, fill and list them.
package sqlm

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"reflect"
	"strings"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
)

// Table is a table. The values are strings, nil for NULL, or whatever else was given.
type Table struct {
	Name    string
	Columns []string
	Rows    [][]any
}

// Statement is a statement that was executed.
type Statement struct {
	Text string
	Vars int
	Rows int
}

// Database is what is behind a connection.
type Database struct {
	Driver, Source string
	Tables         []*Table // in the order of their creation
	Log            []Statement
	Closed         bool
	Open           int // rows not yet closed
	limit          int // of the number of connections
	conns          []*conn
}

// conn is a connection. Those to a database in memory each have their own tables.
type conn struct {
	tables []*Table
	busy   bool
}

// use takes a connection that is not busy.
func (d *Database) use() *conn {
	for {
		for i := len(d.conns) - 1; i >= 0; i-- {
			if c := d.conns[i]; !c.busy {
				c.busy = true
				return c
			}
		}
		if d.limit == 0 || len(d.conns) < d.limit {
			c := &conn{busy: true}
			d.conns = append(d.conns, c)
			return c
		}
		model.Yield()
	}
}

func (d *Database) memory() bool { return strings.Contains(d.Source, ":memory:") }

// on does something on a connection.
func (d *Database) on(c *conn, f func() error) error {
	if d.memory() {
		d.Tables = c.tables
		defer func() { c.tables = d.Tables }()
	}
	return f()
}

type world struct {
	fault func(op string) error
	all   []*Database
}

func get() *world {
	w, _ := model.Attached("sqlm.world").(*world)
	if w == nil {
		w = &world{}
		model.Attach("sqlm.world", w)
	}
	return w
}

// All returns every database opened.
func All() []*Database { return get().all }

// SetFault installs a function that decides which operations fail: open, exec, query, next, scan, close.
func SetFault(f func(op string) error) { model.Quiet(func() { get().fault = f }) }

func fault(op string) (err error) {
	if f := get().fault; f != nil {
		model.Quiet(func() { err = f(op) })
	}
	return
}

// New makes a connection to an empty database.
func New(driver, source string) (*sql.DB, *Database) {
	db := new(sql.DB)
	d := &Database{Driver: driver, Source: source}
	model.Attach(db, d)
	w := get()
	w.all = append(w.all, d)
	return db, d
}

func of(db *sql.DB) *Database {
	d, _ := model.Attached(db).(*Database)
	if d == nil {
		model.Unsupported("a connection that was not opened")
	}
	return d
}

// Table finds a table by name, which is not case-sensitive.
func (d *Database) Table(name string) *Table {
	for _, t := range d.Tables {
		if strings.EqualFold(t.Name, name) {
			return t
		}
	}
	return nil
}

func (d *Database) drop(name string) {
	for i, t := range d.Tables {
		if strings.EqualFold(t.Name, name) {
			d.Tables = append(append([]*Table{}, d.Tables[:i]...), d.Tables[i+1:]...)
			return
		}
	}
}

//gosym:replace database/sql.Open
func open(driver, source string) (*sql.DB, error) {
	if err := fault("open"); err != nil {
		return nil, err
	}
	db, _ := New(driver, source)
	return db, nil
}

//gosym:replace (*database/sql.DB).Close
func closeDB(db *sql.DB) error {
	of(db).Closed = true
	return fault("close")
}

//gosym:replace (*database/sql.DB).Ping
func ping(db *sql.DB) error { return fault("open") }

//gosym:replace (*database/sql.DB).SetMaxOpenConns
func setMaxOpen(db *sql.DB, n int) {
	if n < 0 {
		n = 0
	}
	of(db).limit = n
}

// words splits a statement into names, signs and quoted texts.
func words(s string) (out []string) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '(' || c == ')' || c == ',' || c == ';' || c == '?' || c == '*' || c == '=':
			out = append(out, s[i:i+1])
			i++
		case c == '\'' || c == '"' || c == '`':
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				model.Unsupported("a statement with an open quotation")
			}
			w := s[i+1 : i+1+j]
			if c == '\'' {
				w = "'" + w
			}
			out = append(out, w)
			i += j + 2
		default:
			j := i
			for j < len(s) && strings.IndexByte(" \t\r\n(),;?*='\"`", s[j]) < 0 {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	for len(out) > 0 && out[len(out)-1] == ";" {
		out = out[:len(out)-1]
	}
	return out
}

type parser struct {
	w    []string
	text string
}

func (p *parser) accept(words ...string) bool {
	if len(p.w) < len(words) {
		return false
	}
	for i, w := range words {
		if !strings.EqualFold(p.w[i], w) {
			return false
		}
	}
	p.w = p.w[len(words):]
	return true
}

func (p *parser) bad() { model.Unsupported("the statement " + p.text) }

func (p *parser) name() string {
	if len(p.w) == 0 {
		p.bad()
	}
	n := p.w[0]
	p.w = p.w[1:]
	return n
}

func (p *parser) sign(s string) {
	if !p.accept(s) {
		p.bad()
	}
}

// plain is what a driver is given for an argument.
func plain(v any) any {
	for i := 0; i < 4; i++ {
		x, ok := v.(driver.Valuer)
		if !ok {
			break
		}
		y, err := x.Value()
		if err != nil {
			model.Unsupported("an argument that has no value")
		}
		v = y
	}
	switch x := v.(type) {
	case nil, string:
		return v
	case []byte:
		return string(x)
	}
	if r := reflect.ValueOf(v); r.Kind() == reflect.String {
		return r.String()
	}
	return v
}

func (d *Database) exec(query string, args []any) error {
	d.Log = append(d.Log, Statement{Text: query, Vars: len(args)})
	if d.Closed {
		return errors.New("sql: database is closed")
	}
	if err := fault("exec"); err != nil {
		return err
	}
	p := &parser{words(query), query}
	switch {
	case p.accept("DROP", "TABLE"):
		must := !p.accept("IF", "EXISTS")
		name := p.name()
		if must && d.Table(name) == nil {
			return errors.New("no such table: " + name)
		}
		d.drop(name)
	case p.accept("CREATE", "TABLE"):
		must := !p.accept("IF", "NOT", "EXISTS")
		t := &Table{Name: p.name()}
		p.sign("(")
		for {
			c := p.name()
			for _, o := range t.Columns {
				if strings.EqualFold(o, c) {
					return errors.New("duplicate column name: " + c)
				}
			}
			t.Columns = append(t.Columns, c)
			if d.Driver == "mysql" && len(p.w) > 0 && (p.w[0] == "," || p.w[0] == ")") {
				return errors.New("syntax error: column without a type: " + c)
			}
			for len(p.w) > 0 && p.w[0] != "," && p.w[0] != ")" {
				p.w = p.w[1:]
			}
			if !p.accept(",") {
				break
			}
		}
		p.sign(")")
		if d.Table(t.Name) != nil {
			if must {
				return errors.New("table " + t.Name + " already exists")
			}
			break
		}
		d.Tables = append(d.Tables, t)
	case p.accept("DELETE", "FROM"):
		t := d.Table(p.name())
		if t == nil {
			return errors.New("no such table")
		}
		t.Rows = nil
	case p.accept("INSERT", "INTO"):
		name := p.name()
		t := d.Table(name)
		if t == nil {
			return errors.New("no such table: " + name)
		}
		var at []int
		p.sign("(")
		for {
			c, k := p.name(), -1
			for i, o := range t.Columns {
				if strings.EqualFold(o, c) {
					k = i
				}
			}
			if k < 0 {
				return errors.New("no such column: " + c)
			}
			at = append(at, k)
			if !p.accept(",") {
				break
			}
		}
		p.sign(")")
		p.sign("VALUES")
		var rows [][]any
		for {
			p.sign("(")
			row := make([]any, len(t.Columns))
			for i, k := range at {
				if i > 0 {
					p.sign(",")
				}
				switch {
				case p.accept("?"):
					if len(args) == 0 {
						return errors.New("missing argument")
					}
					row[k] = plain(args[0])
					args = args[1:]
				case p.accept("NULL"):
				default:
					p.bad()
				}
			}
			if !p.accept(")") {
				return errors.New("wrong number of values")
			}
			rows = append(rows, row)
			if !p.accept(",") {
				break
			}
		}
		d.Log[len(d.Log)-1].Rows = len(rows)
		if len(args) > 0 {
			return errors.New("too many arguments")
		}
		t.Rows = append(t.Rows, rows...)
	default:
		p.bad()
	}
	if len(p.w) > 0 {
		p.bad()
	}
	return nil
}

type result struct{}

func (result) LastInsertId() (int64, error) { return 0, nil }
func (result) RowsAffected() (int64, error) { return 0, nil }

//gosym:replace (*database/sql.DB).Exec
func exec(db *sql.DB, query string, args ...any) (sql.Result, error) {
	d := of(db)
	c := d.use()
	model.Yield()
	defer func() { c.busy = false }()
	if err := d.on(c, func() error { return d.exec(query, args) }); err != nil {
		return nil, err
	}
	return result{}, nil
}

//gosym:replace (*database/sql.DB).ExecContext
func execContext(db *sql.DB, ctx context.Context, query string, args ...any) (sql.Result, error) {
	return exec(db, query, args...)
}

// tx is a transaction: its statements are applied at once and undone when it is rolled back.
type tx struct {
	db     *sql.DB
	tables []*Table
	done   bool
}

//gosym:replace (*database/sql.DB).Begin
func begin(db *sql.DB) (*sql.Tx, error) {
	if err := fault("exec"); err != nil {
		return nil, err
	}
	t := new(sql.Tx)
	x := &tx{db: db}
	for _, o := range of(db).Tables {
		c := *o
		x.tables = append(x.tables, &c)
	}
	model.Attach(t, x)
	return t, nil
}

func ofTx(t *sql.Tx) *tx {
	x, _ := model.Attached(t).(*tx)
	if x == nil {
		model.Unsupported("a transaction that was not begun")
	}
	return x
}

//gosym:replace (*database/sql.Tx).Exec
func txExec(t *sql.Tx, query string, args ...any) (sql.Result, error) {
	x := ofTx(t)
	if x.done {
		return nil, sql.ErrTxDone
	}
	return exec(x.db, query, args...)
}

//gosym:replace (*database/sql.Tx).Commit
func commit(t *sql.Tx) error {
	x := ofTx(t)
	if x.done {
		return sql.ErrTxDone
	}
	x.done = true
	if err := fault("exec"); err != nil {
		of(x.db).Tables = x.tables
		return err
	}
	return nil
}

//gosym:replace (*database/sql.Tx).Rollback
func rollback(t *sql.Tx) error {
	x := ofTx(t)
	if x.done {
		return sql.ErrTxDone
	}
	x.done = true
	of(x.db).Tables = x.tables
	return nil
}

type rows struct {
	d       *Database
	on      *conn
	columns []string
	rows    [][]any
	at      int
	err     error
	closed  bool
}

//gosym:replace (*database/sql.DB).Query
func query(db *sql.DB, text string, args ...any) (*sql.Rows, error) {
	d := of(db)
	c := d.use()
	var out *sql.Rows
	err := d.on(c, func() (err error) { out, err = d.query(c, text); return })
	if err != nil {
		c.busy = false
	}
	return out, err
}

func (d *Database) query(on *conn, text string) (*sql.Rows, error) {
	if d.Closed {
		return nil, errors.New("sql: database is closed")
	}
	if err := fault("query"); err != nil {
		return nil, err
	}
	p := &parser{words(text), text}
	r := &rows{d: d, on: on}
	p.sign("SELECT")
	var cols []string
	for {
		cols = append(cols, p.name())
		if !p.accept(",") {
			break
		}
	}
	p.sign("FROM")
	name := p.name()
	if strings.EqualFold(name, "sqlite_master") || strings.EqualFold(name, "sqlite_schema") {
		if len(cols) != 1 || cols[0] != "name" || !p.accept("WHERE", "type", "=", "'table") {
			p.bad()
		}
		r.columns = []string{"name"}
		for _, t := range d.Tables {
			r.rows = append(r.rows, []any{t.Name})
		}
	} else {
		t := d.Table(name)
		if t == nil {
			return nil, errors.New("no such table: " + name)
		}
		if len(cols) != 1 || cols[0] != "*" {
			p.bad()
		}
		r.columns, r.rows = t.Columns, t.Rows
	}
	if len(p.w) > 0 {
		p.bad()
	}
	d.Open++
	out := new(sql.Rows)
	model.Attach(out, r)
	return out, nil
}

func ofRows(r *sql.Rows) *rows {
	x, _ := model.Attached(r).(*rows)
	if x == nil {
		model.Unsupported("rows that were not queried")
	}
	return x
}

//gosym:replace (*database/sql.Rows).Columns
func columns(r *sql.Rows) ([]string, error) {
	x := ofRows(r)
	if x.closed {
		return nil, errors.New("sql: Rows are closed")
	}
	return append([]string{}, x.columns...), nil
}

//gosym:replace (*database/sql.Rows).Next
func next(r *sql.Rows) bool {
	x := ofRows(r)
	if x.closed || x.err != nil {
		return false
	}
	if err := fault("next"); err != nil {
		x.err = err
		closeRows(r)
		return false
	}
	if x.at == len(x.rows) {
		closeRows(r)
		return false
	}
	x.at++
	return true
}

//gosym:replace (*database/sql.Rows).Scan
func scan(r *sql.Rows, dest ...any) error {
	x := ofRows(r)
	if x.closed {
		return errors.New("sql: Rows are closed")
	}
	if x.at == 0 {
		return errors.New("sql: Scan called without calling Next")
	}
	if len(dest) != len(x.columns) {
		return errors.New("sql: wrong number of destinations")
	}
	if err := fault("scan"); err != nil {
		return err
	}
	for i, d := range dest {
		v := x.rows[x.at-1][i]
		s, isS := v.(string)
		if v != nil && !isS {
			model.Unsupported("a column that is no text")
		}
		switch d := d.(type) {
		case *string:
			if v == nil {
				return errors.New("sql: Scan error: converting NULL to string is unsupported")
			}
			*d = s
		case *sql.RawBytes:
			*d = nil
			if v != nil {
				*d = sql.RawBytes(s)
			}
		case *[]byte:
			*d = nil
			if v != nil {
				*d = []byte(s)
			}
		case *sql.NullString:
			*d = sql.NullString{String: s, Valid: v != nil}
		case *any:
			*d = v
		default:
			model.Unsupported("the destination of a column")
		}
	}
	return nil
}

//gosym:replace (*database/sql.Rows).Err
func rowsErr(r *sql.Rows) error { return ofRows(r).err }

//gosym:replace (*database/sql.Rows).Close
func closeRows(r *sql.Rows) error {
	x := ofRows(r)
	if !x.closed {
		x.closed = true
		x.on.busy = false
		x.d.Open--
	}
	return nil
}
