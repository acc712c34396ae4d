package checks

import (
	"slices"

	"context"
	"database/sql"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/glebarez/sqlite"
	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// Thing is the model of the checks on rows.
type Thing struct {
	ID int64 `gorm:"primaryKey"`
	A  *int64
	B  *int64
	C  *int64
	D  *int64
	S  *string
	T  *string
	F  *bool
	W  *string
}

// columns of Thing in the order of the table, with affinity.
var thingCols = []struct {
	name string
	aff  byte
	decl string
}{{"a", 'i', "integer"}, {"b", 'i', "integer"}, {"c", 'i', "integer"}, {"d", 'i', "integer"}, {"s", 's', "text"}, {"t", 's', "text"}, {"f", 'i', "numeric"}, {"w", 's', "text"}}

// fixture is a database with one table that holds every combination of some column values.
type fixture struct {
	sql  *sql.DB
	g    *gorm.DB
	pool *recorder
	rows []ref.Env // row i has id i+1
	raw  []map[string]any
}

// recorder is a connection pool that counts what is sent.
type recorder struct {
	*sql.DB
	sent atomic.Int64
	last atomic.Value
}

func (r *recorder) note(q string) { r.sent.Add(1); r.last.Store(q) }
func (r *recorder) PrepareContext(c context.Context, q string) (*sql.Stmt, error) {
	r.note(q)
	return r.DB.PrepareContext(c, q)
}
func (r *recorder) ExecContext(c context.Context, q string, a ...any) (sql.Result, error) {
	r.note(q)
	return r.DB.ExecContext(c, q, a...)
}
func (r *recorder) QueryContext(c context.Context, q string, a ...any) (*sql.Rows, error) {
	r.note(q)
	return r.DB.QueryContext(c, q, a...)
}
func (r *recorder) QueryRowContext(c context.Context, q string, a ...any) *sql.Row {
	r.note(q)
	return r.DB.QueryRowContext(c, q, a...)
}

// BeginTx starts a transaction, which is also noted, as is all that is sent in it.
func (r *recorder) BeginTx(c context.Context, o *sql.TxOptions) (gorm.ConnPool, error) {
	r.note("BEGIN")
	tx, err := r.DB.BeginTx(c, o)
	return &recorderTx{tx, r}, err
}

type recorderTx struct {
	*sql.Tx
	r *recorder
}

func (t *recorderTx) PrepareContext(c context.Context, q string) (*sql.Stmt, error) {
	t.r.note(q)
	return t.Tx.PrepareContext(c, q)
}
func (t *recorderTx) ExecContext(c context.Context, q string, a ...any) (sql.Result, error) {
	t.r.note(q)
	return t.Tx.ExecContext(c, q, a...)
}
func (t *recorderTx) QueryContext(c context.Context, q string, a ...any) (*sql.Rows, error) {
	t.r.note(q)
	return t.Tx.QueryContext(c, q, a...)
}
func (t *recorderTx) QueryRowContext(c context.Context, q string, a ...any) *sql.Row {
	t.r.note(q)
	return t.Tx.QueryRowContext(c, q, a...)
}

func openMemory() (*sql.DB, error) {
	d, err := sql.Open(sqlite.DriverName, ":memory:")
	if err != nil {
		return nil, err
	}
	d.SetMaxOpenConns(1)
	d.SetMaxIdleConns(1)
	d.SetConnMaxLifetime(0)
	return d, nil
}

func openGorm(pool gorm.ConnPool) (*gorm.DB, error) {
	return gorm.Open(&sqlite.Dialector{Conn: pool}, &gorm.Config{Logger: logger.Discard, DisableForeignKeyConstraintWhenMigrating: true})
}

// vals are the values of each column; columns that are not listed are NULL.
type vals map[string][]any

var (
	ints3 = []any{nil, int64(0), int64(1)}
	ints5 = []any{nil, int64(0), int64(1), int64(2), int64(3)}
)

var fixtures = map[string]vals{
	"logic4": {"a": ints3, "b": ints3, "c": ints3, "d": ints3},
	"logic3": {"a": ints3, "b": ints3, "c": ints3},
	"mixed":  {"a": ints3, "b": {nil, int64(0), int64(1), int64(2)}, "s": {nil, "x", "Xy%"}, "f": {nil, false, true}},
	"wide":   {"a": ints5, "b": {nil, int64(1), int64(2), int64(10)}, "s": {nil, "", "x", "aXb_%", "1", "10"}, "f": {nil, false, true}},
	"text":   {"s": {nil, "", "x", "X", "xy", "%", "_", "a%b", "é", "'", `"`, `\`, "1", "2", "10", "null", "2020-01-02"}, "t": {nil, "", "x", "xy", "1", "%x%"}},
	"date":   {"w": {nil, "", "2020-01-02", "2020-01-02 03:04:05", "2021-12-31 23:59:59", "nodate"}, "a": {nil, int64(1)}, "s": {nil, "2020-01-02", "x"}},
	"int":    {"a": {nil, int64(-1), int64(0), int64(1), int64(2), int64(3), int64(1 << 40), int64(9223372036854775807)}, "b": ints5},
	"many":   {"a": manyInts(40)},
}

func init() {
	var all []any
	for _, c := range append([]string{"NULL", "null", "true", "TRUE", "false", "x"}, gen.Contents...) {
		if !slices.Contains(all, any(c)) {
			all = append(all, c)
		}
	}
	fixtures["contents"] = vals{"s": append(all, nil)}
}

func manyInts(n int) []any {
	out := []any{nil}
	for i := 0; i < n; i++ {
		out = append(out, int64(i))
	}
	return out
}

func toV(x any, aff byte) ref.V {
	switch v := x.(type) {
	case nil:
		return ref.V{K: 'n', Aff: aff}
	case int64:
		return ref.V{K: 'i', I: v, Aff: aff}
	case bool:
		if v {
			return ref.V{K: 'i', I: 1, Aff: aff}
		}
		return ref.V{K: 'i', I: 0, Aff: aff}
	case string:
		return ref.V{K: 's', S: v, Aff: aff}
	}
	panic(fmt.Sprintf("%T", x))
}

// product makes the table content.
func (v vals) product() []map[string]any {
	rows := []map[string]any{{}}
	for _, c := range thingCols {
		vs := v[c.name]
		if len(vs) == 0 {
			continue
		}
		var next []map[string]any
		for _, r := range rows {
			for _, x := range vs {
				m := map[string]any{c.name: x}
				for k, o := range r {
					m[k] = o
				}
				next = append(next, m)
			}
		}
		rows = next
	}
	return rows
}

func getFixture(w *run.W, name string) *fixture {
	if f, ok := w.Local["fixture "+name]; ok {
		return f.(*fixture)
	}
	f, err := newFixture(fixtures[name], "things")
	if err != nil {
		panic(fmt.Sprintf("fixture %s: %v", name, err))
	}
	w.Local["fixture "+name] = f
	return f
}

func newFixture(v vals, table string) (*fixture, error) {
	f := &fixture{}
	var err error
	if f.sql, err = openMemory(); err != nil {
		return nil, err
	}
	decl := []string{"id integer primary key"}
	for _, c := range thingCols {
		decl = append(decl, c.name+" "+c.decl)
	}
	if _, err = f.sql.Exec("create table " + table + " (" + strings.Join(decl, ", ") + ")"); err != nil {
		return nil, err
	}
	f.raw = v.product()
	for i, r := range f.raw {
		args := []any{int64(i + 1)}
		env := ref.MapEnv{"id": {K: 'i', I: int64(i + 1), Aff: 'i'}}
		for _, c := range thingCols {
			args = append(args, r[c.name])
			env[c.name] = toV(r[c.name], c.aff)
		}
		f.rows = append(f.rows, env)
		if _, err = f.sql.Exec("insert into "+table+" values (?,?,?,?,?,?,?,?,?)", args...); err != nil {
			return nil, err
		}
	}
	f.pool = &recorder{DB: f.sql}
	f.g, err = openGorm(f.pool)
	return f, err
}

// expect gives the ids of the rows for which the tree is true.
func (f *fixture) expect(n *ref.N, name func(*ref.N) string) ([]int64, error) {
	if t, ok := ref.Rows(n, f.rows); ok {
		var ids []int64
		for i, v := range t {
			if v == 1 {
				ids = append(ids, int64(i+1))
			}
		}
		return ids, nil
	}
	return f.refSQL(n, name)
}

// refSQL gives the ids selected by the reference translation to SQL.
func (f *fixture) refSQL(n *ref.N, name func(*ref.N) string) ([]int64, error) {
	if name == nil {
		name = func(m *ref.N) string { return `"` + m.S + `"` }
	}
	return ids(f.sql, "select id from things where "+n.SQL(name))
}

func ids(d *sql.DB, q string, args ...any) ([]int64, error) {
	rs, err := d.Query(q, args...)
	if err != nil {
		return nil, fmt.Errorf("%w in %s", err, q)
	}
	defer rs.Close()
	var out []int64
	for rs.Next() {
		var id int64
		if err := rs.Scan(&id); err != nil {
			return nil, err
		}
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out, rs.Err()
}

// gormIDs applies a scope to Thing.
func (f *fixture) gormIDs(scopes ...func(*gorm.DB) *gorm.DB) ([]int64, error) {
	var out []int64
	err := f.g.Model(&Thing{}).Scopes(scopes...).Pluck("things.id", &out).Error
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out, err
}

func sameIDs(got, want []int64) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

// diffIDs describes a difference with the row it shows on.
func (f *fixture) diffIDs(got, want []int64) string {
	in := func(s []int64, v int64) bool {
		for _, x := range s {
			if x == v {
				return true
			}
		}
		return false
	}
	for _, id := range got {
		if !in(want, id) && int(id) <= len(f.raw) {
			return fmt.Sprintf("selects row %v, which does not satisfy it (%d rows, should be %d)", f.raw[id-1], len(got), len(want))
		}
	}
	for _, id := range want {
		if !in(got, id) && int(id) <= len(f.raw) {
			return fmt.Sprintf("does not select row %v, which satisfies it (%d rows, should be %d)", f.raw[id-1], len(got), len(want))
		}
	}
	return fmt.Sprintf("rows %v, should be %v", got, want)
}

func apply(q string) func(*gorm.DB) *gorm.DB { return gormq.ApplyMiniQuery(q) }

func applyAll(q ...string) func(*gorm.DB) *gorm.DB { return gormq.MiniQuery{Query: q}.Scope }

// gormSQL gives the statement that a find with the scopes would run.
func (f *fixture) gormSQL(model any, scopes ...func(*gorm.DB) *gorm.DB) (string, []any, error) {
	var out []map[string]any
	tx := f.g.Session(&gorm.Session{DryRun: true}).Model(model).Scopes(scopes...).Find(&out)
	return tx.Statement.SQL.String(), tx.Statement.Vars, tx.Error
}
