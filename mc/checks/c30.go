package checks

import (
	"context"
	"database/sql"
	"fmt"
	"strings"
	"time"

	"github.com/glebarez/sqlite"
	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"

	"verif/mc/gen"
	"verif/mc/run"
)

// Job is a model that notes the calls of its hooks.
type Job struct {
	ID     int64 `gorm:"primaryKey"`
	A      int64
	Name   string
	BossID *int64
	Boss   *Job
	MateID *int64
	Mate   *Job
	Tags   []JobTag
}

type JobTag struct {
	ID    int64 `gorm:"primaryKey"`
	JobID int64
}

func hook(tx *gorm.DB, name string) error {
	if l, ok := tx.Logger.(traced); ok {
		_, in := tx.Statement.ConnPool.(gorm.TxCommitter)
		l.t.mark(fmt.Sprintf("%s, in a transaction: %v", name, in))
	}
	return nil
}

func (*Job) AfterFind(tx *gorm.DB) error    { return hook(tx, "AfterFind") }
func (*Job) BeforeUpdate(tx *gorm.DB) error { return hook(tx, "BeforeUpdate") }
func (*Job) AfterUpdate(tx *gorm.DB) error  { return hook(tx, "AfterUpdate") }
func (*Job) BeforeDelete(tx *gorm.DB) error { return hook(tx, "BeforeDelete") }
func (*Job) AfterDelete(tx *gorm.DB) error  { return hook(tx, "AfterDelete") }
func (*Job) BeforeCreate(tx *gorm.DB) error { return hook(tx, "BeforeCreate") }

// tap notes all that happens on a connection.
type tap struct {
	*sql.DB
	events []string
}

type tapKey struct{}

func (t *tap) mark(s string) { t.events = append(t.events, s) }
func (t *tap) note(c context.Context, kind, q string) {
	verb, _, _ := strings.Cut(strings.TrimSpace(q), " ")
	who := ""
	if v, ok := c.Value(tapKey{}).(string); ok {
		who = " " + v
	}
	if c.Err() != nil {
		who += " " + c.Err().Error()
	}
	t.mark(kind + " " + strings.ToUpper(verb) + who)
}

func (t *tap) GetDBConn() (*sql.DB, error) { return t.DB, nil }

func (t *tap) PrepareContext(c context.Context, q string) (*sql.Stmt, error) {
	t.note(c, "prepare", q)
	return t.DB.PrepareContext(c, q)
}

func (t *tap) ExecContext(c context.Context, q string, a ...any) (sql.Result, error) {
	t.note(c, "exec", q)
	return t.DB.ExecContext(c, q, a...)
}

func (t *tap) QueryContext(c context.Context, q string, a ...any) (*sql.Rows, error) {
	t.note(c, "query", q)
	return t.DB.QueryContext(c, q, a...)
}

func (t *tap) QueryRowContext(c context.Context, q string, a ...any) *sql.Row {
	t.note(c, "row", q)
	return t.DB.QueryRowContext(c, q, a...)
}

func (t *tap) BeginTx(c context.Context, o *sql.TxOptions) (gorm.ConnPool, error) {
	t.note(c, "begin", "")
	tx, err := t.DB.BeginTx(c, o)
	if err != nil {
		return nil, err
	}
	return &tapTx{tx, t}, nil
}

type tapTx struct {
	*sql.Tx
	t *tap
}

func (x *tapTx) Commit() error   { x.t.mark("commit"); return x.Tx.Commit() }
func (x *tapTx) Rollback() error { x.t.mark("rollback"); return x.Tx.Rollback() }

func (x *tapTx) PrepareContext(c context.Context, q string) (*sql.Stmt, error) {
	x.t.note(c, "tx prepare", q)
	return x.Tx.PrepareContext(c, q)
}

func (x *tapTx) ExecContext(c context.Context, q string, a ...any) (sql.Result, error) {
	x.t.note(c, "tx exec", q)
	return x.Tx.ExecContext(c, q, a...)
}

func (x *tapTx) QueryContext(c context.Context, q string, a ...any) (*sql.Rows, error) {
	x.t.note(c, "tx query", q)
	return x.Tx.QueryContext(c, q, a...)
}

func (x *tapTx) QueryRowContext(c context.Context, q string, a ...any) *sql.Row {
	x.t.note(c, "tx row", q)
	return x.Tx.QueryRowContext(c, q, a...)
}

// traced counts what gorm logs.
type traced struct {
	t *tap
}

func (l traced) LogMode(logger.LogLevel) logger.Interface      { return l }
func (l traced) Info(context.Context, string, ...interface{})  { l.t.mark("info") }
func (l traced) Warn(context.Context, string, ...interface{})  { l.t.mark("warn") }
func (l traced) Error(context.Context, string, ...interface{}) { l.t.mark("error") }
func (l traced) Trace(_ context.Context, _ time.Time, f func() (string, int64), err error) {
	_, n := f()
	l.t.mark(fmt.Sprintf("trace %d failed=%v", n, err != nil))
}

// All rows satisfy these.
var (
	tapQueries = []string{"id > 0", "a=1 or not a=1", "id > 0 and (name is null or name is not null)", "id in (1,2,3,4,5,6)", "Boss.id > 0 or Boss.id is null", "id > 0 and (Boss.a = 1 or not Boss.a = 1 or Boss.a is null)", "id between 1 and 6", "Boss.id > 0 or Mate.id > 0 or Boss.id is null", "Mate.name != 'no' and Boss.id = 1 or id > 0 and Mate.id is null or id > 0", "date('2020-01-01') = '2020-01-01'", "ID != 0", "name like '%'"}
	tapOps     = []string{"none", "find", "first", "take", "last", "count", "pluck", "row", "rows", "scan", "maps", "preload", "batches", "group", "sub", "init", "create", "update", "updates", "columns", "delete", "transaction", "tosql", "dry", "twice", "session", "begin"}
	tapConfigs = []string{"", "skip", "prepare", "dry", "fields", "nonested", "global", "translate"}
	tapWays    = []string{"scope", "direct", "list", "scopes", "called", "session"}
)

func init() {
	register(&run.Check{ID: "C30", Case: c30Case, Explore: func(x *run.X) {
		x.Each("long queries", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(20, 60), x.Bound(520, 4100)) {
				rep := func(s string) string { return strings.Repeat(s, n) }
				for _, q := range []string{"id > 0 or name = '" + rep("x") + "'", "id in (1,2,3,4,5,6" + rep(",7") + ")", "id > 0 or name in ('x'" + rep(",'x'") + ")", "id > 0 -- " + rep("x") + "\n", rep(" ") + "id > 0"} {
					for _, op := range []string{"none", "find", "count", "update", "delete", "preload"} {
						for _, way := range tapWays {
							if !y(strings.Join([]string{"", "", op, way, q}, "\x1e")) || way == "list" && !y(strings.Join([]string{"", "", op, way, "id > 0\x1f" + q}, "\x1e")) {
								return
							}
						}
					}
				}
				if n > 480 {
					continue // SQLite's expressions are no higher than 1000
				}
				for _, q := range []string{"id > 0" + rep(" and id > 0"), "id > 0" + rep(" or a=1"), "id > 0" + rep(" or Boss.a=1")} {
					for _, op := range []string{"find", "count"} {
						for _, way := range tapWays {
							if !y(strings.Join([]string{"", "", op, way, q}, "\x1e")) {
								return
							}
						}
					}
				}
			}
		})
		for _, ctx := range []string{"", "ctx", "cancelled"} {
			x.Each("operations, context "+ctx, func(y func(string) bool) {
				for _, cfg := range tapConfigs {
					for _, op := range tapOps {
						for _, way := range tapWays {
							for _, q := range tapQueries {
								if tapSkips(op, q) {
									continue
								}
								if !y(strings.Join([]string{cfg, ctx, op, way, q}, "\x1e")) {
									return
								}
								for _, r := range tapQueries[:x.Bound(3, len(tapQueries))] {
									if tapSkips(op, r) {
										continue
									}
									if !y(strings.Join([]string{cfg, ctx, op, way, q + "\x1f" + r}, "\x1e")) {
										return
									}
								}
							}
							if !y(strings.Join([]string{cfg, ctx, op, way, ""}, "\x1e")) {
								return
							}
						}
					}
				}
			})
		}
	}, Assumptions: []string{"the queries are true for all rows, so that what the operation does with the rows is the same", "update, delete and sub-queries with a query over a relation are left out: gorm does not join in the former, and reads the related columns too in the latter"}})
}

// tapSkips tells whether gorm itself does not allow the query there.
func tapSkips(op, q string) bool {
	switch op {
	case "update", "updates", "columns", "delete", "transaction", "begin", "sub":
		return strings.Contains(q, "Boss.") || strings.Contains(q, "Mate.")
	}
	return false
}

type tapDB struct {
	sql  *sql.DB
	base map[string][]string
}

func c30Case(w *run.W, c string) error {
	f, ok := w.Local["tap"].(*tapDB)
	if !ok {
		d, err := openMemory()
		if err != nil {
			return err
		}
		f = &tapDB{sql: d, base: map[string][]string{}}
		for _, q := range []string{"create table jobs (id integer primary key, a integer, name text, boss_id integer, mate_id integer)", "create table job_tags (id integer primary key, job_id integer)", "insert into job_tags values (1,1),(2,1),(3,5)"} {
			if _, err := d.Exec(q); err != nil {
				return err
			}
		}
		w.Local["tap"] = f
	}
	p := strings.Split(c, "\x1e")
	cfg, ctx, op, way := p[0], p[1], p[2], p[3]
	var queries []string
	if p[4] != "" || way == "scope" {
		queries = strings.Split(p[4], "\x1f")
	}
	key := cfg + "\x1e" + ctx + "\x1e" + op
	want, ok := f.base[key]
	if !ok {
		var err error
		if want, err = f.run(cfg, ctx, op, "", nil); err != nil {
			return err
		}
		f.base[key] = want
	}
	got, err := f.run(cfg, ctx, op, way, queries)
	if err != nil {
		return err
	}
	w.Trans(len(got))
	w.Distinct(key + strings.Join(got, "\n"))
	if d := differs(got, want); d != "" {
		return fmt.Errorf("%s\nwith the query: %s\nwithout: %s", d, strings.Join(got, ", "), strings.Join(want, ", "))
	}
	return nil
}

// run performs the operation and gives all that happened.
func (f *tapDB) run(cfg, ctx, op, way string, queries []string) ([]string, error) {
	if _, err := f.sql.Exec("delete from jobs"); err != nil {
		return nil, err
	}
	if _, err := f.sql.Exec("insert into jobs values (1,1,'x',null,2),(2,0,'y',1,null),(3,1,'',2,3),(4,2,'x',4,4),(5,0,'z',1,2),(6,1,'x',null,null)"); err != nil {
		return nil, err
	}
	t := &tap{DB: f.sql}
	conf := &gorm.Config{Logger: traced{t}}
	switch cfg {
	case "skip":
		conf.SkipDefaultTransaction = true
	case "prepare":
		conf.PrepareStmt = true
	case "dry":
		conf.DryRun = true
	case "fields":
		conf.QueryFields = true
	case "nonested":
		conf.DisableNestedTransaction = true
	case "global":
		conf.AllowGlobalUpdate = true
	case "translate":
		conf.TranslateError = true
	}
	db, err := gorm.Open(sqlite.Dialector{Conn: t}, conf)
	if err != nil {
		return nil, err
	}
	t.events = nil
	switch ctx {
	case "ctx":
		db = db.WithContext(context.WithValue(context.Background(), tapKey{}, "user"))
	case "cancelled":
		c, cancel := context.WithCancel(context.Background())
		cancel()
		db = db.WithContext(c)
	}
	with := func(tx *gorm.DB) *gorm.DB {
		tx = tx.Model(&Job{}).Where("1 = 1")
		if len(queries) == 0 {
			return tx
		}
		switch way {
		case "direct":
			for _, q := range queries {
				tx = gormq.WireMiniQuery(tx, q)
			}
		case "list":
			tx = tx.Scopes(applyAll(append([]string{}, queries...)...))
		case "scopes":
			var all []func(*gorm.DB) *gorm.DB
			for _, q := range queries {
				all = append(all, apply(q))
			}
			tx = tx.Scopes(all...)
		case "called":
			for _, q := range queries {
				tx = apply(q)(tx)
			}
		case "session":
			for _, q := range queries {
				tx = tx.Scopes(apply(q)).Session(&gorm.Session{})
			}
		default:
			for _, q := range queries {
				tx = tx.Scopes(apply(q))
			}
		}
		return tx
	}
	tx := with(db)
	if len(t.events) > 0 {
		return nil, fmt.Errorf("before the operation: %s", strings.Join(t.events, ", "))
	}
	var items []Job
	var item Job
	var n int64
	var res *gorm.DB
	switch op {
	case "none":
	case "find":
		res = tx.Find(&items)
	case "first":
		res = tx.First(&item)
	case "take":
		res = tx.Take(&item)
	case "last":
		res = tx.Last(&item)
	case "count":
		res = tx.Count(&n)
	case "pluck":
		var all []int64
		res = tx.Pluck("jobs.id", &all)
	case "row":
		if r := tx.Row(); r != nil && ctx != "cancelled" {
			var v any
			r.Scan(&v) // gives the connection back
		}
	case "rows":
		r, err := tx.Rows()
		if err == nil && r != nil {
			for r.Next() {
				n++
			}
			r.Close()
		}
		t.mark(fmt.Sprint("rows ", n))
	case "scan":
		res = tx.Scan(&items)
	case "maps":
		var all []map[string]any
		res = tx.Find(&all)
	case "preload":
		res = tx.Preload("Tags").Find(&items)
	case "batches":
		res = tx.FindInBatches(&items, 2, func(tx *gorm.DB, batch int) error {
			t.mark(fmt.Sprint("batch ", batch))
			return nil
		})
	case "group":
		var all []map[string]any
		res = tx.Select("jobs.a, count(*) as n").Group("jobs.a").Find(&all)
	case "sub":
		res = db.Model(&Job{}).Where("id in (?)", tx.Select("jobs.id")).Find(&items)
	case "init":
		res = tx.FirstOrInit(&item)
	case "create":
		res = tx.FirstOrCreate(&item)
	case "update":
		res = tx.Update("a", 7)
	case "updates":
		res = tx.Updates(&Job{A: 8, Name: "q"})
	case "columns":
		res = tx.UpdateColumns(map[string]any{"a": 9})
	case "delete":
		res = tx.Delete(&Job{})
	case "transaction":
		err := db.Transaction(func(in *gorm.DB) error {
			if err := with(in).Find(&items).Error; err != nil {
				return err
			}
			return with(in).Update("a", 3).Error
		})
		t.mark(fmt.Sprint("failed ", err != nil))
	case "begin":
		in := db.Begin()
		if in.Error != nil {
			break
		}
		with(in).Find(&items)
		in.SavePoint("p")
		with(in).Delete(&Job{})
		in.RollbackTo("p")
		in.Commit()
	case "tosql":
		db.ToSQL(func(in *gorm.DB) *gorm.DB { return with(in).Find(&items) })
	case "dry":
		res = tx.Session(&gorm.Session{DryRun: true}).Find(&items)
	case "twice":
		s := tx.Session(&gorm.Session{})
		s.Count(&n)
		res = s.Limit(2).Find(&items)
	case "session":
		res = tx.Session(&gorm.Session{SkipHooks: true, SkipDefaultTransaction: true, QueryFields: true}).Find(&items)
	}
	if res != nil {
		t.mark(fmt.Sprintf("affected %d failed=%v items=%d", res.RowsAffected, res.Error != nil, len(items)))
	}
	return t.events, nil
}
