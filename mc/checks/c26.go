package checks

import (
	"database/sql"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"

	"verif/mc/ref"
	"verif/mc/run"
)

// Memo is a model whose rows are deleted by marking them; so is Dept.
type Memo struct {
	ID        int64 `gorm:"primaryKey"`
	A         *int64
	Name      *string
	DeptID    *int64
	Dept      *Dept
	ChiefID   int64
	Chief     *Dept
	Notes     []Note
	DeletedAt gorm.DeletedAt
}

// Dept shares all its column names with Memo.
type Dept struct {
	ID        int64 `gorm:"primaryKey"`
	A         *int64
	Name      *string
	DeletedAt gorm.DeletedAt
}

// Note belongs to a memo.
type Note struct {
	ID     int64 `gorm:"primaryKey"`
	A      *int64
	MemoID int64
}

type memoRow struct {
	id      int64
	a       *int64
	name    *string
	dept    int64 // 0: none
	deleted bool
}

type memoDB struct {
	sql   *sql.DB
	g     *gorm.DB
	rows  []memoRow
	fails map[string]bool // statements that fail even without a query
}

func i64(i int64) *int64 { return &i }

var memoDepts = []struct {
	a       *int64
	name    *string
	deleted bool
}{{i64(0), strp("x"), false}, {i64(1), nil, false}, {i64(1), strp("x"), true}, {nil, strp("y"), false}}

// chiefOf is the department of the second relation; there is no department 0.
func chiefOf(id int64) int64 { return id * 3 % int64(len(memoDepts)+1) }

func strp(s string) *string { return &s }

func getMemos(w *run.W) *memoDB {
	if f, ok := w.Local["memos"]; ok {
		return f.(*memoDB)
	}
	f := &memoDB{fails: map[string]bool{}}
	must := func(err error) {
		if err != nil {
			panic(fmt.Sprintf("fixture memos: %v", err))
		}
	}
	var err error
	f.sql, err = openMemory()
	must(err)
	for _, q := range []string{
		"create table depts (id integer primary key, a integer, name text, deleted_at datetime)",
		"create table memos (id integer primary key, a integer, name text, dept_id integer, deleted_at datetime, chief_id integer)",
		"create table notes (id integer primary key, a integer, memo_id integer)",
	} {
		_, err = f.sql.Exec(q)
		must(err)
	}
	when := func(b bool) any {
		if b {
			return time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
		}
		return nil
	}
	for i, d := range memoDepts {
		_, err = f.sql.Exec("insert into depts values (?,?,?,?)", i+1, d.a, d.name, when(d.deleted))
		must(err)
	}
	for _, a := range []*int64{nil, i64(0), i64(1)} {
		for _, n := range []*string{nil, strp("x")} {
			for dept := int64(0); dept <= int64(len(memoDepts)); dept++ {
				for _, del := range []bool{false, true} {
					r := memoRow{int64(len(f.rows) + 1), a, n, dept, del}
					f.rows = append(f.rows, r)
					var d any
					if dept != 0 {
						d = dept
					}
					_, err = f.sql.Exec("insert into memos values (?,?,?,?,?,?)", r.id, a, n, d, when(del), chiefOf(r.id))
					must(err)
					if r.id%3 == 0 {
						_, err = f.sql.Exec("insert into notes values (?,?,?),(?,?,?)", r.id*2, 1, r.id, r.id*2+1, 0, r.id)
						must(err)
					}
				}
			}
		}
	}
	f.g, err = openGorm(f.sql)
	must(err)
	w.Local["memos"] = f
	return f
}

func ptrV[T any](p *T, aff byte) ref.V {
	if p == nil {
		return ref.V{K: 'n', Aff: aff}
	}
	return toV(*p, aff)
}

// memoCfg is a statement: what is around the query.
type memoCfg struct {
	query, join, alias, where, order, page, op, unscoped, way string
}

func (c memoCfg) String() string {
	return strings.Join([]string{c.query, c.join, c.alias, c.where, c.order, c.page, c.op, c.unscoped, c.way}, "\x1e")
}

var (
	memoQueries  = []string{"a=1", "a=1 or name='x'", "not (a=1 or name='x') or id<9", "Dept.a=1", "Dept.a=1 or a=0", "not (Dept.name='x' and a=1) or Dept.id is null", "id=4 or Dept.id=2", "a=Dept.a or name=Dept.name", "Dept.deleted_at is null and name is not null", "deleted_at is null or a=0", "id in (2,3,5,8,13,21,34,55) or dept_id between 2 and 3", "Dept.a=1 or Chief.a=1", "Chief.name='x' and not (Dept.id=Chief.id) or Chief.id is null and Dept.a is null"}
	memoJoins    = []string{"", "before", "after", "inner", "inner after", "raw", "raw after", "cond", "two"}
	memoWheres   = []string{"", "plain", "or", "or after", "not", "map"}
	memoModels   = []string{"model value", "model slice", "model pointers", "model nil", "model array"}
	memoKeys     = []string{"model key", "model keys", "model key pointers"}
	memoOrders   = []string{"", "a desc", "column", "scope"}
	memoPages    = []string{"", "limit", "window"}
	memoReads    = []string{"find", "maps", "small", "pluck", "count", "first", "last", "take", "rows", "batches", "distinct", "group", "sub", "preload", "init", "exists", "select", "omit", "scan", "union", "values", "plucka", "inline", "inline keys", "inline struct", "keyed", "one"}
	memoWrites   = []string{"update", "updates", "delete", "updateexpr", "returning"}
	memoAlias    = []string{"", "m"}
	memoUnscoped = []string{"", "unscoped"}
)

func init() {
	register(&run.Check{ID: "C26", Case: c26Case, Assumptions: []string{
		"a statement that gorm cannot run even without the query (its own ambiguity or syntax error) is not judged",
		"update and delete do not join: with a query over a relation an error that leaves the table unchanged is accepted",
		"of two joins of the same relation gorm takes the first: an inner join added after a query that joins is not judged",
		"without an order the rows are compared as a set",
	}, Explore: func(x *run.X) {
		x.Each("reads", func(y func(string) bool) {
			for _, op := range memoReads {
				for _, q := range memoQueries {
					for _, j := range memoJoins {
						for _, wh := range memoWheres {
							for _, o := range memoOrders {
								for _, p := range memoPages {
									for _, u := range memoUnscoped {
										for _, al := range memoAlias {
											c := memoCfg{q, j, al, wh, o, p, op, u, ""}
											if !c.makesSense() {
												continue
											}
											// One dimension beyond the first four at a time in the quick tier.
											n := 0
											for _, s := range []string{wh, o, p, u, al} {
												if s != "" {
													n++
												}
											}
											if !x.Thorough && n > 2 {
												continue
											}
											if !y(c.String()) {
												return
											}
											// Of two joins of a relation gorm takes the first.
											if (n < 2 || x.Thorough) && j != "inner after" {
												c.way = "direct"
												if !y(c.String()) {
													return
												}
											}
										}
									}
								}
							}
						}
					}
				}
			}
		})
		x.Each("writes", func(y func(string) bool) {
			for _, op := range memoWrites {
				for _, q := range memoQueries {
					for _, wh := range memoWheres {
						for _, u := range memoUnscoped {
							if !y(memoCfg{q, "", "", wh, "", "", op, u, ""}.String()) || !y(memoCfg{q, "", "", wh, "", "", op, u, "direct"}.String()) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("models", func(y func(string) bool) {
			for _, q := range memoQueries {
				for _, m := range memoModels {
					for _, op := range memoReads {
						if m == "model nil" && op == "sub" {
							continue // gorm itself selects nothing
						}
						c := memoCfg{q, "", "", m, "", "", op, "", ""}
						if !c.makesSense() {
							c.order = "a desc"
						}
						for _, way := range []string{"", "direct"} {
							c.way = way
							if !y(c.String()) {
								return
							}
						}
					}
				}
				for _, m := range memoKeys {
					for _, op := range memoWrites {
						for _, u := range memoUnscoped {
							if !y(memoCfg{q, "", "", m, "", "", op, u, ""}.String()) || !y(memoCfg{q, "", "", m, "", "", op, u, "direct"}.String()) {
								return
							}
						}
					}
				}
			}
		})
		// Two and three queries at once, in one list and as scopes.
		x.Each("several queries", func(y func(string) bool) {
			for _, op := range []string{"find", "count", "pluck", "sub", "delete", "update"} {
				for _, q := range memoQueries {
					for _, r := range memoQueries {
						for _, u := range memoUnscoped {
							for _, j := range []string{"", "before", "raw after"} {
								c := memoCfg{q + "\x1f" + r, j, "", "", "", "", op, u, ""}
								if (op == "delete" || op == "update") && j != "" {
									continue
								}
								if !y(c.String()) || !y(memoCfg{q + "\x1d" + r, j, "", "or", "", "", op, u, ""}.String()) {
									return
								}
							}
						}
					}
				}
			}
		})
	}})
}

// makesSense tells whether the statement has a meaning that does not depend on the database.
func (c memoCfg) makesSense() bool {
	switch c.op {
	case "count", "distinct", "group", "exists", "sub", "union":
		return c.order == "" && c.page == ""
	case "batches":
		return c.order == "" && c.page == "" && c.alias == ""
	case "first", "last", "init", "keyed", "one":
		// gorm names the primary key by the table, and adds its own order.
		return c.order == "" && c.page == ""
	case "take":
		return c.order != "" && c.page == ""
	}
	return c.page == "" || c.order != ""
}

func (c memoCfg) table() string {
	if c.alias != "" {
		return c.alias
	}
	return "memos"
}

// model is one of the ways to tell gorm the model; keys in it restrict what is written.
func (c memoCfg) model() any {
	switch c.where {
	case "model value":
		return Memo{}
	case "model slice":
		return &[]Memo{}
	case "model pointers":
		return &[]*Memo{}
	case "model nil":
		return (*Memo)(nil)
	case "model array":
		return []Memo{}
	case "model key":
		return &Memo{ID: memoKeyed[0]}
	case "model keys":
		return &[]Memo{{ID: memoKeyed[0]}, {ID: memoKeyed[1]}, {ID: memoKeyed[2]}, {ID: memoKeyed[3]}}
	case "model key pointers":
		return []*Memo{{ID: memoKeyed[0]}, {ID: memoKeyed[1]}, {ID: memoKeyed[2]}, {ID: memoKeyed[3]}}
	}
	return &Memo{}
}

var memoKeyed = []int64{55, 13, 41, 3}

// build makes the statement up to the operation.
func (c memoCfg) build(db *gorm.DB) *gorm.DB {
	t := c.table()
	tx := db.Model(c.model())
	if c.alias != "" {
		tx = tx.Table("memos AS " + c.alias)
	}
	if c.unscoped != "" {
		tx = tx.Unscoped()
	}
	switch c.where {
	case "plain":
		tx = tx.Where(t+".id > ?", 6)
	case "or":
		tx = tx.Where(t+".a = ? or "+t+".name is null", 0)
	case "not":
		tx = tx.Not(t+".a = ?", 0)
	case "map":
		tx = tx.Where(map[string]any{t + ".a": []int64{0, 1}})
	}
	raw := "left join depts z on z.id = " + t + ".dept_id"
	switch c.join {
	case "before":
		tx = tx.Joins("Dept")
	case "inner":
		tx = tx.InnerJoins("Dept")
	case "raw":
		tx = tx.Joins(raw)
	case "cond":
		tx = tx.Joins("Dept", db.Where(&Dept{Name: strp("x")}))
	case "two":
		tx = tx.Joins("Dept").Joins(raw)
	}
	if c.query != "" {
		for _, q := range strings.Split(c.query, "\x1f") {
			if c.way == "direct" {
				tx = gormq.WireMiniQuery(tx, q)
			} else if strings.Contains(q, "\x1d") {
				tx = tx.Scopes(applyAll(strings.Split(q, "\x1d")...))
			} else {
				tx = tx.Scopes(apply(q))
			}
		}
	}
	switch c.join {
	case "after":
		tx = tx.Joins("Dept")
	case "inner after":
		tx = tx.InnerJoins("Dept")
	case "raw after":
		tx = tx.Joins(raw)
	}
	if c.where == "or after" {
		tx = tx.Where(t+".a = ? or "+t+".name is null", 0)
	}
	switch c.order {
	case "a desc":
		tx = tx.Order(t + ".a desc, " + t + ".id")
	case "column":
		tx = tx.Order(clause.OrderByColumn{Column: clause.Column{Table: clause.CurrentTable, Name: "id"}, Desc: true})
	case "scope":
		tx = tx.Scopes(func(d *gorm.DB) *gorm.DB { return d.Order(t + ".id desc") })
	}
	switch c.page {
	case "limit":
		tx = tx.Limit(3)
	case "window":
		tx = tx.Limit(4).Offset(2)
	}
	return tx
}

// expect gives the rows of the statement in order.
func (f *memoDB) expect(c memoCfg) ([]memoRow, error) {
	var trees []*ref.N
	for _, q := range strings.FieldsFunc(c.query, func(r rune) bool { return r == '\x1f' || r == '\x1d' }) {
		p := ref.Parse(q)
		if p.Tree == nil {
			return nil, fmt.Errorf("reference rejects %q", q)
		}
		trees = append(trees, p.Tree)
	}
	one := func(i int64) ref.V { return ref.V{K: 'i', I: i, Aff: 'i'} }
	var out []memoRow
	for _, r := range f.rows {
		if r.deleted && c.unscoped == "" {
			continue
		}
		switch c.where {
		case "plain":
			if r.id <= 6 {
				continue
			}
		case "or", "or after":
			if !(r.a != nil && *r.a == 0) && r.name != nil {
				continue
			}
		case "not":
			if r.a == nil || *r.a == 0 {
				continue
			}
		case "map":
			if r.a == nil {
				continue
			}
		case "model key":
			if r.id != memoKeyed[0] {
				continue
			}
		case "model keys", "model key pointers":
			if !slices.Contains(memoKeyed, r.id) {
				continue
			}
		}
		switch c.op {
		case "inline":
			if !(r.a != nil && *r.a == 0) && r.id <= 20 {
				continue
			}
		case "inline keys":
			if !slices.Contains(memoKeyed, r.id) {
				continue
			}
		case "keyed":
			if r.id != memoKeyed[1] {
				continue
			}
		case "inline struct":
			if r.a == nil || *r.a != 1 {
				continue
			}
		}
		stamp := func(deleted bool) ref.V {
			if deleted {
				return ref.V{K: 's', S: "2020"}
			}
			return ref.NullV()
		}
		env := ref.MapEnv{"id": one(r.id), "a": ptrV(r.a, 'i'), "name": ptrV(r.name, 's'), "dept_id": {K: 'n', Aff: 'i'}, "deleted_at": stamp(r.deleted),
			"Dept.id": {K: 'n', Aff: 'i'}, "Dept.a": {K: 'n', Aff: 'i'}, "Dept.name": {K: 'n', Aff: 's'}, "Dept.deleted_at": ref.NullV()}
		if r.dept != 0 {
			env["dept_id"] = one(r.dept)
		}
		joined := f.deptOf(c, r)
		if joined != 0 {
			d := memoDepts[joined-1]
			env["Dept.id"], env["Dept.a"], env["Dept.name"], env["Dept.deleted_at"] = one(joined), ptrV(d.a, 'i'), ptrV(d.name, 's'), stamp(d.deleted)
		}
		env["Chief.id"], env["Chief.a"], env["Chief.name"], env["chief_id"] = ref.V{K: 'n', Aff: 'i'}, ref.V{K: 'n', Aff: 'i'}, ref.V{K: 'n', Aff: 's'}, one(chiefOf(r.id))
		if n := chiefOf(r.id); n != 0 && (c.unscoped != "" || !memoDepts[n-1].deleted) {
			d := memoDepts[n-1]
			env["Chief.id"], env["Chief.a"], env["Chief.name"] = one(n), ptrV(d.a, 'i'), ptrV(d.name, 's')
		}
		if strings.HasPrefix(c.join, "inner") && joined == 0 {
			continue
		}
		all := true
		for _, n := range trees {
			t, ok := ref.Rows(n, []ref.Env{env})
			if !ok {
				return nil, errors.New("reference cannot evaluate")
			}
			all = all && t[0] == 1
		}
		if all {
			out = append(out, r)
		}
	}
	rank := func(p *int64) int64 {
		if p == nil {
			return -1
		}
		return *p
	}
	sort.SliceStable(out, func(i, j int) bool {
		switch c.order {
		case "a desc":
			if x, y := rank(out[i].a), rank(out[j].a); x != y {
				return x > y
			}
		case "column", "scope":
			return out[i].id > out[j].id
		}
		return out[i].id < out[j].id
	})
	switch c.page {
	case "limit":
		out = out[:min(3, len(out))]
	case "window":
		out = out[min(2, len(out)):min(6, len(out))]
	}
	return out, nil
}

// deptOf is the department a join of the statement gives the row: not one that is deleted, nor one the
// user's condition leaves out.
func (f *memoDB) deptOf(c memoCfg, r memoRow) int64 {
	if r.dept == 0 {
		return 0
	}
	d := memoDepts[r.dept-1]
	if d.deleted && c.unscoped == "" {
		return 0
	}
	if c.join == "cond" && (d.name == nil || *d.name != "x") {
		return 0
	}
	return r.dept
}

func show[T any](p *T) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

// full describes all that a row is read with.
func (f *memoDB) full(c memoCfg, r memoRow) string {
	s := fmt.Sprintf("id=%d a=%s name=%s dept=%d deleted=%v", r.id, show(r.a), show(r.name), r.dept, r.deleted)
	switch c.join {
	case "before", "after", "inner", "inner after", "cond", "two":
		if j := f.deptOf(c, r); j != 0 {
			d := memoDepts[j-1]
			s += fmt.Sprintf(" Dept(%d %s %s)", j, show(d.a), show(d.name))
		} else {
			s += " no Dept"
		}
	}
	return s
}

func gotFull(c memoCfg, m *Memo) string {
	dept := int64(0)
	if m.DeptID != nil {
		dept = *m.DeptID
	}
	s := fmt.Sprintf("id=%d a=%s name=%s dept=%d deleted=%v", m.ID, show(m.A), show(m.Name), dept, m.DeletedAt.Valid)
	switch c.join {
	case "before", "after", "inner", "inner after", "cond", "two":
		if m.Dept != nil && m.Dept.ID != 0 {
			s += fmt.Sprintf(" Dept(%d %s %s)", m.Dept.ID, show(m.Dept.A), show(m.Dept.Name))
		} else {
			s += " no Dept"
		}
	}
	return s
}

func c26Case(w *run.W, s string) error {
	p := strings.Split(s, "\x1e")
	c := memoCfg{p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]}
	f := getMemos(w)
	// The same statement with the relation joined by the user, if the query joins it.
	bare := c
	bare.query, bare.way = "", ""
	if strings.Contains(c.query, "Dept.") {
		switch c.join {
		case "":
			bare.join = "before"
		case "raw", "raw after":
			bare.join = "two"
		}
	}
	if isWrite(c.op) && c.where == "" {
		bare.where = "plain" // gorm refuses to change all rows
	}
	fails, ok := f.fails[bare.String()]
	if !ok {
		got, err := f.try(bare)
		w.Trans(1)
		fails = err != nil
		if !fails {
			rows, err := f.expect(bare)
			if err != nil {
				return err
			}
			if d := differs(got, f.results(bare, rows)); d != "" {
				// Not what the reference takes the statement for, even without a query.
				panic(fmt.Sprintf("reference of the statement %q: %s", bare.String(), d))
			}
		}
		f.fails[bare.String()] = fails
	}
	if fails {
		return nil
	}
	rows, err := f.expect(c)
	if err != nil {
		return err
	}
	got, err := f.run(c)
	w.Trans(1)
	w.Distinct(c.op + strings.Join(got, "\n"))
	if err != nil {
		if strings.Contains(c.query, "Dept.") && isWrite(c.op) {
			if got == nil {
				return nil
			}
			return fmt.Errorf("the statement fails (%v) and yet changes the table: %v", err, got)
		}
		return fmt.Errorf("error %v, though the same statement works without the query", err)
	}
	if d := differs(got, f.results(c, rows)); d != "" {
		return errors.New(d)
	}
	return nil
}

func isWrite(op string) bool {
	for _, o := range memoWrites {
		if o == op {
			return true
		}
	}
	return false
}

func differs(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, x := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			x = want[i]
		}
		if g != x {
			return fmt.Sprintf("entry %d of the result is %s, should be %s (%d entries, should be %d)", i, g, x, len(got), len(want))
		}
	}
	return ""
}

// results is what the operation should show for the rows.
func (f *memoDB) results(c memoCfg, rows []memoRow) []string {
	var out []string
	add := func(format string, a ...any) { out = append(out, fmt.Sprintf(format, a...)) }
	switch c.op {
	case "find", "batches", "inline", "inline keys", "inline struct":
		for _, r := range rows {
			out = append(out, f.full(c, r))
		}
	case "omit":
		for _, r := range rows {
			r.name = nil
			add("id=%d a=%s name=- dept=%d", r.id, show(r.a), r.dept)
		}
	case "maps", "rows", "select", "scan", "small":
		for _, r := range rows {
			add("id=%d a=%s", r.id, show(r.a))
		}
	case "pluck", "sub", "union":
		for _, r := range rows {
			add("%d", r.id)
		}
	case "values", "plucka":
		for _, r := range rows {
			out = append(out, show(r.a))
		}
		if c.order == "" {
			sort.Strings(out)
		}
	case "count":
		add("%d", len(rows))
	case "exists":
		add("%v", len(rows) > 0)
	case "first", "take", "keyed", "one":
		if len(rows) == 0 {
			add("not found")
		} else {
			out = append(out, f.full(c, rows[0]))
		}
	case "last":
		if len(rows) == 0 {
			add("not found")
		} else {
			out = append(out, f.full(c, rows[len(rows)-1]))
		}
	case "init":
		if len(rows) == 0 {
			add("new")
		} else {
			out = append(out, f.full(c, rows[0]))
		}
	case "distinct", "group":
		n := map[string]int{}
		for _, r := range rows {
			n[show(r.a)]++
		}
		for k, v := range n {
			if c.op == "distinct" {
				out = append(out, k)
			} else if v > 1 {
				add("%s:%d", k, v)
			}
		}
		sort.Strings(out)
	case "preload":
		for _, r := range rows {
			s := fmt.Sprintf("id=%d dept=%d", r.id, r.dept)
			if r.id%3 == 0 {
				s += fmt.Sprintf(" notes %d", r.id*2)
				if r.id == 9 {
					s += " 19"
				}
			}
			out = append(out, s)
		}
	default: // writes: the whole table
		hit := map[int64]bool{}
		for _, r := range rows {
			hit[r.id] = true
		}
		for _, r := range f.rows {
			a, n, del, gone := show(r.a), show(r.name), r.deleted, false
			if hit[r.id] {
				switch c.op {
				case "update", "returning":
					a = "7"
				case "updates":
					a, n = "7", "q"
				case "updateexpr":
					if r.a != nil {
						a = fmt.Sprint(*r.a + 10)
					}
				case "delete":
					del, gone = true, c.unscoped != ""
				}
			}
			if !gone {
				add("%d %s %s %v", r.id, a, n, del)
			}
		}
		add("affected %d", len(rows))
	}
	return out
}

// try is run for a statement without a query: gorm itself may panic.
func (f *memoDB) try(c memoCfg) (out []string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f.run(c)
}

var errUndo = errors.New("undo")

// run runs the statement and describes what it gives. If a writing statement fails the result is nil unless the
// table changed.
func (f *memoDB) run(c memoCfg) ([]string, error) {
	var out []string
	add := func(format string, a ...any) { out = append(out, fmt.Sprintf(format, a...)) }
	t := c.table()
	if isWrite(c.op) {
		var failed error
		err := f.g.Transaction(func(db *gorm.DB) error {
			tx := c.build(db)
			switch c.op {
			case "update":
				tx = tx.Update("a", 7)
			case "updates":
				tx = tx.Updates(map[string]any{"a": 7, "name": "q"})
			case "updateexpr":
				tx = tx.Update("a", gorm.Expr("a + ?", 10))
			case "returning":
				tx = tx.UpdateColumn("a", 7)
			case "delete":
				tx = tx.Delete(&Memo{})
			}
			failed = tx.Error
			var all []memoAll
			if err := db.Raw("select id, a, name, deleted_at is not null as gone from memos order by id").Scan(&all).Error; err != nil {
				return err
			}
			for _, r := range all {
				add("%d %s %s %v", r.ID, show(r.A), show(r.Name), r.Gone)
			}
			if failed == nil {
				add("affected %d", tx.RowsAffected)
			}
			return errUndo
		})
		if err != errUndo {
			return out, fmt.Errorf("fixture: %w", err)
		}
		if failed != nil {
			same := len(out) == len(f.rows)
			for i, r := range f.rows {
				same = same && out[i] == fmt.Sprintf("%d %s %s %v", r.id, show(r.a), show(r.name), r.deleted)
			}
			if same {
				return nil, failed
			}
			return out, failed
		}
		return out, nil
	}
	tx := c.build(f.g)
	unordered := c.order == ""
	switch c.op {
	case "find", "inline", "inline keys", "inline struct":
		var ms []*Memo
		var conds []any
		switch c.op {
		case "inline":
			conds = []any{t + ".a = ? or " + t + ".id > ?", 0, 20}
		case "inline keys":
			conds = []any{memoKeyed}
		case "inline struct":
			conds = []any{&Memo{A: i64(1)}}
		}
		if err := tx.Find(&ms, conds...).Error; err != nil {
			return nil, err
		}
		byID(ms, unordered)
		for _, m := range ms {
			out = append(out, gotFull(c, m))
		}
	case "batches":
		var ms, all []*Memo
		err := tx.FindInBatches(&ms, 4, func(*gorm.DB, int) error {
			all = append(all, ms...)
			return nil
		}).Error
		if err != nil {
			return nil, err
		}
		for _, m := range all {
			out = append(out, gotFull(c, m))
		}
	case "omit":
		var ms []*Memo
		if err := tx.Omit("name").Find(&ms).Error; err != nil {
			return nil, err
		}
		byID(ms, unordered)
		for _, m := range ms {
			d := int64(0)
			if m.DeptID != nil {
				d = *m.DeptID
			}
			add("id=%d a=%s name=%s dept=%d", m.ID, show(m.A), show(m.Name), d)
		}
	case "maps":
		var ms []map[string]any
		if err := tx.Find(&ms).Error; err != nil {
			return nil, err
		}
		if unordered {
			sort.SliceStable(ms, func(i, j int) bool { return fmt.Sprintf("%9v", ms[i]["id"]) < fmt.Sprintf("%9v", ms[j]["id"]) })
		}
		for _, m := range ms {
			a := "-"
			if m["a"] != nil {
				a = fmt.Sprint(deref(m["a"]))
			}
			add("id=%v a=%s", m["id"], a)
		}
	case "small", "select", "scan":
		var ms []struct {
			ID int64
			A  *int64
		}
		switch c.op {
		case "small":
			tx = tx.Find(&ms)
		case "select":
			tx = tx.Select(t+".id", t+".a").Find(&ms)
		case "scan":
			tx = tx.Select(t + ".id, " + t + ".a").Scan(&ms)
		}
		if tx.Error != nil {
			return nil, tx.Error
		}
		if unordered {
			sort.SliceStable(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
		}
		for _, m := range ms {
			add("id=%d a=%s", m.ID, show(m.A))
		}
	case "rows":
		rs, err := tx.Select(t+".id", t+".a").Rows()
		if err != nil {
			return nil, err
		}
		defer rs.Close()
		type row struct {
			id int64
			a  *int64
		}
		var all []row
		for rs.Next() {
			// gorm adds the columns of a joined relation to those that are selected.
			var r row
			dest := []any{&r.id, &r.a}
			cols, err := rs.Columns()
			if err != nil {
				return nil, err
			}
			for len(dest) < len(cols) {
				dest = append(dest, new(any))
			}
			if err := rs.Scan(dest...); err != nil {
				return nil, err
			}
			all = append(all, r)
		}
		if rs.Err() != nil {
			return nil, rs.Err()
		}
		if unordered {
			sort.SliceStable(all, func(i, j int) bool { return all[i].id < all[j].id })
		}
		for _, m := range all {
			add("id=%d a=%s", m.id, show(m.a))
		}
	case "pluck", "sub", "union":
		var ids []int64
		switch c.op {
		case "pluck":
			tx = tx.Pluck(t+".id", &ids)
		case "sub":
			tx = f.g.Model(&Memo{}).Unscoped().Where("id in (?)", tx.Select(t+".id")).Pluck("id", &ids)
		case "union":
			tx = f.g.Raw("select * from (?) union all select id from memos where 1=0", tx.Select(t+".id")).Scan(&ids)
		}
		if tx.Error != nil {
			return nil, tx.Error
		}
		if unordered {
			sort.SliceStable(ids, func(i, j int) bool { return ids[i] < ids[j] })
		}
		for _, id := range ids {
			add("%d", id)
		}
	case "values":
		var as []struct{ A *int64 }
		if err := tx.Select(t + ".a").Scan(&as).Error; err != nil {
			return nil, err
		}
		for _, a := range as {
			out = append(out, show(a.A))
		}
		if unordered {
			sort.Strings(out)
		}
	case "plucka":
		var as []sql.NullInt64
		if err := tx.Pluck(t+".a", &as).Error; err != nil {
			return nil, err
		}
		for _, a := range as {
			if a.Valid {
				add("%d", a.Int64)
			} else {
				add("-")
			}
		}
		if unordered {
			sort.Strings(out)
		}
	case "count":
		var n int64
		if err := tx.Count(&n).Error; err != nil {
			return nil, err
		}
		add("%d", n)
	case "exists":
		var b bool
		if err := f.g.Raw("select exists(?)", tx.Select("1")).Scan(&b).Error; err != nil {
			return nil, err
		}
		add("%v", b)
	case "first", "last", "take", "init", "keyed", "one":
		var m Memo
		switch c.op {
		case "keyed":
			m.ID = memoKeyed[1]
			tx = tx.First(&m)
		case "one":
			tx = tx.Limit(1).Order(t + ".id").Find(&m)
			if tx.Error == nil && tx.RowsAffected == 0 {
				tx.Error = gorm.ErrRecordNotFound
			}
		case "first":
			tx = tx.First(&m)
		case "last":
			tx = tx.Last(&m)
		case "take":
			tx = tx.Take(&m)
		case "init":
			tx = tx.FirstOrInit(&m)
		}
		if errors.Is(tx.Error, gorm.ErrRecordNotFound) {
			add("not found")
			break
		}
		if tx.Error != nil {
			return nil, tx.Error
		}
		if c.op == "init" && m.ID == 0 {
			add("new")
			break
		}
		out = append(out, gotFull(c, &m))
	case "distinct":
		var as []struct{ A *int64 }
		if err := tx.Distinct(t + ".a").Scan(&as).Error; err != nil {
			return nil, err
		}
		seen := map[string]bool{}
		for _, a := range as {
			// A joined relation adds its columns to what is distinct.
			if !seen[show(a.A)] {
				out = append(out, show(a.A))
			}
			seen[show(a.A)] = true
		}
		sort.Strings(out)
	case "group":
		var gs []struct {
			A *int64
			N int64
		}
		if err := tx.Select(t+".a as a", "count(*) as n").Group(t+".a").Having("count(*) > ?", 1).Scan(&gs).Error; err != nil {
			return nil, err
		}
		for _, g := range gs {
			add("%s:%d", show(g.A), g.N)
		}
		sort.Strings(out)
	case "preload":
		var ms []*Memo
		if err := tx.Preload("Notes", apply("a=1 or id=19")).Find(&ms).Error; err != nil {
			return nil, err
		}
		byID(ms, unordered)
		for _, m := range ms {
			d := int64(0)
			if m.DeptID != nil {
				d = *m.DeptID
			}
			s := fmt.Sprintf("id=%d dept=%d", m.ID, d)
			if len(m.Notes) > 0 {
				s += " notes"
			}
			sort.Slice(m.Notes, func(i, j int) bool { return m.Notes[i].ID < m.Notes[j].ID })
			for _, n := range m.Notes {
				s += fmt.Sprintf(" %d", n.ID)
			}
			out = append(out, s)
		}
	default:
		panic(c.op)
	}
	return out, nil
}

type memoAll struct {
	ID   int64
	A    *int64
	Name *string
	Gone bool
}

func deref(x any) any {
	switch v := x.(type) {
	case *int64:
		return *v
	case **int64:
		return **v
	}
	return x
}

func byID(ms []*Memo, unordered bool) {
	if unordered {
		sort.SliceStable(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	}
}
