package checks

import (
	"fmt"
	"strings"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// gormOps are the operations on a statement; each returns its error.
var gormOps = []struct {
	name string
	do   func(tx *gorm.DB) error
}{
	{"find", func(tx *gorm.DB) error { var d []Person; return tx.Find(&d).Error }},
	{"delete", func(tx *gorm.DB) error { return tx.Delete(&Person{}).Error }},
	{"update", func(tx *gorm.DB) error { return tx.Update("a", 7).Error }},
	{"count", func(tx *gorm.DB) error { var n int64; return tx.Count(&n).Error }},
	{"first", func(tx *gorm.DB) error { var d Person; return tx.First(&d).Error }},
	{"pluck", func(tx *gorm.DB) error { var d []int64; return tx.Pluck("a", &d).Error }},
	{"updates", func(tx *gorm.DB) error { return tx.Updates(map[string]any{"a": 1, "name": "q"}).Error }},
	{"take", func(tx *gorm.DB) error { var d Person; return tx.Take(&d).Error }},
	{"last", func(tx *gorm.DB) error { var d Person; return tx.Last(&d).Error }},
	{"scan", func(tx *gorm.DB) error { var d []map[string]any; return tx.Scan(&d).Error }},
	{"rows", func(tx *gorm.DB) error {
		rs, err := tx.Rows()
		if err == nil && rs != nil {
			rs.Close()
		}
		return err
	}},
	{"columns", func(tx *gorm.DB) error { return tx.UpdateColumns(map[string]any{"a": 1}).Error }},
	{"column", func(tx *gorm.DB) error { return tx.UpdateColumn("a", 1).Error }},
	{"batches", func(tx *gorm.DB) error {
		var d []Person
		return tx.FindInBatches(&d, 10, func(*gorm.DB, int) error { return nil }).Error
	}},
	{"init", func(tx *gorm.DB) error { var d Person; return tx.FirstOrInit(&d).Error }},
	{"create", func(tx *gorm.DB) error { var d Person; return tx.FirstOrCreate(&d).Error }},
	{"find inline", func(tx *gorm.DB) error { var d []Person; return tx.Find(&d, "a = ?", 1).Error }},
	{"delete inline", func(tx *gorm.DB) error { return tx.Delete(&Person{}, 3).Error }},
	{"limit", func(tx *gorm.DB) error { var d []Person; return tx.Limit(3).Offset(1).Order("a").Find(&d).Error }},
	{"distinct", func(tx *gorm.DB) error { var d []int64; return tx.Distinct("a").Pluck("a", &d).Error }},
	{"group", func(tx *gorm.DB) error {
		var d []map[string]any
		return tx.Select("a, count(*)").Group("a").Having("count(*) > 1").Find(&d).Error
	}},
	{"unscoped", func(tx *gorm.DB) error { return tx.Unscoped().Delete(&Person{}).Error }},
	{"global", func(tx *gorm.DB) error {
		return tx.Session(&gorm.Session{AllowGlobalUpdate: true}).Delete(&Person{}).Error
	}},
	{"global update", func(tx *gorm.DB) error {
		return tx.Session(&gorm.Session{AllowGlobalUpdate: true}).Update("a", 1).Error
	}},
}

type scopeFn = func(*gorm.DB) *gorm.DB

// arrangements put the scope among other conditions.
var arrangements = []struct {
	name string
	make func(db *gorm.DB, s scopeFn) *gorm.DB
}{
	{"plain", func(db *gorm.DB, s scopeFn) *gorm.DB { return db.Model(&Person{}).Scopes(s) }},
	{"where before", func(db *gorm.DB, s scopeFn) *gorm.DB { return db.Model(&Person{}).Where("a = 1").Scopes(s) }},
	{"where after", func(db *gorm.DB, s scopeFn) *gorm.DB { return db.Model(&Person{}).Scopes(s).Where("a = ?", 1) }},
	{"or", func(db *gorm.DB, s scopeFn) *gorm.DB {
		return db.Model(&Person{}).Scopes(s).Where("a = 1").Or("a = 0")
	}},
	{"query before", func(db *gorm.DB, s scopeFn) *gorm.DB { return db.Model(&Person{}).Scopes(apply("a=1"), s) }},
	{"query after", func(db *gorm.DB, s scopeFn) *gorm.DB { return db.Model(&Person{}).Scopes(s, apply("a=1")) }},
	{"relation after", func(db *gorm.DB, s scopeFn) *gorm.DB {
		return db.Model(&Person{}).Scopes(s).Scopes(apply("Firm.a=1"))
	}},
	{"scope after", func(db *gorm.DB, s scopeFn) *gorm.DB {
		return db.Model(&Person{}).Scopes(s, func(d *gorm.DB) *gorm.DB { return d.Where("1=1") })
	}},
	{"empty after", func(db *gorm.DB, s scopeFn) *gorm.DB { return db.Model(&Person{}).Scopes(s, apply("")) }},
	{"direct", func(db *gorm.DB, s scopeFn) *gorm.DB { return s(db.Model(&Person{})) }},
	{"direct more", func(db *gorm.DB, s scopeFn) *gorm.DB { return s(db.Model(&Person{}).Where("a=1")).Where("a=0") }},
	{"joins", func(db *gorm.DB, s scopeFn) *gorm.DB { return db.Model(&Person{}).Joins("Card").Scopes(s) }},
	{"nested scope", func(db *gorm.DB, s scopeFn) *gorm.DB {
		return db.Model(&Person{}).Scopes(func(d *gorm.DB) *gorm.DB { return d.Scopes(s) })
	}},
	{"transaction", nil},
}

// statements without a usable model
var noModel = []struct {
	name string
	do   func(db *gorm.DB, s scopeFn) error
}{
	{"find", func(db *gorm.DB, s scopeFn) error {
		var d []map[string]any
		return db.Table("people").Scopes(s).Find(&d).Error
	}},
	{"count", func(db *gorm.DB, s scopeFn) error { var n int64; return db.Table("people").Scopes(s).Count(&n).Error }},
	{"update", func(db *gorm.DB, s scopeFn) error { return db.Table("people").Scopes(s).Update("a", 1).Error }},
	{"delete", func(db *gorm.DB, s scopeFn) error { return db.Table("people").Scopes(s).Delete(nil).Error }},
	{"where", func(db *gorm.DB, s scopeFn) error {
		return db.Table("people").Where("a=1").Scopes(s).Update("a", 1).Error
	}},
	{"no struct", func(db *gorm.DB, s scopeFn) error {
		var n int64
		return db.Model(1).Table("people").Scopes(s).Count(&n).Error
	}},
	{"map", func(db *gorm.DB, s scopeFn) error {
		var n int64
		return db.Model(map[string]any{}).Table("people").Scopes(s).Count(&n).Error
	}},
	{"raw table", func(db *gorm.DB, s scopeFn) error {
		var d []int64
		return db.Table("(select * from people) as p").Scopes(s).Pluck("a", &d).Error
	}},
}

// badQueries cannot be turned into SQL for Person.
var badQueries = []string{
	"zz=1", "a=zz", "a=1 and zz=1", "zz", "not zz", "(zz)", "zz is null", "zz in (1)", "zz between 1 and 2", "date(zz)", "a in (1) or zz=1", "f(a)", "date2(a)=1", "a=f()", "not f(1)", "f(a) is null", "count(a)>1", "f(a) in (1)", "f(a) between 1 and 2", "1=1 or sleep(10)", "date(f(a))", "date(a,f())", "date(1,zz)", "DATE(a)=1", "Date(a)=1",
	"Firm.zz=1", "Zz.a=1", "firm.a=1", "FIRM.a=1", "people.a=1", "firms.a=1", "Firm.a.b=1", "a.b=1", "Firm.Second.a=1", "Firm=1", "Firm is null", "Card", "a=Firm.zz", "Firm.a=1 and Zz.a=1", "Parent.Firm.a=1", "Parent.Firm=1", "has_edge(Firm)",
	"a=", "=1", "a", "(a=1", "a=1)", "a=1 and", "or a=1", "a=1 b=2", "a=1;", "a=1; delete from people", "'x", "a='x", "a in (", "a in ()x", "a between 1", "a between 1 and", "a is", "a is nul", "a->b", "a=1 --", "not", "and", "()", "(,)", "a==", "a=!1", "a><1", "99999999999999999999", "a=99999999999999999999", " ", "\n", "--\n", "é", "\x00", "\xff", "a=1\x00", "a in 1", "a like", "f(", "f(,)", "a. b", "1.5", "-1", "a=-1", "a='x''y'", "a=1 or or b=1", "a=1)) or ((1=1", "[1", "a=1 and (zz=1 or a=2) and a=3", "not (not (zz=1))", "(((zz)))=1", "1=1 and 1=1 and 1=1 and zz=1", "zz=1 or 1=1", "1=1 or zz=1", "null=zz", "zz like 'x'", "'x' not like zz", "a not in (1) and zz not in (1)",
}

func gormInvalid(q string) bool {
	if q == "" {
		return false
	}
	t := ref.Parse(q).Tree
	if t == nil {
		return true
	}
	return t.Any(func(n *ref.N) bool {
		switch n.T {
		case ref.Ident:
			_, ok := relColumn([]string{n.S})
			return !ok
		case ref.Refr:
			_, ok := relColumn(n.Names)
			return !ok
		case ref.Fn:
			return n.S != "date"
		}
		return false
	})
}

// A case is operation \x1e arrangement \x1e "one" or "list" \x1e queries separated by \x1f.
// The arrangement "no model" has the operations of noModel.
func init() {
	register(&run.Check{ID: "C14", Case: c14Case, Explore: func(x *run.X) {
		emitAll := func(y func(string) bool, kind, q string) bool {
			for _, o := range gormOps {
				for _, a := range arrangements {
					if !y(o.name + "\x1e" + a.name + "\x1e" + kind + "\x1e" + q) {
						return false
					}
				}
			}
			return true
		}
		// the operations and arrangements in turn
		i := 0
		emitSome := func(y func(string) bool, kind, q string, n int) bool {
			for k := 0; k < n; k++ {
				i++
				o, a := gormOps[i%len(gormOps)], arrangements[(i/len(gormOps))%len(arrangements)]
				if !y(o.name + "\x1e" + a.name + "\x1e" + kind + "\x1e" + q) {
					return false
				}
			}
			return y("find\x1eplain\x1e"+kind+"\x1e"+q) && y("delete\x1eplain\x1e"+kind+"\x1e"+q)
		}
		x.Each("deep", deepBuilds)
		x.Each("bad queries", func(y func(string) bool) {
			for _, q := range badQueries {
				if gormInvalid(q) && (!emitAll(y, "one", q) || !emitAll(y, "list", q+"\x1fa=1")) {
					return
				}
			}
		})
		x.Each("lists", func(y func(string) bool) {
			good := []string{"a=1", "a=1 or name='x'", "", "not a=0", "Firm.a=1", " "}
			for _, q := range []string{"zz=1", "a=1) or (1=1", "(a=1", "f(a)", "Zz.a=1", "'", "a=1 and", "a=1) or (a=1) or (a=1", "Firm.zz=1", "a=1 --"} {
				for n := 2; n <= x.Bound(3, 4); n++ {
					for pos := 0; pos < n; pos++ {
						total := 1
						for k := 1; k < n; k++ {
							total *= len(good)
						}
						for v := 0; v < total; v++ {
							list, u := make([]string, n), v
							for k := 0; k < n; k++ {
								if k == pos {
									list[k] = q
									continue
								}
								list[k] = good[u%len(good)]
								u /= len(good)
							}
							if !emitSome(y, "list", strings.Join(list, "\x1f"), x.Bound(8, 24)) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("long", func(y func(string) bool) {
			for _, bad := range []string{"zz=1", "a=f(1)", "Firm.zz=1", "a=1)", "(a=1"} {
				longBad(x.Bound(20, 300), x.Bound(4200, 70000), bad, func(q string) bool {
					return y("find\x1eplain\x1eone\x1e"+q) && y("delete\x1eplain\x1elist\x1ea=1\x1f"+q) && y("count\x1eplain\x1elist\x1e"+q+"\x1fa=1")
				})
			}
			for _, i := range gen.Upto(x.Bound(120, 400), 5000) {
				s := strings.Repeat("x", i)
				for _, q := range []string{"name='" + s + "') or (a=1", "a=1) or (name='" + s + "'", "a=1) or (" + strings.Repeat("a=1 or ", i) + "a=1", "a in (1" + strings.Repeat(",1", i) + ")) or (1=1"} {
					if !y("find\x1eplain\x1elist\x1ea=1\x1f"+q) || !y("delete\x1eplain\x1elist\x1e"+q+"\x1fa=1") || !y("find\x1eplain\x1elist\x1ea=1\x1f"+q+"\x1fname='x'") {
						return
					}
				}
			}
			for _, i := range gen.Upto(x.Bound(120, 400), 520) {
				for _, bad := range []string{"zz=1", "a=1) or (1=1", "'"} {
					if !y("find\x1eplain\x1elist\x1e"+strings.Repeat("a=1\x1f", i)+bad) || !y("update\x1eplain\x1elist\x1e"+bad+strings.Repeat("\x1fa=1", i)) {
						return
					}
				}
			}
		})
		x.Each("bad leaf", func(y func(string) bool) {
			for _, bad := range []string{"zz=1", "a=f(1)", "Zz.a in (1)", "Firm.zz is null", "zz between 1 and 2"} {
				good := []string{"a=1", "name like 'x'", "Firm.a=1", "a is null"}
				for k := 1; k <= x.Bound(3, 4); k++ {
					for pos := 0; pos < k; pos++ {
						ok := true
						gen.Skeletons(k, func(i int) gen.E {
							if i == pos {
								return parsed(bad)
							}
							return parsed(good[i])
						}, func(e gen.E) bool {
							ok = emitSome(y, "one", e.Text, 1)
							return ok
						})
						if !ok {
							return
						}
					}
				}
			}
		})
		corpus := []string{
			`a=1`, `a == 'x' and name != "y"`, `a <> 1 or Firm.a >= 2 and Card.Rank <= 3`, `not a > 1`, `not (a < 1 or Parent.a = 2)`, `a in (1,2,3)`, `a not in ['x' , "y",]`,
			`name like '%x%' && name not like "y"`, `a between 1 and 2 || FirmID not between [1,2]`, `a is null and Card.a is not null`, `a isnull or name notnull`, `a is true`,
			`date(name) = '2020-01-01'`, `(a = 1) and ((firm_id))`, `a gt 1 and a gte 2 and a lt 3 and a lte 4 and a eq 5 and a neq 6`, "a = 1 -- comment\n and a = 2 // other\r\n or a = 3", `true and FALSE or NULL`, "date(a, date('x'))",
		}
		x.Each("edits", func(y func(string) bool) {
			gen.Edits(corpus, func(q string) bool { return !gormInvalid(q) || emitSome(y, "one", q, x.Bound(4, 16)) })
		})
		x.Each("no model", func(y func(string) bool) {
			qs := append([]string{"a=1", "1=1", "not a=1", "a in (1)", "date(a)"}, badQueries...)
			for _, q := range qs {
				for _, o := range noModel {
					if !y(o.name+"\x1eno model\x1eone\x1e"+q) || !y(o.name+"\x1eno model\x1elist\x1e"+q+"\x1fa=2") {
						return
					}
				}
			}
		})
		x.Each("other languages", func(y func(string) bool) {
			gen.Foreign(func(q string) bool {
				return y("find\x1eplain\x1eone\x1e"+q) && y("update\x1eplain\x1elist\x1ea=1\x1f"+q)
			})
			gen.Marks(x.Bound(2, 3), func(q string) bool { return y("find\x1eplain\x1eone\x1e" + q) })
		})
		set := gen.NewSet()
		th := gen.Theme{Name: "tokens", Tokens: []string{"a", "zz", "Firm", ".", "1", "'", "=", " ", " and ", " or ", "not ", "(", ")", "date(", "f(", ",", " in ", "[", "]", " between ", " is null", " like ", "\n", "--", ";", "<", ">", "&&", "|", "é"}}
		prefixCases(x, set, th, x.Bound(4, 5), func(w *run.W, q string) {
			w.Run("find\x1eplain\x1eone\x1e" + q)
			w.Run("delete\x1eplain\x1eone\x1e" + q)
			if x.Thorough {
				w.Run("update\x1ewhere before\x1elist\x1e" + q + "\x1fa=1")
			}
		})
	}, Assumptions: []string{"a list of one blank query is not covered"}})
}

// prefixCases explores token sequences and turns each text into cases.
func prefixCases(x *run.X, set *gen.Set, th gen.Theme, depth int, f func(w *run.W, q string)) {
	type item struct{ a, b int }
	var items []item
	for i := range th.Tokens {
		for j := -1; j < len(th.Tokens); j++ {
			items = append(items, item{i, j})
		}
	}
	run.Tasks(x, items, func(w *run.W, it item) {
		w.Family(th.Name)
		var dfs func(text string, left int)
		dfs = func(text string, left int) {
			w.Trans(1)
			fresh, expand := set.Add(text, left)
			if fresh {
				f(w, text)
			}
			if !expand || left == 0 || w.Stop() || ref.Parse(text).Dead {
				return
			}
			for _, t := range th.Tokens {
				dfs(text+t, left-1)
			}
		}
		first := th.Start + th.Tokens[it.a]
		if it.b < 0 {
			dfs(first, 0)
			return
		}
		if !ref.Parse(first).Dead && depth > 1 {
			dfs(first+th.Tokens[it.b], depth-2)
		}
	})
}

func c14Case(w *run.W, c string) error {
	if q, _, ok := deepText(c); ok {
		return deepGorm(w, q)
	}
	fl := strings.Split(c, "\x1e")
	op, arr, kind := fl[0], fl[1], fl[2]
	list := strings.Split(fl[3], "\x1f")
	f := getRelFixture(w)
	w.Distinct(c)
	w.Trans(1)
	var scope scopeFn
	bad := false
	if kind == "one" {
		scope = gormq.ApplyMiniQuery(fl[3])
		bad = gormInvalid(fl[3])
	} else {
		scope = gormq.MiniQuery{Query: list}.Scope
		for _, q := range list {
			bad = bad || strings.TrimSpace(q) != "" && gormInvalid(q)
		}
		if len(list) == 1 && strings.TrimSpace(list[0]) == "" {
			return nil
		}
	}
	before := f.pool.sent.Load()
	var err error
	if arr == "no model" {
		for _, o := range noModel {
			if o.name == op {
				err = o.do(f.g, scope)
			}
		}
		bad = true
	} else {
		g := f.g
		if !bad {
			g = g.Session(&gorm.Session{DryRun: true, SkipDefaultTransaction: true})
		}
		for _, o := range gormOps {
			if o.name != op {
				continue
			}
			for _, a := range arrangements {
				if a.name != arr {
					continue
				}
				if a.make == nil { // inside a transaction, whose begin is sent
					if bad {
						tx := g.Begin()
						before = f.pool.sent.Load()
						err = o.do(tx.Model(&Person{}).Scopes(scope))
						tx.Rollback()
					}
					continue
				}
				err = o.do(a.make(g, scope))
			}
		}
	}
	if !bad {
		return nil
	}
	if err == nil {
		return fmt.Errorf("no error")
	}
	if f.pool.sent.Load() != before {
		return fmt.Errorf("sends %q", f.pool.last.Load())
	}
	for name, o := range sessions {
		for _, a := range arrangements {
			for _, p := range gormOps {
				if a.name != arr || a.make == nil || p.name != op || a.name != "plain" && name != "dry run" {
					continue
				}
				if err = p.do(a.make(f.g.Session(o), scope)); err == nil {
					return fmt.Errorf("%s: no error", name)
				}
				if f.pool.sent.Load() != before {
					return fmt.Errorf("%s: sends %q", name, f.pool.last.Load())
				}
			}
		}
	}
	return nil
}

// sessions are settings under which a bad query is refused just as well.
var sessions = map[string]*gorm.Session{
	"dry run": {DryRun: true}, "prepared": {PrepareStmt: true}, "without hooks": {SkipHooks: true}, "without transactions": {SkipDefaultTransaction: true, DisableNestedTransaction: true},
	"query fields": {QueryFields: true, CreateBatchSize: 1}, "global": {AllowGlobalUpdate: true, FullSaveAssociations: true}, "errors passed on": {PropagateUnscoped: true},
}
