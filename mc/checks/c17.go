package checks

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"

	"verif/mc/ref"
	"verif/mc/run"
)

// Item and Twin are models of one table; Twin swaps the columns.
type Item struct {
	ID int64 `gorm:"primaryKey"`
	A  *int64
	B  *int64
}

type Twin struct {
	ID int64  `gorm:"primaryKey"`
	A  *int64 `gorm:"column:b"`
	B  *int64 `gorm:"column:a"`
}

func (Twin) TableName() string { return "items" }

// scopes by name; the names in the queries are fields, so that they differ per model
var opScopes = map[string][]string{
	"A=1": {"A=1"}, "or": {"A=1 or B=0"}, "list": {"A=1 or A is null", "B=0"}, "empty": {""}, "bad": {"zz=1"}, "not": {"not B=1"}, "escape": {"A=1) or (1=1", "B=1"}, "none": nil, "more": {"A in (0,1)", "", "not A=1 or B=1"},
}

type item struct {
	id   int64
	a, b any
}

func itemRows() []item {
	var out []item
	id := int64(0)
	for _, a := range ints3 {
		for _, b := range ints3 {
			id++
			out = append(out, item{id, a, b})
		}
	}
	return out
}

type opWorld struct {
	f      *fixture
	scopes map[string]scopeFn
	held   map[string]*gorm.DB
}

func getOps(w *run.W) *opWorld {
	if o, ok := w.Local["ops"]; ok {
		return o.(*opWorld)
	}
	f := &fixture{}
	var err error
	if f.sql, err = openMemory(); err != nil {
		panic(err)
	}
	for _, q := range []string{"create table items (id integer primary key, a integer, b integer)", "create table items0 (id integer primary key, a integer, b integer)"} {
		if _, err := f.sql.Exec(q); err != nil {
			panic(err)
		}
	}
	for _, r := range itemRows() {
		if _, err := f.sql.Exec("insert into items0 values (?,?,?)", r.id, r.a, r.b); err != nil {
			panic(err)
		}
	}
	f.pool = &recorder{DB: f.sql}
	if f.g, err = openGorm(f.pool); err != nil {
		panic(err)
	}
	o := &opWorld{f: f, scopes: map[string]scopeFn{}, held: map[string]*gorm.DB{}}
	for k, qs := range opScopes {
		if len(qs) == 1 {
			o.scopes[k] = gormq.ApplyMiniQuery(qs[0])
		} else {
			o.scopes[k] = gormq.MiniQuery{Query: qs}.Scope
		}
	}
	w.Local["ops"] = o
	return o
}

// A case is a list of operations kind/model/holder/scope separated by \x1f.
// Holders: db (the plain session), held (a session that already has the scope "or"), base, cond (a session with a
// model, and with a condition that is true), root (the connection, there is no model).
func init() {
	register(&run.Check{ID: "C17", Case: c17Case, Explore: func(x *run.X) {
		alpha := func(kinds, models, holders, scopes string) []string {
			var out []string
			for _, k := range strings.Fields(kinds) {
				for _, m := range strings.Fields(models) {
					for _, h := range strings.Fields(holders) {
						for _, s := range strings.Fields(scopes) {
							out = append(out, k+"/"+m+"/"+h+"/"+s)
						}
					}
				}
			}
			return out
		}
		seqs := func(name string, a []string, n int) {
			x.Each(name, func(y func(string) bool) {
				var rec func(s []string) bool
				rec = func(s []string) bool {
					if len(s) == n {
						return y(strings.Join(s, "\x1f"))
					}
					for _, o := range a {
						if !rec(append(append([]string{}, s...), o)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			})
		}
		all := "find first count pluck update updates delete rollback twice direct"
		seqs("one", alpha(all, "item twin", "db held", "A=1 or list empty bad not escape none more"), 1)
		seqs("one on a session", alpha(strings.ReplaceAll(all, "rollback", "directcount directdelete directupdate"), "item twin", "base cond", "A=1 or list empty bad not escape none more"), 1)
		seqs("one without model", alpha(strings.ReplaceAll(all, "rollback", "directcount directdelete directupdate"), "item", "root", "A=1 or list bad not escape more"), 1)
		scopes := "A=1 or list empty bad not escape none more"
		seqs("one, other models", append(alpha("find first count pluck twice direct directcount", "item twin", "slice pointers value keyed", scopes), alpha("update updates delete directdelete directupdate", "item twin", "slice pointers keyed", scopes)...), 1)
		seqs("two, other models", append(alpha("find count direct", "item twin", "slice pointers value keyed", "A=1 list bad"), alpha("update delete directdelete", "item twin", "slice pointers keyed", "A=1 list bad")...), 2)
		seqs("two", alpha(all, "item twin", "db held", "A=1 or list empty bad")[:], 2)
		seqs("two on one session", append(alpha("find direct count delete directcount directdelete directupdate", "item twin", "held base cond", "A=1 or list empty bad escape"), alpha("direct directcount find", "item", "root", "A=1 list bad")...), 2)
		seqs("three on one session", append(alpha("direct directcount directdelete", "item twin", "base", "A=1 list bad"), alpha("direct", "item", "root", "A=1 list bad")...), 3)
		seqs("three", alpha(pick(x, "find count update delete", all), "item twin", "db", "A=1 list bad not"), 3)
		seqs("three held", alpha("find first update delete", "item", "db held", pick(x, "A=1 bad not", "A=1 bad not list")), 3)
		if x.Thorough {
			seqs("four", alpha("find update delete", "item twin", "db", "A=1 not list"), 4)
		}
	}})
}

func c17Case(w *run.W, c string) error {
	o := getOps(w)
	f := o.f
	if _, err := f.sql.Exec("delete from items"); err != nil {
		return err
	}
	if _, err := f.sql.Exec("insert into items select * from items0"); err != nil {
		return err
	}
	// sessions live for the whole case
	held := map[string]*gorm.DB{
		"base/item": f.g.Model(&Item{}).Session(&gorm.Session{}),
		"base/twin": f.g.Model(&Twin{}).Session(&gorm.Session{}),
		"cond/item": f.g.Model(&Item{}).Where("a is null or a >= 0 or b = 5").Session(&gorm.Session{}),
		"cond/twin": f.g.Table("items").Model(&Twin{}).Where("a is null or a >= 0 or b = 5").Session(&gorm.Session{}),
		"item":      f.g.Model(&Item{}).Scopes(o.scopes["or"]).Session(&gorm.Session{}),
		"twin":      f.g.Model(&Twin{}).Scopes(o.scopes["or"]).Session(&gorm.Session{}),
	}
	state := itemRows()
	for i, op := range strings.Split(c, "\x1f") {
		w.Trans(1)
		if err := o.step(&state, held, op); err != nil {
			return fmt.Errorf("operation %d %s: %v", i+1, op, err)
		}
		w.Distinct(fmt.Sprint(state))
		if f.g.Error != nil {
			err := f.g.Error
			f.g.Error = nil
			return fmt.Errorf("operation %d %s leaves error %v on the connection", i+1, op, err)
		}
		for name, s := range held {
			if s.Error != nil {
				return fmt.Errorf("operation %d %s leaves error %v on the session %s", i+1, op, s.Error, name)
			}
		}
		// the session is still unfiltered
		var all []Item
		if err := f.g.Order("id").Find(&all).Error; err != nil {
			return err
		}
		show := func(p *int64) any {
			if p == nil {
				return nil
			}
			return *p
		}
		var got []item
		for _, t := range all {
			got = append(got, item{t.ID, show(t.A), show(t.B)})
		}
		if fmt.Sprint(got) != fmt.Sprint(state) {
			return fmt.Errorf("operation %d %s: table is %v, should be %v", i+1, op, got, state)
		}
	}
	return nil
}

func (o *opWorld) step(state *[]item, held map[string]*gorm.DB, op string) error {
	p := strings.Split(op, "/")
	kind, model, holder, scope := p[0], p[1], p[2], p[3]
	// expectation
	var qs []string
	qs = append(qs, opScopes[scope]...)
	if holder == "held" {
		qs = append(qs, opScopes["or"]...)
	}
	bad, filtered := false, false
	match := func(r item) bool {
		env := ref.MapEnv{"A": toV(r.a, 'i'), "B": toV(r.b, 'i')}
		if model == "twin" {
			env = ref.MapEnv{"A": toV(r.b, 'i'), "B": toV(r.a, 'i')}
		}
		for _, q := range qs {
			if strings.TrimSpace(q) == "" {
				continue
			}
			if ref.Truth(parsed(q).Tree, env) != 1 {
				return false
			}
		}
		return true
	}
	for _, q := range qs {
		if q == "" {
			continue
		}
		filtered = true
		t := ref.Parse(q).Tree
		bad = bad || t == nil || t.Any(func(n *ref.N) bool { return n.T == ref.Ident && n.S != "A" && n.S != "B" })
	}
	switch holder {
	case "root":
		bad = true
	case "cond": // true for all rows
		filtered = true
	case "keyed": // what is written is the row of the model
		if write := strings.HasSuffix(kind, "update") || strings.HasSuffix(kind, "delete") || kind == "updates"; write {
			filtered = true
			all := match
			match = func(r item) bool { return r.id == 5 && all(r) }
		}
	}
	var hit []int64
	var rest []item
	if !bad {
		for _, r := range *state {
			if match(r) {
				hit = append(hit, r.id)
			} else {
				rest = append(rest, r)
			}
		}
	}

	start := func() *gorm.DB {
		tx := held[model]
		switch holder {
		case "base", "cond":
			tx = held[holder+"/"+model]
		case "root": // the model comes too late
			tx = o.f.g
		case "db":
			if model == "item" {
				tx = o.f.g.Model(&Item{})
			} else {
				tx = o.f.g.Model(&Twin{})
			}
		case "slice", "pointers", "value", "keyed":
			m := map[string]any{"slice/item": &[]Item{}, "slice/twin": &[]Twin{}, "pointers/item": &[]*Item{}, "pointers/twin": &[]*Twin{}, "value/item": Item{}, "value/twin": Twin{}, "keyed/item": &Item{ID: 5}, "keyed/twin": &Twin{ID: 5}}
			tx = o.f.g.Model(m[holder+"/"+model])
		}
		return tx
	}
	var zero any = &Item{}
	if model == "twin" {
		zero = &Twin{}
	}
	tx := start()
	if k, ok := strings.CutPrefix(kind, "direct"); ok {
		kind = k
		tx = o.scopes[scope](tx)
	} else {
		tx = tx.Scopes(o.scopes[scope])
	}
	before := o.f.pool.sent.Load()
	var got []int64
	var err error
	write := false
	switch kind {
	case "find", "":
		var rows []map[string]any
		err = tx.Find(&rows).Error
		for _, r := range rows {
			got = append(got, r["id"].(int64))
		}
	case "twice": // one session, used two times
		s := tx.Session(&gorm.Session{})
		var one []int64
		if err = s.Pluck("id", &one).Error; err == nil {
			err = s.Pluck("id", &got).Error
			if fmt.Sprint(one) != fmt.Sprint(got) {
				return fmt.Errorf("rows %v, then %v", one, got)
			}
		}
	case "pluck":
		err = tx.Pluck("id", &got).Error
	case "first":
		r := map[string]any{}
		err = tx.Order("id").Take(&r).Error
		if errors.Is(err, gorm.ErrRecordNotFound) && len(hit) == 0 && !bad {
			return nil
		}
		if err == nil {
			got = append(got, r["id"].(int64))
		}
		if len(hit) > 1 {
			hit = hit[:1]
		}
	case "count":
		var n int64
		err = tx.Count(&n).Error
		if !bad && err == nil {
			if n != int64(len(hit)) {
				return fmt.Errorf("counts %d, should be %d", n, len(hit))
			}
			return nil
		}
	case "update", "updates":
		write = true
		var res *gorm.DB
		if kind == "update" {
			res = tx.Update("a", 1)
		} else {
			res = tx.Updates(map[string]any{"b": 0, "a": gorm.Expr("b")})
		}
		err = res.Error
		if err == nil && filtered && !bad {
			if res.RowsAffected != int64(len(hit)) {
				return fmt.Errorf("updates %d rows, should be %d", res.RowsAffected, len(hit))
			}
			for i, r := range *state {
				for _, h := range hit {
					if r.id == h && kind == "update" {
						(*state)[i].a = int64(1)
					} else if r.id == h {
						(*state)[i].a, (*state)[i].b = r.b, int64(0)
					}
				}
			}
			return nil
		}
	case "delete":
		write = true
		res := tx.Delete(zero)
		err = res.Error
		if err == nil && filtered && !bad {
			if res.RowsAffected != int64(len(hit)) {
				return fmt.Errorf("deletes %d rows, should be %d", res.RowsAffected, len(hit))
			}
			*state = rest
			return nil
		}
	case "rollback":
		write = true
		back := errors.New("back")
		err = o.f.g.Transaction(func(t *gorm.DB) error {
			if holder == "held" {
				t = t.Scopes(o.scopes["or"])
			}
			res := t.Model(zero).Scopes(o.scopes[scope]).Delete(zero)
			if res.Error != nil {
				return res.Error
			}
			if res.RowsAffected != int64(len(hit)) {
				return fmt.Errorf("deletes %d rows, should be %d", res.RowsAffected, len(hit))
			}
			return back
		})
		if bad {
			if err == nil || err == back {
				return errors.New("no error")
			}
			return nil
		}
		if filtered {
			if err != back {
				return fmt.Errorf("transaction: %v", err)
			}
			return nil
		}
		if err == nil || err == back {
			return errors.New("deletes everything")
		}
		return nil
	}
	if bad {
		if err == nil {
			return errors.New("no error")
		}
		if o.f.pool.sent.Load() != before {
			return fmt.Errorf("sends %v", o.f.pool.last.Load())
		}
		return nil
	}
	if write { // without any condition gorm refuses
		if err == nil {
			return errors.New("changes everything")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("error %v", err)
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	if !sameIDs(got, hit) {
		return fmt.Errorf("rows %v, should be %v", got, hit)
	}
	return nil
}

func pick(x *run.X, quick, thorough string) string {
	if x.Thorough {
		return thorough
	}
	return quick
}
