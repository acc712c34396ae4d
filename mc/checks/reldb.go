package checks

import (
	"fmt"
	"strings"

	"verif/mc/ref"
	"verif/mc/run"
)

// Person has to-one relations of every kind; all tables have columns of the same names.
type Person struct {
	ID       int64 `gorm:"primaryKey"`
	Name     *string
	A        *int64
	FirmID   *int64
	Firm     *Firm
	SecondID *int64
	Second   *Firm
	Card     *Card
	ParentID *int64
	Parent   *Person
}

type Firm struct {
	ID   int64 `gorm:"primaryKey"`
	Name *string
	A    *int64
	Rank *int64 `gorm:"column:lvl"`
}

type Card struct {
	ID       int64 `gorm:"primaryKey"`
	Name     *string
	A        *int64
	Rank     *int64 `gorm:"column:lvl"`
	PersonID *int64
}

type firmRow struct {
	name any
	a    any
	lvl  any
}

type personRow struct {
	name, a                   any
	firm, second, card, paren int // 0: none; firm 9: dangling
}

// the related rows; both firms and cards
var relRows = []firmRow{{nil, nil, nil}, {"x", int64(0), int64(1)}, {"y", int64(1), int64(0)}, {"x", int64(1), nil}, {"2020-01-02", int64(0), int64(2)}}

// getRelFixture is a table of people with every combination of own values and related rows.
func getRelFixture(w *run.W) *fixture {
	if f, ok := w.Local["relations"]; ok {
		return f.(*fixture)
	}
	f := &fixture{}
	var err error
	if f.sql, err = openMemory(); err != nil {
		panic(err)
	}
	must := func(q string, a ...any) {
		if _, err := f.sql.Exec(q, a...); err != nil {
			panic(fmt.Sprintf("%s: %v", q, err))
		}
	}
	must("create table people (id integer primary key, name text, a integer, firm_id integer, second_id integer, parent_id integer)")
	must("create table firms (id integer primary key, name text, a integer, lvl integer)")
	must("create table cards (id integer primary key, name text, a integer, lvl integer, person_id integer)")
	for i, r := range relRows {
		must("insert into firms values (?,?,?,?)", i+1, r.name, r.a, r.lvl)
	}
	var people []personRow
	i := 0
	for _, a := range ints3 {
		for _, n := range []any{nil, "x"} {
			for _, firm := range []int{0, 1, 2, 3, 4, 5, 9} {
				for _, card := range []int{0, 1, 2, 3, 5} {
					i++
					people = append(people, personRow{name: n, a: a, firm: firm, card: card, second: (i * 5) % 6, paren: (i * 5) % 13})
				}
			}
		}
	}
	card := 100
	for i, p := range people {
		id := i + 1
		ptr := func(n int) any {
			if n == 0 {
				return nil
			}
			return n
		}
		must("insert into people values (?,?,?,?,?,?)", id, p.name, p.a, ptr(p.firm), ptr(p.second), ptr(p.paren))
		env := ref.MapEnv{}
		put := func(prefix string, n, a, lvl any, hasLvl bool) {
			env[prefix+"name"], env[prefix+"a"] = toV(n, 's'), toV(a, 'i')
			env[prefix+"Name"], env[prefix+"A"] = toV(n, 's'), toV(a, 'i')
			if hasLvl {
				env[prefix+"lvl"], env[prefix+"Rank"], env[prefix+"rank"] = toV(lvl, 'i'), toV(lvl, 'i'), toV(lvl, 'i')
			}
		}
		id64 := func(ok bool, n int) ref.V {
			if !ok {
				return ref.V{K: 'n', Aff: 'i'}
			}
			return ref.V{K: 'i', I: int64(n), Aff: 'i'}
		}
		put("", p.name, p.a, nil, false)
		env["id"] = id64(true, id)
		env["firm_id"] = id64(p.firm > 0, p.firm)
		env["FirmID"] = env["firm_id"]
		env["parent_id"] = id64(p.paren > 0, p.paren)
		at := func(n int) firmRow {
			if n < 1 || n > len(relRows) {
				return firmRow{}
			}
			return relRows[n-1]
		}
		fr, sr, cr := at(p.firm), at(p.second), at(p.card)
		put("Firm.", fr.name, fr.a, fr.lvl, true)
		env["Firm.id"] = id64(p.firm >= 1 && p.firm <= len(relRows), p.firm)
		put("Second.", sr.name, sr.a, sr.lvl, true)
		env["Second.id"] = id64(p.second > 0, p.second)
		put("Card.", cr.name, cr.a, cr.lvl, true)
		if p.card > 0 {
			card++
			must("insert into cards values (?,?,?,?,?)", card, cr.name, cr.a, cr.lvl, id)
		}
		env["Card.id"] = id64(p.card > 0, card)
		if p.paren > 0 {
			o := people[p.paren-1]
			put("Parent.", o.name, o.a, nil, false)
			env["Parent.firm_id"] = id64(o.firm > 0, o.firm)
		} else {
			put("Parent.", nil, nil, nil, false)
			env["Parent.firm_id"] = id64(false, 0)
		}
		env["Parent.id"] = id64(p.paren > 0, p.paren)
		f.rows = append(f.rows, env)
		f.raw = append(f.raw, map[string]any{"id": id, "row": fmt.Sprintf("%+v", p)})
	}
	f.pool = &recorder{DB: f.sql}
	if f.g, err = openGorm(f.pool); err != nil {
		panic(err)
	}
	w.Local["relations"] = f
	return f
}

// relColumn is the column that a name of Person or of a relation stands for.
func relColumn(names []string) (string, bool) {
	cols := func(list string, name string) (string, bool) {
		for _, p := range strings.Fields(list) {
			field, col, _ := strings.Cut(p, ":")
			if name == col || strings.EqualFold(name, field) {
				return col, true
			}
		}
		return "", false
	}
	if len(names) == 1 {
		return cols("ID:id Name:name A:a FirmID:firm_id SecondID:second_id ParentID:parent_id", names[0])
	}
	if len(names) != 2 {
		return "", false
	}
	switch names[0] {
	case "Firm", "Second":
		return cols("ID:id Name:name A:a Rank:lvl", names[1])
	case "Card":
		return cols("ID:id Name:name A:a Rank:lvl PersonID:person_id", names[1])
	case "Parent":
		return cols("ID:id Name:name A:a FirmID:firm_id SecondID:second_id ParentID:parent_id", names[1])
	}
	return "", false
}
