package checks

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/wenerme/go-miniquery/gormq"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// Swap has names that are columns of other fields.
type Swap struct {
	ID  int64 `gorm:"primaryKey"`
	A   int64 `gorm:"column:b"`
	B   int64 `gorm:"column:a"`
	C   int64 `gorm:"column:Dd"`
	D   int64 `gorm:"column:e_f"`
	E   int64 `gorm:"column:Id2"`
	E_F int64 `gorm:"column:z"`
	Z   int64 `gorm:"column:c9"`
	G   int64 `gorm:"column:H"`
	H   int64 `gorm:"column:h9"`
	K   int64 `gorm:"column:k9"`
	L   int64 `gorm:"column:K"`
	Mn  int64 `gorm:"column:Op"`
	Op  int64 `gorm:"column:Mn"`
}

// Folded has fields that differ in letter case only, one of them without column.
type Folded struct {
	ID  int64 `gorm:"primaryKey"`
	Ab  int64 `gorm:"-"`
	AB  int64 `gorm:"column:x1"`
	ABC int64 `gorm:"column:x2"`
	Abc int64 `gorm:"column:x3"`
	AbC int64 `gorm:"column:x4"`
	XY  int64 `gorm:"column:xy"`
	Xy  int64 `gorm:"column:x5"`
	X6  int64 `gorm:"column:ABc"`
}

type Inner struct {
	X   int64
	Two int64 `gorm:"column:zwei"`
}

type Base struct {
	ID    int64 `gorm:"primaryKey"`
	Stamp int64
}

// Embed has embedded, prefixed, ignored, unexported, read-only and relation fields.
type Embed struct {
	Base
	In         Inner `gorm:"embedded;embeddedPrefix:in_"`
	Hidden     int64 `gorm:"-"`
	HiddenAll  int64 `gorm:"-:all"`
	secret     int64
	UserName   int64
	URL        int64
	HTTPServer int64
	RO         int64 `gorm:"->"`
	WO         int64 `gorm:"<-:create"`
	BossID     int64
	Boss       *Folded `gorm:"foreignKey:BossID"`
	Chief      int64   `gorm:"column:Chef"`
	MoreID     int64
	More       *Swap `gorm:"foreignKey:MoreID"`
	Many       []Kid `gorm:"foreignKey:EmbedID"`
	Order      int64
	Not1       int64 `gorm:"column:not1"`
	Nullable   int64
}

// Keyed has a key that is not called ID and columns with names of SQL.
type Keyed struct {
	Key       int64 `gorm:"primaryKey;column:id"`
	Type      int64
	Name      int64
	Status    int64
	Count     int64
	Date      int64
	User      int64
	Group     int64
	Table     int64
	Index     int64
	Select    int64
	From      int64
	Where     int64
	CreatedAt int64
	UpdatedAt int64
	IsActive  int64
	Data      int64
	Value     int64
	HasEdge   int64
	Email     int64
	OwnerID   int64
	UserIDs   int64
	Limit     int64
	Default   int64
	URLPath   int64
	Tag1      int64
	Null1     int64
}

// Outer has an ID that is not the key.
type Outer struct {
	Code  int64 `gorm:"primaryKey;column:id"`
	ID    int64 `gorm:"column:ext_id"`
	RowID int64 `gorm:"column:row"`
	Uid   int64 `gorm:"column:code"`
}

// Typed has fields of all kinds of types and rights.
type Typed struct {
	ID      int64
	Shut    int64          `gorm:"->:false"`
	Seen    int64          `gorm:"->"`
	Fixed   int64          `gorm:"<-:false"`
	Made    int64          `gorm:"<-:update"`
	Moved   int64          `gorm:"-:migration"`
	List    []string       `gorm:"serializer:json"`
	Bag     map[string]any `gorm:"serializer:gob;column:sack"`
	Stamp   int64          `gorm:"serializer:unixtime;type:time"`
	At      time.Time
	Until   *time.Time
	Raw     []byte
	Flag    bool
	Ratio   float64
	Text    sql.NullString
	Opt     *string
	Small   uint8 `gorm:"size:8"`
	Kind    typedKind
	Cost    typedCost
	Dflt    int64 `gorm:"default:5"`
	Uniq    int64 `gorm:"unique;not null"`
	Idx     int64 `gorm:"index:idx_x,unique"`
	Auto    int64 `gorm:"autoCreateTime:milli"`
	Virtual int64 `gorm:"->;type:integer GENERATED ALWAYS AS (1)"`
	Note    int64 `gorm:"comment:a note;check:note > 1"`
	*TypedPart
	Part *TypedMore `gorm:"embedded;embeddedPrefix:p_"`
	Void any        `gorm:"-"`
	Func func()     `gorm:"-"`
}

type TypedPart struct{ Deep *int64 }

type TypedMore struct{ More *int64 }

type typedKind string

type typedCost struct{ n int64 }

func (c typedCost) Value() (driver.Value, error) { return c.n, nil }
func (c *typedCost) Scan(v any) error            { c.n, _ = v.(int64); return nil }

type Kid struct {
	ID      int64
	EmbedID int64
}

// nameModel lists the fields in order; Col "" is not stored.
type nameModel struct {
	table  string
	model  any
	fields [][2]string
	rels   map[string]string
}

var nameModels = map[string]*nameModel{
	"swap":   {table: "swaps", model: &Swap{}, fields: [][2]string{{"ID", "id"}, {"A", "b"}, {"B", "a"}, {"C", "Dd"}, {"D", "e_f"}, {"E", "Id2"}, {"E_F", "z"}, {"Z", "c9"}, {"G", "H"}, {"H", "h9"}, {"K", "k9"}, {"L", "K"}, {"Mn", "Op"}, {"Op", "Mn"}}},
	"keyed":  {table: "keyeds", model: &Keyed{}, fields: [][2]string{{"Key", "id"}, {"Type", "type"}, {"Name", "name"}, {"Status", "status"}, {"Count", "count"}, {"Date", "date"}, {"User", "user"}, {"Group", "group"}, {"Table", "table"}, {"Index", "index"}, {"Select", "select"}, {"From", "from"}, {"Where", "where"}, {"CreatedAt", "created_at"}, {"UpdatedAt", "updated_at"}, {"IsActive", "is_active"}, {"Data", "data"}, {"Value", "value"}, {"HasEdge", "has_edge"}, {"Email", "email"}, {"OwnerID", "owner_id"}, {"UserIDs", "user_ids"}, {"Limit", "limit"}, {"Default", "default"}, {"URLPath", "url_path"}, {"Tag1", "tag1"}, {"Null1", "null1"}}},
	"typed":  {table: "typeds", model: &Typed{}, fields: [][2]string{{"ID", "id"}, {"Shut", "shut"}, {"Seen", "seen"}, {"Fixed", "fixed"}, {"Made", "made"}, {"Moved", "moved"}, {"List", "list"}, {"Bag", "sack"}, {"Stamp", "stamp"}, {"At", "at"}, {"Until", "until"}, {"Raw", "raw"}, {"Flag", "flag"}, {"Ratio", "ratio"}, {"Text", "text"}, {"Opt", "opt"}, {"Small", "small"}, {"Kind", "kind"}, {"Cost", "cost"}, {"Dflt", "dflt"}, {"Uniq", "uniq"}, {"Idx", "idx"}, {"Auto", "auto"}, {"Virtual", "virtual"}, {"Note", "note"}, {"Deep", "deep"}, {"More", "p_more"}, {"Void", ""}, {"Func", ""}}},
	"outer":  {table: "outers", model: &Outer{}, fields: [][2]string{{"Code", "id"}, {"ID", "ext_id"}, {"RowID", "row"}, {"Uid", "code"}}},
	"folded": {table: "foldeds", model: &Folded{}, fields: [][2]string{{"ID", "id"}, {"Ab", ""}, {"AB", "x1"}, {"ABC", "x2"}, {"Abc", "x3"}, {"AbC", "x4"}, {"XY", "xy"}, {"Xy", "x5"}, {"X6", "ABc"}}},
	"embed": {table: "embeds", model: &Embed{}, fields: [][2]string{{"ID", "id"}, {"Stamp", "stamp"}, {"X", "in_x"}, {"Two", "in_zwei"}, {"Hidden", ""}, {"HiddenAll", ""}, {"UserName", "user_name"}, {"URL", "url"}, {"HTTPServer", "http_server"}, {"RO", "ro"}, {"WO", "wo"},
		{"BossID", "boss_id"}, {"Boss", ""}, {"Chief", "Chef"}, {"MoreID", "more_id"}, {"More", ""}, {"Many", ""}, {"Order", "order"}, {"Not1", "not1"}, {"Nullable", "nullable"}}, rels: map[string]string{"Boss": "folded", "More": "swap"}},
}

func (m *nameModel) resolve(name string) (string, bool) {
	for _, f := range m.fields {
		if f[1] == name {
			return f[1], true
		}
	}
	for _, f := range m.fields {
		if f[1] != "" && f[0] == name {
			return f[1], true
		}
	}
	for _, f := range m.fields {
		if f[1] != "" && strings.EqualFold(f[0], name) {
			return f[1], true
		}
	}
	return "", false
}

func (m *nameModel) columns() []string {
	var out []string
	for _, f := range m.fields {
		if f[1] != "" {
			out = append(out, f[1])
		}
	}
	return out
}

// rowOf is the row in which only this column is 1.
func rowOf(i int) int64 {
	if i == 0 { // id
		return 1
	}
	return int64(i + 10)
}

func getNames(w *run.W) *fixture {
	if f, ok := w.Local["names"]; ok {
		return f.(*fixture)
	}
	f := &fixture{}
	var err error
	if f.sql, err = openMemory(); err != nil {
		panic(err)
	}
	must := func(q string, a ...any) {
		if _, err := f.sql.Exec(q, a...); err != nil {
			panic(fmt.Sprintf("%s: %v", q, err))
		}
	}
	for _, m := range nameModels {
		cols := m.columns()
		must("create table " + m.table + ` ("` + strings.Join(cols, `" integer, "`) + `" integer)`)
		for i := range cols {
			args := []any{rowOf(i)}
			for j := range cols[1:] {
				v := int64(0)
				if j+1 == i {
					v = 1
				}
				args = append(args, v)
			}
			must("insert into "+m.table+" values (?"+strings.Repeat(",?", len(cols)-1)+")", args...)
		}
	}
	// embeds that only link to each row of the related tables, from 1000 and 2000
	for _, p := range []struct {
		from int
		col  string
		m    *nameModel
	}{{1000, "boss_id", nameModels["folded"]}, {2000, "more_id", nameModels["swap"]}} {
		for i := range p.m.columns() {
			must("insert into embeds (id, "+p.col+") values (?, ?)", p.from+i, rowOf(i))
		}
	}
	f.pool = &recorder{DB: f.sql}
	if f.g, err = openGorm(f.pool); err != nil {
		panic(err)
	}
	w.Local["names"] = f
	return f
}

const nameFirst = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const nameChars = nameFirst + "_0123456789"

// variants of a name: every letter case (up to 9 letters), every edit of one character.
func variants(n string, y func(string) bool) bool {
	if len(n) <= 9 {
		for _, c := range gen.Cases(n) {
			if !y(c) {
				return false
			}
		}
	}
	for i := 0; i <= len(n); i++ {
		if i < len(n) && !y(n[:i]+n[i+1:]) {
			return false
		}
		for _, c := range nameChars {
			if !y(n[:i]+string(c)+n[i:]) || i < len(n) && !y(n[:i]+string(c)+n[i+1:]) {
				return false
			}
		}
	}
	for _, s := range []string{strings.ToLower(n), strings.ToUpper(n), strings.ReplaceAll(n, "_", ""), n + "_id", n + "ID", "in_" + n, "in" + n, n + "s", n + n} {
		if !y(s) {
			return false
		}
	}
	return true
}

// A case is model \x1e dotted name.
func init() {
	register(&run.Check{ID: "C13", Case: c13Case, Explore: func(x *run.X) {
		keys := []string{"swap", "folded", "embed", "keyed", "outer", "typed"}
		x.Each("short names", func(y func(string) bool) {
			for _, k := range keys {
				for _, a := range nameFirst {
					if !y(k + "\x1e" + string(a)) {
						return
					}
					for _, b := range nameChars {
						if !y(k + "\x1e" + string(a) + string(b)) {
							return
						}
						if x.Thorough || strings.ContainsRune("abcdxyzABCDXYZ_i1", b) && strings.ContainsRune("abcdxyzABCDXYZi", a) {
							for _, c := range nameChars {
								if !y(k + "\x1e" + string(a) + string(b) + string(c)) {
									return
								}
							}
						}
					}
				}
			}
		})
		x.Each("variants", func(y func(string) bool) {
			for _, k := range keys {
				for _, f := range nameModels[k].fields {
					for _, n := range f[:] {
						if n != "" && !variants(n, func(v string) bool { return y(k + "\x1e" + v) }) {
							return
						}
					}
				}
				for _, n := range []string{"secret", "Secret", "Inner", "In", "Base", "base", "in", "embed", "EmbedID", "rowid", "oid", "_rowid_", "sqlite_master", "count", "Many", "DeletedAt", "nil", "Null", "orderby"} {
					if !y(k + "\x1e" + n) {
						return
					}
				}
				// names of the other models
				for _, o := range keys {
					for _, f := range nameModels[o].fields {
						if !y(k+"\x1e"+f[0]) || f[1] != "" && !y(k+"\x1e"+f[1]) {
							return
						}
					}
				}
			}
		})
		x.Each("vocabulary", func(y func(string) bool) {
			for _, k := range keys {
				for _, v := range gen.Vocabulary {
					if !y(k+"\x1e"+v) || !y(k+"\x1e"+v+".id") || k == "embed" && (!y(k+"\x1eBoss."+v) || !y(k+"\x1eMore."+v)) {
						return
					}
				}
			}
		})
		x.Each("relations", func(y func(string) bool) {
			var rels []string
			for _, r := range []string{"Boss", "More", "Many", "Base", "In", "Chief", "BossID"} {
				rels = append(rels, r)
			}
			seen := map[string]bool{}
			for _, r := range []string{"Boss", "More"} {
				variants(r, func(v string) bool { seen[v] = true; return true })
			}
			for v := range seen {
				rels = append(rels, v)
			}
			rels = append(rels, "folded", "foldeds", "swaps", "Folded", "embeds", "Embed", "x")
			sort.Strings(rels)
			for _, r := range rels {
				for _, f := range []string{"id", "ID", "AB", "a", "x1", "Dd", "zz"} {
					if !y("embed\x1e" + r + "." + f) {
						return
					}
				}
			}
		})
		x.Each("relation fields", func(y func(string) bool) {
			for r, k := range nameModels["embed"].rels {
				for _, f := range nameModels[k].fields {
					for _, n := range f[:] {
						if n != "" && !variants(n, func(v string) bool { return y("embed\x1e" + r + "." + v) }) {
							return
						}
					}
				}
				for _, f := range nameModels["embed"].fields {
					if !y("embed\x1e"+r+"."+f[0]) || f[1] != "" && !y("embed\x1e"+r+"."+f[1]) {
						return
					}
				}
			}
		})
		x.Each("two names", func(y func(string) bool) {
			for _, k := range keys {
				all := []string{"zz", "Id", "iD", "Ab", "aB"}
				add := func(before string, o *nameModel) {
					for _, f := range o.fields {
						for _, n := range f[:] {
							if n != "" {
								all = append(all, before+n, before+strings.ToLower(n), before+strings.ToUpper(n))
							}
						}
					}
				}
				add("", nameModels[k])
				if k == "embed" {
					for _, r := range []string{"Boss", "More"} {
						add(r+".", nameModels[nameModels[k].rels[r]])
					}
				}
				slices.Sort(all)
				all = slices.Compact(all)
				for _, a := range all {
					for _, b := range all {
						if !y(k + "\x1e" + a + "\x1f" + b) {
							return
						}
					}
				}
			}
		})
		x.Each("depth", func(y func(string) bool) {
			parts := []string{"Boss", "More", "id", "AB", "embeds", "x1", "Many"}
			for _, a := range parts {
				for _, b := range parts {
					for _, c := range parts {
						if !y("embed\x1e"+a+"."+b+"."+c) || !y("embed\x1e"+a+"."+b+"."+c+".id") || !y("folded\x1e"+a+"."+b) {
							return
						}
					}
				}
			}
		})
	}, Assumptions: []string{"SQLite compares column names without letter case, so the models have no columns that differ in case only"}})
}

// c13Rows are the rows that have a 1 in the column of the name, nil if there is none; it tells whether the name can be
// judged.
func c13Rows(k, name string) (want []int64, judged bool) {
	m := nameModels[k]
	parts := strings.Split(name, ".")
	r := ref.Parse(name + " = 1")
	if r.Tree == nil || r.Tree.T != ref.Cmp || r.Tree.L.T != ref.Ident && r.Tree.L.T != ref.Refr {
		return nil, false // not a name
	}
	if len(parts) == 2 && k == "embed" && parts[0] == "Many" {
		return nil, false // to-many relations are not part of the property
	}
	index := func(m *nameModel, n string) int {
		if col, ok := m.resolve(n); ok {
			for i, o := range m.columns() {
				if o == col {
					return i
				}
			}
		}
		return -1
	}
	switch len(parts) {
	case 1:
		if i := index(m, name); i >= 0 {
			want = []int64{rowOf(i)}
		}
	case 2:
		if o, ok := m.rels[parts[0]]; ok {
			if i := index(nameModels[o], parts[1]); i >= 0 {
				if i == 0 { // the row whose link is 1
					want = append(want, rowOf(index(m, parts[0]+"ID")))
				}
				want = append(want, int64(1000*map[string]int{"Boss": 1, "More": 2}[parts[0]]+i))
			}
		}
	}
	// rows that only link must not confuse the expectation
	if k == "embed" && len(parts) == 1 && want != nil {
		if col, _ := m.resolve(name); col == "boss_id" {
			want = append(want, 1000)
		} else if col == "more_id" {
			want = append(want, 2000)
		}
	}
	return want, true
}

func c13Case(w *run.W, c string) error {
	k, names, _ := strings.Cut(c, "\x1e")
	m := nameModels[k]
	f := getNames(w)
	name, second, two := strings.Cut(names, "\x1f")
	want, ok := c13Rows(k, name)
	if !ok {
		return nil
	}
	w.Distinct(c)
	queries := []string{name + " = 1", "1 in (2) or not " + name + " neq 1", "1=1 and " + name + " between 1 and 1"}
	if two {
		also, ok := c13Rows(k, second)
		if !ok {
			return nil
		}
		if want == nil || also == nil {
			want = nil
		} else {
			for _, id := range also {
				if !slices.Contains(want, id) {
					want = append(want, id)
				}
			}
			slices.Sort(want)
		}
		queries = []string{name + " = 1 or 1 = " + second}
	}
	for _, q := range queries {
		w.Trans(1)
		before := f.pool.sent.Load()
		var got []int64
		err := f.g.Model(m.model).Scopes(gormq.ApplyMiniQuery(q)).Pluck(m.table+".id", &got).Error
		if want == nil {
			if err == nil {
				return fmt.Errorf("%q names no column, but rows %v are selected (%v)", names, got, f.pool.last.Load())
			}
			if f.pool.sent.Load() != before {
				return fmt.Errorf("%q names no column, but %q is sent", names, f.pool.last.Load())
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("error %v, should use the column of row %v", err, want)
		}
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if !sameIDs(got, want) {
			return fmt.Errorf("%s selects rows %v, should be %v (%v)", q, got, want, f.pool.last.Load())
		}
	}
	return nil
}
