package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"

	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

// Guest is what most relations of Host lead to.
type Guest struct {
	ID   int64 `gorm:"primaryKey"`
	A    *int64
	Name *string
	Code *string
}

// Pic belongs to rows of any table.
type Pic struct {
	ID        int64 `gorm:"primaryKey"`
	A         *int64
	Name      *string
	OwnerID   int64
	OwnerType string
}

// Pair has a key of two columns.
type Pair struct {
	K1   int64 `gorm:"primaryKey;autoIncrement:false"`
	K2   int64 `gorm:"primaryKey;autoIncrement:false"`
	A    *int64
	Name *string
}

// Label is found by the code of its host.
type Label struct {
	ID       int64 `gorm:"primaryKey"`
	A        *int64
	Name     *string
	HostCode *string
}

// Far has a table of another name.
type Far struct {
	ID   int64   `gorm:"primaryKey;column:key"`
	A    *int64  `gorm:"column:first"`
	Name *string `gorm:"column:second"`
}

func (Far) TableName() string { return "a far-away table" }

type HostBase struct {
	SiteID *int64
	Site   *Guest
}

type HostInner struct {
	LodgeID *int64
	Lodge   *Guest
	HostDeep
}

type HostDeep struct {
	CellarID *int64
	Cellar   *Guest
}

// Host has to-one relations declared in every way.
type Host struct {
	ID   int64 `gorm:"primaryKey"`
	A    *int64
	Name *string
	HostBase
	Inner   HostInner `gorm:"embedded;embeddedPrefix:in_"`
	OrderID *int64
	Order   *Guest
	PlainID *int64
	Plain   Guest
	Boss    *int64 `gorm:"column:chef"`
	Chief   *Guest `gorm:"foreignKey:Boss"`
	Code    *string
	Coded   *Guest `gorm:"foreignKey:Code;references:Code"`
	Label   *Label `gorm:"foreignKey:HostCode;references:Code"`
	Pic     *Pic   `gorm:"polymorphic:Owner"`
	Icon    *Pic   `gorm:"polymorphic:Owner;polymorphicValue:icon"`
	P1      *int64
	P2      *int64
	Pair    *Pair `gorm:"foreignKey:P1,P2;references:K1,K2"`
	FarID   *int64
	Far     *Far
	A1ID    *int64
	A1      *Guest
	UpID    *int64
	Up      *Host `gorm:"foreignKey:UpID"`
	Down    *Host `gorm:"foreignKey:UpID"`
}

var hostRels = []string{"Site", "Lodge", "Cellar", "Order", "Plain", "Chief", "Coded", "Label", "Pic", "Icon", "Pair", "Far", "A1", "Up"}

// getHosts has for each relation a host for each related row and each own value, and hosts with two relations.
func getHosts(w *run.W) *fixture {
	if f, ok := w.Local["hosts"]; ok {
		return f.(*fixture)
	}
	f := &fixture{}
	var err error
	if f.sql, err = openMemory(); err != nil {
		panic(err)
	}
	must := func(q string, a ...any) {
		if _, err := f.sql.Exec(q, a...); err != nil {
			panic(fmt.Sprintf("%s: %v", q, err))
		}
	}
	must("create table hosts (id integer primary key, a integer, name text, site_id integer, in_lodge_id integer, in_cellar_id integer, order_id integer, plain_id integer, chef integer, code text, p1 integer, p2 integer, far_id integer, a1_id integer, up_id integer)")
	must("create table guests (id integer primary key, a integer, name text, code text)")
	must("create table labels (id integer primary key, a integer, name text, host_code text)")
	must("create table pics (id integer primary key, a integer, name text, owner_id integer, owner_type text)")
	must("create table pairs (k1 integer, k2 integer, a integer, name text, primary key (k1, k2))")
	must(`create table "a far-away table" (key integer primary key, first integer, second text)`)
	rows := []firmRow{{nil, nil, nil}, {"x", int64(0), nil}, {"y", int64(1), nil}, {"x", int64(1), nil}, {"2020-01-02", int64(0), nil}}
	for i, r := range rows {
		must("insert into guests values (?,?,?,?)", i+1, r.a, r.name, fmt.Sprint("g", i+1))
		must("insert into pairs values (?,?,?,?)", i%2+1, i/2+1, r.a, r.name)
		must(`insert into "a far-away table" values (?,?,?)`, i+1, r.a, r.name)
	}
	pics := 0
	pic := func(owner int, kind string, r firmRow) {
		pics++
		must("insert into pics values (?,?,?,?,?)", pics, r.a, r.name, owner, kind)
	}
	add := func(a, name any, to map[string]int) {
		id := len(f.rows) + 1
		code := any(nil)
		if n, ok := to["Coded"]; ok {
			code = fmt.Sprint("g", n)
		}
		if n, ok := to["Label"]; ok {
			if code == nil {
				code = fmt.Sprint("h", id)
			}
			must("insert into labels values (?,?,?,?)", id, rows[n-1].a, rows[n-1].name, code)
		}
		for _, k := range []string{"Pic", "Icon"} {
			kind := map[string]string{"Pic": "hosts", "Icon": "icon"}[k]
			if n, ok := to[k]; ok {
				pic(id, kind, rows[n-1])
			}
		}
		pic(id, "guests", rows[id%len(rows)]) // not for hosts
		fk := func(r string) any {
			if n, ok := to[r]; ok {
				return n
			}
			return nil
		}
		p1, p2 := any(nil), any(nil)
		if n, ok := to["Pair"]; ok {
			p1, p2 = (n-1)%2+1, (n-1)/2+1
		}
		must("insert into hosts values (?,?,?,?,?,?,?,?,?,?,?,?,?,?,?)", id, a, name, fk("Site"), fk("Lodge"), fk("Cellar"), fk("Order"), fk("Plain"), fk("Chief"), code, p1, p2, fk("Far"), fk("A1"), fk("Up"))
		env := ref.MapEnv{"id": {K: 'i', I: int64(id), Aff: 'i'}, "a": toV(a, 'i'), "name": toV(name, 's')}
		for _, r := range hostRels {
			row := firmRow{}
			if n, ok := to[r]; ok && n >= 1 && n <= len(rows) {
				row = rows[n-1]
				if r == "Up" {
					up := f.raw[n-1]
					row = firmRow{name: up["name"], a: up["a"]}
				}
			}
			env[r+".a"], env[r+".name"] = toV(row.a, 'i'), toV(row.name, 's')
		}
		f.rows = append(f.rows, env)
		f.raw = append(f.raw, map[string]any{"id": id, "a": a, "name": name, "to": fmt.Sprint(to)})
	}
	for _, a := range ints3 {
		for _, n := range []any{nil, "x"} {
			add(a, n, nil)
		}
	}
	for _, r := range hostRels {
		for _, a := range ints3 {
			for n := 1; n <= len(rows); n++ {
				add(a, "x", map[string]int{r: n})
			}
		}
		if !strings.Contains("Label Pic Icon Pair Up", r) {
			add(int64(1), "x", map[string]int{r: 9}) // none of the rows
		}
		for _, s := range hostRels {
			if r < s {
				for n := 1; n <= len(rows); n++ {
					for m := 1; m <= len(rows); m++ {
						if s != "Label" && r != "Label" || r != "Coded" && s != "Coded" {
							add(int64(n%2), []any{"x", "y"}[m%2], map[string]int{r: n, s: m})
						}
					}
				}
			}
		}
	}
	f.pool = &recorder{DB: f.sql}
	if f.g, err = openGorm(f.pool); err != nil {
		panic(err)
	}
	w.Local["hosts"] = f
	return f
}

func hostQueries(y func(string) bool) {
	for _, r := range hostRels {
		for _, c := range []string{".a=1", ".a!=1", ".a is null", ".a is not null", ".name='x'", ".A<1", ".Name like 'y%'", ".a in (0,null)", ".a not in (1)", ".a between 0 and 1", ".name is null", ".a is not true", ".a=a", ".name=name", ".A>=a", ".name in ('x','2020-01-02')"} {
			for _, m := range []string{"scopes", "list", "direct", "find", "count"} {
				if !y("host "+m+"\x1e"+r+c) || !y("host "+m+"\x1enot "+r+c+" or a=0") || !y("host "+m+"\x1ename='x'\x1f"+r+c+"\x1fa=1") {
					return
				}
			}
		}
		for _, c := range []string{"date(%s.name)='2020-01-02'", "date(%s.name,'+1 days')='2020-01-03'", "date(%s.name) is null", "date(%s.Name)=%[1]s.name", "not date(%s.name)!='2020-01-01'", "date(%s.name) in ('2020-01-02')", "date(%s.name) between '2020' and '2021' or %[1]s.a=1"} {
			if !y("host scopes\x1e"+fmt.Sprintf(c, r)) || !y("host find\x1e"+fmt.Sprintf(c, r)+"\x1fname='x'") {
				return
			}
		}
		for _, s := range hostRels {
			if r == s {
				continue
			}
			for _, q := range []string{"%s.a=1 and %s.name='x'", "%s.a=1 or %s.a is null", "%s.a=%s.a", "not (%s.a=1 or not %s.name='x')", "%s.name='x'\x1f%s.a=1", "a=1 and %s.a=1 or %s.a=0 and name='x'"} {
				if !y("host scopes\x1e"+fmt.Sprintf(q, r, s)) || !y("host find\x1e"+fmt.Sprintf(q, r, s)) || !y("host list\x1e"+fmt.Sprintf(q, r, s)) {
					return
				}
			}
			for _, t := range hostRels {
				if !y("host scopes\x1e" + fmt.Sprintf("%s.a is null and (%s.a=1 or not %s.name='x')", r, s, t)) {
					return
				}
			}
		}
	}
	var all []string
	for i, r := range hostRels {
		all = append(all, fmt.Sprintf("%s.a=%d", r, i%2))
		if !y("host scopes\x1e"+strings.Join(all, " or ")) || !y("host find\x1enot ("+strings.Join(all, " or ")+")") {
			return
		}
	}
}

func hostCase(w *run.W, mode string, qs []string) error {
	f := getHosts(w)
	in := make([]bool, len(f.rows))
	for i := range in {
		in[i] = true
	}
	rels := map[string]bool{}
	for _, q := range qs {
		t := ref.Parse(q).Tree
		if t == nil {
			return fmt.Errorf("not a query: the check is wrong")
		}
		w.Trans(size(t))
		t = lowered(t)
		vals, ok := ref.Rows(t, f.rows)
		if !ok {
			return fmt.Errorf("no reference value: the check is wrong")
		}
		for i, v := range vals {
			in[i] = in[i] && v == 1
		}
		t.Walk(func(n *ref.N) {
			if n.T == ref.Refr {
				rels[n.Names[0]] = true
			}
		})
	}
	var want []int64
	for i, b := range in {
		if b {
			want = append(want, int64(i+1))
		}
	}
	w.Distinct("host" + fmt.Sprint(want))
	tx := f.g.Model(&Host{})
	switch mode {
	case "list":
		tx = tx.Scopes(gormq.MiniQuery{Query: qs}.Scope)
	case "direct":
		for _, q := range qs {
			tx = gormq.WireMiniQuery(tx, q)
		}
	default:
		var ss []func(*gorm.DB) *gorm.DB
		for _, q := range qs {
			ss = append(ss, gormq.ApplyMiniQuery(q))
		}
		tx = tx.Scopes(ss...)
	}
	var got []int64
	var err error
	switch mode {
	case "count":
		var n int64
		if err = tx.Count(&n).Error; err == nil && n != int64(len(want)) {
			return fmt.Errorf("counts %d rows, should be %d; %v", n, len(want), f.pool.last.Load())
		}
		got = want
	case "find":
		var hs []Host
		err = tx.Find(&hs).Error
		for _, h := range hs {
			got = append(got, h.ID)
		}
	default:
		err = tx.Pluck("hosts.id", &got).Error
	}
	if err != nil {
		return fmt.Errorf("error %v; %v", err, f.pool.last.Load())
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	if !sameIDs(got, want) {
		return fmt.Errorf("%s; %v", f.diffIDs(got, want), f.pool.last.Load())
	}
	joins := 0
	for _, t := range sqlx.Tokens(f.pool.last.Load().(string)) {
		if t.Kind == sqlx.Word && t.S == "JOIN" {
			joins++
		}
	}
	if joins != len(rels) {
		return fmt.Errorf("%d joins for %d relations; %v", joins, len(rels), f.pool.last.Load())
	}
	return nil
}

// lowered has the names of the columns for the names of the fields.
func lowered(t *ref.N) *ref.N {
	t.Walk(func(n *ref.N) {
		if n.T == ref.Refr {
			n.Names[1] = strings.ToLower(n.Names[1])
		}
	})
	return t
}
