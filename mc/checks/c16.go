package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

var relAtoms = []string{
	"a=1", "Firm.a=1", "Card.a=0", "Parent.a=1", "Second.a!=1", "name='x'", "Firm.name='x'", "Firm.id is null", "Card.id is not null", "Firm.a=a", "Card.name=Firm.name", "Firm.Rank in (0,1)", "Card.lvl between 0 and 1", "firm_id is null", "Second.id=Firm.id", "Parent.name like 'x%'", "a is null", "Parent.firm_id=firm_id", "Card.a>=Second.a", "1=Firm.rank", "Firm.a is not true", "id<40",
}

var relTargets = []string{"Firm.a", "Firm.name", "Firm.id", "Firm.lvl", "Firm.Rank", "Second.A", "Second.Name", "Card.a", "Card.Rank", "Card.id", "Parent.a", "Parent.id", "Parent.firm_id", "a", "name", "firm_id", "FirmID", "id"}

// A case is mode \x1e queries separated by \x1f.
// Modes: one scope per query, a list, joined (the user joins Firm as well), direct, count, find.
func init() {
	register(&run.Check{ID: "C16", Case: c16Case, Explore: func(x *run.X) {
		modes := []string{"scopes", "list", "joined", "direct", "count", "find"}
		x.Each("conditions", func(y func(string) bool) {
			for _, t := range relTargets {
				for _, c := range []string{"=1", "!=1", "<1", "<=0", ">0", ">=1", "='x'", "!='x'", " in (0,1)", " not in (1)", " in ('x','y')", " between 0 and 1", " not between 1 and 2", " like 'x'", " not like 'x%'", " is null", " is not null", " is true", " is not false", "=null", " in (1,null)"} {
					for _, m := range modes {
						if !y(m+"\x1e"+t+c) || !y(m+"\x1enot "+t+c) {
							return
						}
					}
				}
				for _, u := range relTargets {
					for _, o := range []string{"=", "<>", "<", ">="} {
						if !y("scopes\x1e"+t+o+u) || !y("find\x1e"+t+o+u) {
							return
						}
					}
				}
			}
		})
		x.Each("dates", func(y func(string) bool) {
			for _, t := range []string{"Firm.name", "Second.Name", "Card.name", "Parent.name", "name"} {
				for _, d := range []string{"date(%s)", "date(%s,'+1 days')", "date(date(%s))", "date(%s,'start of month','-1 days')"} {
					d = fmt.Sprintf(d, t)
					for _, c := range []string{"='2020-01-02'", "!='2020-01-02'", ">='2020-01-01'", " in ('2020-01-02','2020-01-03')", " not in ('2019-12-31')", " between '2020-01-01' and '2020-01-02'", " is null", " is not null", " like '2020%'", "=" + t, "=Firm.name", " or a=1", " and Card.a=0"} {
						for _, m := range modes {
							if strings.HasPrefix(c, " or") || strings.HasPrefix(c, " and") {
								c = "='2020-01-02'" + c
							}
							if !y(m+"\x1e"+d+c) || !y(m+"\x1enot ("+d+c+")") || !y(m+"\x1e"+d+c+"\x1fFirm.a=0") {
								return
							}
						}
					}
				}
			}
		})
		x.Each("ways to declare a relation", hostQueries)
		x.Each("pairs", func(y func(string) bool) {
			for _, l := range relAtoms {
				for _, r := range relAtoms {
					for _, f := range []string{"%s and %s", "%s or %s", "not %s and %s", "%s or not %s", "not (%s or %s)", "not (%s and not (%s))"} {
						if !y("scopes\x1e" + fmt.Sprintf(f, l, r)) {
							return
						}
					}
					for _, m := range modes {
						if !y(m+"\x1e"+l+"\x1f"+r) || !y(m+"\x1e"+l+" or a=0\x1f"+r+" or name='x'") {
							return
						}
					}
				}
			}
		})
		x.Each("triples", func(y func(string) bool) {
			n := x.Bound(9, len(relAtoms))
			for _, a := range relAtoms[:n] {
				for _, b := range relAtoms[:n] {
					for _, c := range relAtoms[:n] {
						for _, f := range []string{"%s and %s or %s", "%s or %s and %s", "(%s or %s) and %s", "not (%s or %s and %s)"} {
							if !y("scopes\x1e" + fmt.Sprintf(f, a, b, c)) {
								return
							}
						}
						for _, m := range modes {
							if !y(m + "\x1e" + a + "\x1f" + b + "\x1f" + c) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("logic", func(y func(string) bool) {
			leaves := [][]string{{"Firm.a=1", "a=1", "Card.a=1", "Parent.a=1"}, {"name='x'", "Firm.name='x'", "Firm.a=1", "Card.id is null"}, {"Second.a=0", "Card.a in (0,1)", "a is null", "Firm.a=1"}}
			for _, l := range leaves[:x.Bound(2, 3)] {
				for k := 1; k <= x.Bound(3, 3); k++ {
					ok := true
					gen.Skeletons(k, func(i int) gen.E { return parsed(l[i]) }, func(e gen.E) bool {
						ok = y("scopes\x1e" + e.Text)
						return ok
					})
					if !ok {
						return
					}
				}
			}
			if x.Thorough {
				gen.Skeletons(4, func(i int) gen.E { return parsed(leaves[0][i]) }, func(e gen.E) bool { return y("scopes\x1e" + e.Text) })
			}
		})
		x.Each("sizes", func(y func(string) bool) {
			for n := 1; n <= x.Bound(60, 200); n++ {
				s := []string{}
				for i := 0; i < n; i++ {
					s = append(s, fmt.Sprintf("%s!=%d", []string{"Firm.a", "a", "Card.a", "Second.id", "Parent.id"}[i%5], i))
				}
				if !y("scopes\x1e"+strings.Join(s, " and ")) || !y("scopes\x1enot ("+strings.Join(s, " and ")+")") || !y("list\x1e"+strings.Join(s, "\x1f")) || !y("scopes\x1e"+strings.Join(s, "\x1f")) {
					return
				}
			}
		})
	}, Assumptions: []string{"SQLite decides the meaning of the SQL", "to-many relations are not covered"}})
}

func c16Case(w *run.W, c string) error {
	mode, rest, _ := strings.Cut(c, "\x1e")
	qs := strings.Split(rest, "\x1f")
	if m, ok := strings.CutPrefix(mode, "host "); ok {
		return hostCase(w, m, qs)
	}
	f := getRelFixture(w)
	in := make([]bool, len(f.rows))
	for i := range in {
		in[i] = true
	}
	rels := map[string]bool{}
	for _, q := range qs {
		t := ref.Parse(q).Tree
		if t == nil {
			return fmt.Errorf("not a query: the check is wrong")
		}
		w.Trans(size(t))
		vals, ok := ref.Rows(t, f.rows)
		if !ok {
			return fmt.Errorf("no reference value: the check is wrong")
		}
		for i, v := range vals {
			in[i] = in[i] && v == 1
		}
		t.Walk(func(n *ref.N) {
			if n.T == ref.Refr {
				rels[n.Names[0]] = true
			}
		})
	}
	var want []int64
	for i, b := range in {
		if b {
			want = append(want, int64(i+1))
		}
	}
	w.Distinct(mode + fmt.Sprint(want))
	tx := f.g.Model(&Person{})
	if mode == "joined" {
		tx = tx.Joins("Firm")
		rels["Firm"] = true
	}
	var got []int64
	var err error
	switch mode {
	case "list":
		tx = tx.Scopes(gormq.MiniQuery{Query: qs}.Scope)
	case "direct":
		for _, q := range qs {
			tx = gormq.WireMiniQuery(tx, q)
		}
	default:
		var ss []func(*gorm.DB) *gorm.DB
		for _, q := range qs {
			ss = append(ss, gormq.ApplyMiniQuery(q))
		}
		tx = tx.Scopes(ss...)
	}
	switch mode {
	case "count":
		var n int64
		if err = tx.Count(&n).Error; err == nil && n != int64(len(want)) {
			return fmt.Errorf("counts %d rows, should be %d; %v", n, len(want), f.pool.last.Load())
		}
		got = want
	case "find":
		var ps []Person
		err = tx.Find(&ps).Error
		for _, p := range ps {
			got = append(got, p.ID)
		}
	default:
		err = tx.Pluck("people.id", &got).Error
	}
	if err != nil {
		return fmt.Errorf("error %v; %v", err, f.pool.last.Load())
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	if !sameIDs(got, want) {
		return fmt.Errorf("%s; %v", f.diffIDs(got, want), f.pool.last.Load())
	}
	joins := 0
	for _, t := range sqlx.Tokens(f.pool.last.Load().(string)) {
		if t.Kind == sqlx.Word && t.S == "JOIN" {
			joins++
		}
	}
	if joins != len(rels) {
		return fmt.Errorf("%d joins for %d relations; %v", joins, len(rels), f.pool.last.Load())
	}
	return nil
}
