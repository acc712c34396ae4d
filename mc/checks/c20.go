package checks

import (
	"fmt"
	"strings"

	"entgo.io/ent/dialect"
	entsql "entgo.io/ent/dialect/sql"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

var edgeConds = []string{"a=1", "a=1 or name='x'", "not a=1", "a is null", "name='x' and a=0", "a in (0,1)", "a between 0 and 1", "name like 'x%' or a is null and @>0", "(a=0 or a=1) and not name='x'", "@<9", "1=1", "a=0 or a=1 or name='y'", "not (a=1 or name is null)", "name is not null"}

// tables in another schema
var farTables = []string{"users,pets,groups,cards,group_users,user_following", "users", "pets,cards", "groups,group_users", "group_users,user_following", "groups,users,user_following"}

// A case is node type \x1e query, or node type \x1e query \x1e tables in another schema.
func init() {
	register(&run.Check{ID: "C20", Case: c20Case, Explore: func(x *run.X) {
		types := []string{"user", "pet", "group", "card"}
		x.Each("one edge", func(y func(string) bool) {
			for _, t := range types {
				for _, e := range edgesOf(t) {
					exprs := []string{"has_edge(" + e.name + ")"}
					for _, c := range edgeConds {
						exprs = append(exprs, "has_edge("+e.name+","+strings.ReplaceAll(c, "@", idColumns[e.to])+")")
					}
					for _, h := range exprs {
						for _, f := range []string{"%s", "not %s", "(%s)", "not (%s)", "a=1 and %s", "%s or a=0", "a=1 or %s and name='x'", "not %s or not a=1", "(%s or a=1) and a in (0,1)", "a=0 or a=1 and not %s", "%s and a between 0 and 1", "%s = 1", "1 = 1 and %s and 2 = 2", "(not %s) is not null"} {
							if !y(t + "\x1e" + fmt.Sprintf(f, h)) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("names of edges", func(y func(string) bool) {
			for _, e := range edgeAliases {
				for _, h := range []string{"has_edge(" + e.name + ")", "has_edge(" + e.name + ",a=1)", "has_edge(" + e.name + ",a=1 or name='x')", "has_edge(" + e.name + ",has_edge(" + e.name + "))", "has_edge(" + e.name + ") or has_edge(pets,a=0)"} {
					if strings.Count(h, e.name) > 1 && e.to != "user" {
						continue
					}
					for _, f := range []string{"%s", "not %s", "a=1 and %s or name='x'"} {
						if !y("user\x1e" + fmt.Sprintf(f, h)) {
							return
						}
					}
				}
			}
		})
		x.Each("other schemas", func(y func(string) bool) {
			for _, far := range farTables[:x.Bound(4, len(farTables))] {
				for _, t := range types {
					for _, e := range edgesOf(t) {
						for _, h := range []string{"has_edge(" + e.name + ")", "has_edge(" + e.name + ",a=1)", "has_edge(" + e.name + ",a=1 or name='x')", "has_edge(" + e.name + ",not a is null)"} {
							for _, f := range []string{"%s", "not %s", "a=1 and (%s or name='x')"} {
								if !y(t + "\x1e" + fmt.Sprintf(f, h) + "\x1e" + far) {
									return
								}
							}
						}
						for _, o := range edgesOf(e.to) {
							for _, q := range []string{"has_edge(" + e.name + ",has_edge(" + o.name + "))", "has_edge(" + e.name + ",a=0 or has_edge(" + o.name + ",a=1))"} {
								if !y(t + "\x1e" + q + "\x1e" + far) {
									return
								}
							}
						}
					}
				}
			}
		})
		x.Each("two edges", func(y func(string) bool) {
			for _, t := range types {
				for _, e := range edgesOf(t) {
					for _, o := range edgesOf(t) {
						for i, c := range []string{"", ",a=1", ",a=0 or name='x'"} {
							for j, d := range []string{"", ",a=0", ",not a=1 or name='y'"} {
								if !x.Thorough && i+j > 2 {
									continue
								}
								for _, f := range []string{"%s and %s", "%s or %s", "%s and not %s", "not %s or %s", "not (%s or %s)", "a=1 and %s or %s", "(a=1 or %s) and %s"} {
									if !y(t + "\x1e" + fmt.Sprintf(f, "has_edge("+e.name+c+")", "has_edge("+o.name+d+")")) {
										return
									}
								}
							}
						}
					}
				}
			}
		})
		x.Each("nested", func(y func(string) bool) {
			for _, t := range types {
				for _, e := range edgesOf(t) {
					for _, o := range edgesOf(e.to) {
						inner := []string{"has_edge(" + o.name + ")"}
						for _, c := range edgeConds[:x.Bound(3, len(edgeConds))] {
							inner = append(inner, "has_edge("+o.name+","+strings.ReplaceAll(c, "@", idColumns[o.to])+")")
						}
						for _, in := range inner {
							for _, f := range []string{"has_edge(%s,%s)", "not has_edge(%s,%s)", "has_edge(%s,not %s)", "has_edge(%s,a=1 and %s)", "has_edge(%s,%s or a=0)", "a=1 or has_edge(%s,not (%s or name='x')) and a is not null", "not has_edge(%s,not (%s))"} {
								if !y(t + "\x1e" + fmt.Sprintf(f, e.name, in)) {
									return
								}
							}
						}
					}
				}
			}
		})
		x.Each("two nested", func(y func(string) bool) {
			for _, t := range types {
				for _, e := range edgesOf(t) {
					for _, o := range edgesOf(e.to) {
						for _, p := range edgesOf(e.to) {
							for _, f := range []string{"has_edge(%s,has_edge(%s,a=1) and not has_edge(%s))", "has_edge(%s,has_edge(%s) or has_edge(%s,a=0 or name='x'))"} {
								if !y(t + "\x1e" + fmt.Sprintf(f, e.name, o.name, p.name)) {
									return
								}
							}
						}
					}
				}
			}
		})
		x.Each("three levels", func(y func(string) bool) {
			for _, t := range types {
				for _, e := range edgesOf(t) {
					for _, o := range edgesOf(e.to) {
						for _, p := range edgesOf(o.to) {
							for _, f := range []string{"has_edge(%s,has_edge(%s,has_edge(%s,a=1 or name='x')))", "has_edge(%s,a=1 or not has_edge(%s,not has_edge(%s)))", "not has_edge(%s,has_edge(%s,a=0 and has_edge(%s,a=1)) or a is null)"}[:x.Bound(2, 3)] {
								if !y(t + "\x1e" + fmt.Sprintf(f, e.name, o.name, p.name)) {
									return
								}
							}
						}
					}
				}
			}
		})
		x.Each("deep", func(y func(string) bool) {
			self := []string{"children", "parent", "following", "followers", "next", "prev"}
			for n := 1; n <= x.Bound(3, 5); n++ {
				total := 1
				for i := 0; i < n; i++ {
					total *= len(self)
				}
				for v := 0; v < total; v++ {
					q, u := "a=1", v
					q2 := ""
					for i := 0; i < n; i++ {
						q = "has_edge(" + self[u%len(self)] + "," + q + ")"
						if i == 0 {
							q2 = "has_edge(" + self[u%len(self)] + ")"
						} else {
							q2 = "has_edge(" + self[u%len(self)] + "," + q2 + " or a=0)"
						}
						u /= len(self)
					}
					if !y("user\x1e"+q) || !y("user\x1e"+q2) {
						return
					}
				}
			}
			for n := 1; n <= x.Bound(6, 7); n++ { // one edge in itself
				for _, e := range self {
					if !y("user\x1e" + strings.Repeat("has_edge("+e+",a=1 or ", n) + "name='x'" + strings.Repeat(")", n)) {
						return
					}
				}
			}
		})
	}, Assumptions: []string{"columns of a condition exist in the table the edge leads to and not in a join table", "foreign keys point to existing rows", "SQLite decides the meaning of the SQL"}})
}

func c20Case(w *run.W, c string) error {
	t, q, _ := strings.Cut(c, "\x1e")
	q, far, _ := strings.Cut(q, "\x1e")
	g := getWorldAt(w, far)
	tree := ref.Parse(q).Tree
	if tree == nil {
		return fmt.Errorf("not a query: the check is wrong")
	}
	want := g.expect(t, tree)
	w.Distinct(t + fmt.Sprint(want))
	w.Trans(size(tree))
	node := schemaNode(g.graph, t)
	from := `"` + nodeTables[t] + `"`
	if node.Schema != "" {
		from = `"` + node.Schema + `".` + from
	}
	done := map[string]bool{}
	ds := dialects
	if far != "" {
		ds = []string{dialect.Postgres, dialect.MySQL} // ent writes no schemas for SQLite
	}
	for _, d := range ds {
		for _, way := range append([]string{"selector"}, ways...) {
			if way != "selector" && d != ds[0] {
				continue
			}
			var text string
			var args []any
			if way == "selector" {
				mb := &entmq.MiniQLToEntSQLBuilder{Node: node, QueryString: q}
				s := entsql.Dialect(d).Select(idColumns[t]).From(entsql.Table(nodeTables[t]).Schema(node.Schema)).Where(entsql.P(func(b *entsql.Builder) { b.Join(mb) }))
				text, args = s.Query()
				if s.Err() != nil || mb.Err() != nil {
					return fmt.Errorf("%s %s: error %v %v", d, way, s.Err(), mb.Err())
				}
			} else {
				var err error
				if text, args, err = entSQL(q, d, way, node, false); err != nil {
					return fmt.Errorf("%s %s: error %v", d, way, err)
				}
				text = `SELECT "` + idColumns[t] + `" FROM ` + from + ` WHERE ` + text
			}
			lite, err := sqlx.Lite(text)
			if err != nil {
				return fmt.Errorf("%s %s: %v", d, way, err)
			}
			args = plains(args)
			key := lite + "\x00" + fmt.Sprintf("%#v", args)
			if done[key] {
				continue
			}
			done[key] = true
			got, err := ids(g.sql, lite, args...)
			if err != nil {
				return fmt.Errorf("%s %s: %v", d, way, err)
			}
			if !sameIDs(got, want) {
				return fmt.Errorf("%s %s: selects %s; %s", d, way, g.diff(t, got, want), text)
			}
		}
	}
	return nil
}

// diff describes a node that is selected wrongly.
func (g *world) diff(t string, got, want []int64) string {
	has := func(s []int64, v int64) bool {
		for _, x := range s {
			if x == v {
				return true
			}
		}
		return false
	}
	show := func(id int64) string {
		s := fmt.Sprintf("%s %d %v", t, id, g.rows[t][id-1])
		for _, e := range edgesOf(t) {
			for _, n := range g.neighbours(e, id) {
				s += fmt.Sprintf(" %s->%d %v", e.name, n, g.rows[e.to][n-1])
			}
		}
		return s
	}
	for _, id := range got {
		if !has(want, id) {
			return fmt.Sprintf("%s, which does not satisfy it (%d rows, should be %d)", show(id), len(got), len(want))
		}
	}
	for _, id := range want {
		if !has(got, id) {
			return fmt.Sprintf("not %s, which satisfies it (%d rows, should be %d)", show(id), len(got), len(want))
		}
	}
	return "rows twice"
}
