package checks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	entsql "entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

// cond is a condition of a statement: a query, a predicate of ent, or both combined by ent.
type cond struct {
	Op string `json:"o,omitempty"` // "" query, "p" predicate of ent, "and", "or", "not"
	Q  string `json:"q,omitempty"`
	K  []cond `json:"k,omitempty"`
}

type statement struct {
	Kind  string `json:"s"`
	Steps []cond `json:"w"`
	Mods  string `json:"m,omitempty"` // per step: '.' where, 'o' after Or(), 'n' after Not()
}

// predicates of ent with the query they mean.
var entPreds = map[string]func() *entsql.Predicate{
	"c=1":            func() *entsql.Predicate { return entsql.EQ("c", 1) },
	"(a=0 or c=0)":   func() *entsql.Predicate { return entsql.Or(entsql.EQ("a", 0), entsql.EQ("c", 0)) },
	"not b=1":        func() *entsql.Predicate { return entsql.Not(entsql.EQ("b", 1)) },
	"b is null":      func() *entsql.Predicate { return entsql.IsNull("b") },
	"(a=1 and b=0)":  func() *entsql.Predicate { return entsql.And(entsql.EQ("a", 1), entsql.EQ("b", 0)) },
	"a in (0,1)":     func() *entsql.Predicate { return entsql.In("a", 0, 1) },
	"name='x'":       func() *entsql.Predicate { return entsql.EQ("name", "x") },
	"a=1":            func() *entsql.Predicate { return entsql.EQ("a", 1) },
	"(a=1 or id<50)": func() *entsql.Predicate { return entsql.Or(entsql.EQ("a", 1), entsql.LT("id", 50)) },
}

func (c cond) tree() *ref.N {
	switch c.Op {
	case "", "p":
		return ref.ParN(ref.Parse(c.Q).Tree)
	case "not":
		return ref.ParN(ref.NotN(c.K[0].tree()))
	}
	t := c.K[0].tree()
	for _, k := range c.K[1:] {
		t = ref.LogN(t, c.Op, k.tree())
	}
	return ref.ParN(t)
}

func (c cond) pred(node *sqlgraph.Node, all *[]*entmq.MiniQLToEntSQLBuilder) *entsql.Predicate {
	switch c.Op {
	case "":
		mb := &entmq.MiniQLToEntSQLBuilder{QueryString: c.Q, Node: node}
		*all = append(*all, mb)
		return entsql.P(func(b *entsql.Builder) { b.Join(mb) })
	case "p":
		return entPreds[c.Q]()
	case "not":
		return entsql.Not(c.K[0].pred(node, all))
	}
	var ps []*entsql.Predicate
	for _, k := range c.K {
		ps = append(ps, k.pred(node, all))
	}
	if c.Op == "or" {
		return entsql.Or(ps...)
	}
	return entsql.And(ps...)
}

// tree of all conditions of the statement.
func (s statement) tree() *ref.N {
	var t *ref.N
	for i, c := range s.Steps {
		k := c.tree()
		m := byte('.')
		if i < len(s.Mods) {
			m = s.Mods[i]
		}
		if m == 'n' {
			k = ref.ParN(ref.NotN(k))
		}
		switch {
		case t == nil:
			t = k
		case m == 'o':
			t = ref.ParN(ref.LogN(t, "or", k))
		default:
			t = ref.ParN(ref.LogN(t, "and", k))
		}
	}
	return t
}

func queryConds(qs ...string) (out []cond) {
	for _, q := range qs {
		out = append(out, cond{Q: q})
	}
	return
}

func init() {
	register(&run.Check{ID: "C22", Case: c22Case, Explore: func(x *run.X) {
		emit := func(y func(string) bool, s statement) bool {
			b, _ := json.Marshal(s)
			return y(string(b))
		}
		queries := queryConds("a=1", "a=1 or b=0", "not a=1", "a between 0 and 1", "not a between 1 and 1", "a=1 and b=0 or c=0", "(a=1 or b=0)", "a is null", "b in (0,1) or c is null", "not (a=1 or b=1)", "a=1 and (b=0 or c=1)", "1=0 or a=0 or b=1 and c=1", "not a=1 or not b=0", "true", "a=0 and b between 0 and 0", "c between 1 and 1 or a is not null")
		leaves := append([]cond{}, queries...)
		for _, p := range []string{"c=1", "(a=0 or c=0)", "not b=1", "b is null", "(a=1 and b=0)", "a in (0,1)"} {
			leaves = append(leaves, cond{Op: "p", Q: p})
		}
		kinds := []string{"select", "delete", "update", "in", "having", "count", "not in"}
		x.Each("one and two conditions", func(y func(string) bool) {
			for _, k := range kinds {
				for _, a := range leaves {
					for _, m := range []string{".", "n"} {
						if m != "." && (k == "delete" || k == "update" || k == "having") {
							continue
						}
						if !emit(y, statement{Kind: k, Steps: []cond{a}, Mods: m}) {
							return
						}
						for _, b := range leaves {
							for _, n := range []string{".", "o", "n"} {
								if n != "." && (k == "delete" || k == "update" || k == "having") {
									continue
								}
								if !emit(y, statement{Kind: k, Steps: []cond{a, b}, Mods: m + n}) {
									return
								}
							}
						}
					}
				}
			}
		})
		combos := func(list []cond, f func(c cond) bool) bool {
			for _, a := range list {
				if !f(cond{Op: "not", K: []cond{a}}) {
					return false
				}
				for _, b := range list {
					if !f(cond{Op: "or", K: []cond{a, b}}) || !f(cond{Op: "and", K: []cond{a, b}}) || !f(cond{Op: "not", K: []cond{{Op: "or", K: []cond{a, b}}}}) || !f(cond{Op: "or", K: []cond{{Op: "not", K: []cond{a}}, b}}) || !f(cond{Op: "and", K: []cond{a, {Op: "not", K: []cond{b}}}}) {
						return false
					}
				}
			}
			return true
		}
		x.Each("combined by ent", func(y func(string) bool) {
			combos(leaves, func(c cond) bool {
				for _, k := range kinds {
					if !emit(y, statement{Kind: k, Steps: []cond{c}}) {
						return false
					}
				}
				for _, l := range leaves[:x.Bound(6, len(leaves))] {
					if !emit(y, statement{Kind: "select", Steps: []cond{l, c}}) || !emit(y, statement{Kind: "select", Steps: []cond{c, l}}) || !emit(y, statement{Kind: "select", Steps: []cond{c, l}, Mods: ".o"}) {
						return false
					}
				}
				return true
			})
		})
		x.Each("three conditions", func(y func(string) bool) {
			for _, a := range leaves {
				for _, b := range leaves {
					for _, c := range leaves {
						for _, m := range []string{"...", "..o", ".o.", ".oo", "n..", ".n.", "..n"}[:x.Bound(4, 7)] {
							if !emit(y, statement{Kind: "select", Steps: []cond{a, b, c}, Mods: m}) {
								return
							}
						}
						if !emit(y, statement{Kind: "select", Steps: []cond{{Op: "or", K: []cond{a, b, c}}}}) || !emit(y, statement{Kind: "select", Steps: []cond{{Op: "or", K: []cond{{Op: "and", K: []cond{a, b}}, c}}}}) || !emit(y, statement{Kind: "select", Steps: []cond{{Op: "and", K: []cond{{Op: "or", K: []cond{a, b}}, c}}}}) {
							return
						}
					}
				}
			}
		})
		small := x.Bound(5, 9)
		x.Each("four conditions", func(y func(string) bool) {
			l := leaves[:small]
			for _, a := range l {
				for _, b := range l {
					for _, c := range l {
						for _, d := range l {
							for v := 0; v < 27; v++ {
								m := "." + string(".on"[v%3]) + string(".on"[v/3%3]) + string(".on"[v/9])
								if !emit(y, statement{Kind: "select", Steps: []cond{a, b, c, d}, Mods: m}) {
									return
								}
							}
						}
					}
				}
			}
		})
		x.Each("logic", func(y func(string) bool) {
			names := []string{"a=1", "b=0", "c=1"}
			for k := 1; k <= 3; k++ {
				ok := true
				gen.Skeletons(k, func(i int) gen.E { return gen.E{Text: names[i], Tree: ref.Parse(names[i]).Tree} }, func(e gen.E) bool {
					c := cond{Q: e.Text}
					p := cond{Op: "p", Q: "(a=0 or c=0)"}
					ok = emit(y, statement{Kind: "select", Steps: []cond{p, c}}) && emit(y, statement{Kind: "select", Steps: []cond{c, p}}) && emit(y, statement{Kind: "select", Steps: []cond{c, c}}) &&
						emit(y, statement{Kind: "select", Steps: []cond{{Op: "not", K: []cond{c}}}}) && emit(y, statement{Kind: "delete", Steps: []cond{p, c}}) && emit(y, statement{Kind: "select", Steps: []cond{c, p}, Mods: ".o"}) && emit(y, statement{Kind: "select", Steps: []cond{p, c}, Mods: ".n"})
					return ok
				})
				if !ok {
					return
				}
			}
		})
		x.Each("long queries", func(y func(string) bool) {
			p := cond{Op: "p", Q: "(a=0 or c=0)"}
			for n := 1; n <= x.Bound(60, 300); n++ {
				rep := func(s string) string { return strings.Repeat(s, n) }
				for _, c := range queryConds(rep("a=2 or ")+"b=1", rep("a=2 and ")+"a=2 or b=1", "b=1"+rep(" or a=2"), "a=1"+rep(" and a=1")+" or b=1", rep("not a=1 or ")+"b=1 and a=0", "a in ("+rep("2,")+"1) or b=1", "(a=2"+rep(" or a=2")+") or b=1") {
					for _, k := range []string{"select", "delete", "update"} {
						if !emit(y, statement{Kind: k, Steps: []cond{p, c}}) || !emit(y, statement{Kind: k, Steps: []cond{c, p}}) {
							return
						}
					}
					if !emit(y, statement{Kind: "select", Steps: []cond{{Op: "not", K: []cond{c}}}}) || !emit(y, statement{Kind: "select", Steps: []cond{{Op: "or", K: []cond{{Op: "and", K: []cond{p, c}}, p}}}}) {
						return
					}
				}
			}
		})
		x.Each("edges", func(y func(string) bool) {
			gs := queryConds("has_edge(pets)", "has_edge(pets,a=1 or name='x')", "not has_edge(groups,a=0)", "has_edge(children,a=1) or a=0", "a=1 and has_edge(following,has_edge(pets,a=1))", "has_edge(parent,not a=1)", "has_edge(card) or has_edge(next,name='x' or a=0)")
			for _, p := range []string{"name='x'", "a=1", "(a=1 or id<50)"} {
				gs = append(gs, cond{Op: "p", Q: p})
			}
			for _, a := range gs {
				for _, b := range gs {
					for _, m := range []string{"..", ".o", ".n", "n."} {
						if !emit(y, statement{Kind: "users", Steps: []cond{a, b}, Mods: m}) {
							return
						}
					}
					if !emit(y, statement{Kind: "users", Steps: []cond{{Op: "or", K: []cond{a, b}}}}) || !emit(y, statement{Kind: "users", Steps: []cond{{Op: "not", K: []cond{{Op: "and", K: []cond{a, b}}}}}}) {
						return
					}
					if x.Thorough {
						for _, c := range gs {
							if !emit(y, statement{Kind: "users", Steps: []cond{a, b, c}}) || !emit(y, statement{Kind: "users", Steps: []cond{a, b, c}, Mods: "..o"}) {
								return
							}
						}
					}
				}
			}
		})
	}, Assumptions: []string{"SQLite decides the meaning of the SQL", "ent's own predicates and combinators are trusted"}})
}

func c22Case(w *run.W, c string) error {
	var s statement
	if err := json.Unmarshal([]byte(c), &s); err != nil {
		return err
	}
	f := getFixture(w, "logic3")
	var want []int64
	var node *sqlgraph.Node
	table := "things"
	if s.Kind == "users" {
		g := getWorld(w)
		want = g.expect("user", s.tree())
		node, table = schemaNode(g.graph, "user"), "users"
	} else {
		var err error
		if want, err = f.expect(s.tree(), nil); err != nil {
			return err
		}
	}
	w.Distinct(s.Kind + fmt.Sprint(want))
	done := map[string]bool{}
	for _, d := range dialects {
		var all []*entmq.MiniQLToEntSQLBuilder
		var text string
		var args []any
		var err error
		ds := entsql.Dialect(d)
		sel := func(cols ...string) *entsql.Selector {
			q := ds.Select(cols...).From(entsql.Table(table))
			for i, c := range s.Steps {
				if i < len(s.Mods) {
					switch s.Mods[i] {
					case 'o':
						q.Or()
					case 'n':
						q.Not()
					}
				}
				q.Where(c.pred(node, &all))
			}
			return q
		}
		merged := func() *entsql.Predicate {
			var ps []*entsql.Predicate
			for _, c := range s.Steps {
				ps = append(ps, c.pred(node, &all))
			}
			return entsql.And(ps...)
		}
		want := want
		switch s.Kind {
		case "select", "users":
			q := sel("id")
			text, args = q.Query()
			err = q.Err()
		case "count":
			q := sel(entsql.Count("*"))
			text, args = q.Query()
			err = q.Err()
			want = []int64{int64(len(want))}
		case "in", "not in":
			in := entsql.In("id", sel("id"))
			if s.Kind == "not in" {
				in = entsql.NotIn("id", sel("id"))
				var rest []int64
				for i := range f.rows {
					if !hasID(want, int64(i+1)) {
						rest = append(rest, int64(i+1))
					}
				}
				want = rest
			}
			q := ds.Select("id").From(entsql.Table(table)).Where(entsql.GT("id", -5)).Where(in)
			text, args = q.Query()
			err = q.Err()
		case "having":
			q := ds.Select("id").From(entsql.Table(table)).Where(entsql.GT("id", -5)).GroupBy("id").Having(merged())
			text, args = q.Query()
			err = q.Err()
		case "delete":
			q := ds.Delete(table)
			for _, c := range s.Steps {
				q.Where(c.pred(node, &all))
			}
			text, args = q.Query()
			err = q.Err()
		case "update":
			q := ds.Update(table).Set("c", 1).Set("b", 2)
			for _, c := range s.Steps {
				q.Where(c.pred(node, &all))
			}
			text, args = q.Query()
			err = q.Err()
		}
		if err != nil {
			return fmt.Errorf("%s: error %v", d, err)
		}
		for _, mb := range all {
			if mb.Err() != nil {
				return fmt.Errorf("%s: error %v in %q", d, mb.Err(), mb.QueryString)
			}
		}
		w.Trans(len(s.Steps))
		lite, err := sqlx.Lite(text)
		if err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
		args = plains(args)
		key := lite + "\x00" + fmt.Sprintf("%#v", args)
		if done[key] {
			continue
		}
		done[key] = true
		var got []int64
		switch s.Kind {
		case "delete", "update":
			if _, err := f.sql.Exec("begin"); err != nil {
				return err
			}
			got, err = ids(f.sql, lite+" returning id", args...)
			if _, e := f.sql.Exec("rollback"); e != nil {
				return e
			}
		case "users":
			got, err = ids(getWorld(w).sql, lite, args...)
		default:
			got, err = ids(f.sql, lite, args...)
		}
		if err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if !sameIDs(got, want) {
			return fmt.Errorf("%s: %v, should be %v; %s", d, short(got), short(want), text)
		}
	}
	return nil
}

func hasID(s []int64, v int64) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func short(s []int64) string {
	if len(s) > 20 {
		return fmt.Sprintf("%v and %d more", s[:20], len(s)-20)
	}
	return fmt.Sprint(s)
}
