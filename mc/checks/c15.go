package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

var stepConds = []string{"a=1", "a=1 or b=1", "not (s='x' and f=true)", "b is null or not a=0", "s like 'x%' or f=false and b=1", "a in (0,1)", "a between 0 and 0 or s is null", "a=1 and b=1 or s='x'", "not a=1", "", "(a=0 or b=0)", "a=1 or b=1 or s is null"}

var stepKinds = []string{"query", "wire", "list", "raw", "group", "not", "scope", "args"}

var escapes = []string{"a=1) or (1=1", "a=1) or (b=1 or (a=2", "(a=1", "b=1)", "a=1 or", "and b=1", "s='x", "y'", "a in (1", "2)", "a between 1", "--", "a=1 --", "1=1) or 1=1 --\n", "a=1 or (b=1", ")", "(", "1=1) or (not (a=1", "a=1) and not (b=1"}

// A case is a list of steps kind:condition(;condition for lists), separated by \x1f; the order is the order of the calls.
func init() {
	register(&run.Check{ID: "C15", Case: c15Case, Explore: func(x *run.X) {
		steps := func(kinds []string, conds []string, lists int) []string {
			var out []string
			for _, k := range kinds {
				if k != "list" {
					for _, c := range conds {
						out = append(out, k+":"+c)
					}
					continue
				}
				for i, a := range conds {
					if i >= lists {
						break
					}
					for j, b := range conds {
						if j < lists {
							out = append(out, "list:"+a+";"+b)
						}
					}
				}
				out = append(out, "list:a=1 or b=1;;not a=1;s='x' or b is null", "list:", "list:;")
			}
			return out
		}
		seqs := func(alpha []string, n int) func(y func(string) bool) {
			return func(y func(string) bool) {
				var rec func(s []string) bool
				rec = func(s []string) bool {
					if len(s) == n {
						return y(strings.Join(s, "\x1f"))
					}
					for _, a := range alpha {
						if !rec(append(append([]string{}, s...), a)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			}
		}
		all := steps(stepKinds, stepConds, len(stepConds))
		x.Each("one", seqs(all, 1))
		x.Each("two", seqs(all, 2))
		x.Each("three", seqs(steps(stepKinds, stepConds[1:x.Bound(5, 7)], x.Bound(2, 3)), 3))
		x.Each("four", seqs(steps([]string{"query", "wire", "raw", "group", "not"}, stepConds[1:x.Bound(3, 4)], 0), 4))
		x.Each("one condition of many decides", func(y func(string) bool) {
			for n := 2; n <= x.Bound(24, 70); n++ {
				for i := 0; i < n; i++ {
					for _, c := range []string{"a=1 or b=1", "not a=1"} {
						l := strings.Split(strings.Repeat("1=1;", n-1)+"1=1", ";")
						l[i] = c
						if !y("list:"+strings.Join(l, ";")) || !y("list:"+strings.Join(append(append([]string{}, l...), "s='x' or f=true"), ";")) {
							return
						}
						for _, k := range []string{"query", "wire", "raw", "group"} {
							q := strings.Split(strings.Repeat("query:1=1\x1f", n-1)+"query:1=1", "\x1f")
							q[i] = k + ":" + c
							if n <= x.Bound(10, 20) && !y(strings.Join(q, "\x1f")) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("lists", func(y func(string) bool) {
			var comps []string
			comps = append(append(comps, stepConds...), " ")
			n := x.Bound(3, 4)
			var rec func(s []string) bool
			rec = func(s []string) bool {
				if len(s) > 1 && !y("list:"+strings.Join(s, ";")) {
					return false
				}
				if len(s) == n {
					return true
				}
				for _, c := range comps {
					if !rec(append(append([]string{}, s...), c)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		})
		x.Each("similar queries", func(y func(string) bool) {
			like := []string{"s='x'", "s='X'", "s=' x'", "s='x '", "s = 'x'", `s="x"`, "s='x' -- c\n", "s=\"x'\"", "s!='x'", "s='x' or b=1", "s='X' or b=1", "s = 'x' or b=1", "s='x' and b=1", "(s='x')", "not s='x'", "b=1 or s='x'", "a=1", "a=11", "a=1 or b=1", "a=1 or b=11", "f=true", "f=TRUE", "f=false", "s='true'"}
			for _, a := range like {
				for _, b := range like {
					for _, c := range []string{"list:" + a + ";" + b, "list:" + a + ";;" + b, "list:" + a + ";a=1 or b=1;" + b, "list:" + a + ";" + b + ";" + a, "query:" + a + "\x1fquery:" + b, "list:" + a + ";" + a + "\x1fquery:" + b, "raw:a=1 or b=1\x1flist:" + b + ";" + a + ";" + a} {
						if !y(c) {
							return
						}
					}
				}
			}
		})
		x.Each("invalid alone", func(y func(string) bool) {
			comps := append([]string{"a=1", "b=1 or a=0", ""}, escapes...)
			for _, a := range comps {
				for _, b := range comps {
					if !y("list:"+a+";"+b) || !y("raw:a=1 or b=1\x1flist:"+a+";"+b) {
						return
					}
					for _, c := range comps {
						if !y("list:" + a + ";" + b + ";" + c) {
							return
						}
					}
				}
			}
			for _, a := range comps {
				for _, b := range comps {
					if !y("query:"+a+"\x1fquery:"+b) || !y("query:"+a+"\x1flist:"+b+";a=1") {
						return
					}
				}
			}
		})
		x.Each("long, invalid alone", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(60, 300), x.Bound(5000, 70000)) {
				x := strings.Repeat("x", n)
				for _, q := range []string{"s='" + x + "') or (b=1", "b=1) or (s='" + x + "'", "b=1 --" + x, "b=1) or (1=1 --" + x + "\n", strings.Repeat(" ", n) + "a=1) or (b=1"} {
					for _, c := range []string{"list:a=1;" + q, "list:" + q + ";a=1", "raw:f=true\x1flist:a=1;" + q + ";b=1", "query:a=1\x1fquery:" + q} {
						if !y(c) {
							return
						}
					}
				}
			}
		})
		x.Each("long queries", func(y func(string) bool) {
			for n := 1; n <= x.Bound(60, 300); n++ {
				rep := func(s string) string { return strings.Repeat(s, n) }
				for _, q := range []string{rep("a=2 or ") + "b=1", rep("a=2 and ") + "a=2 or b=1", "b=1" + rep(" or a=2"), "a=1" + rep(" and a=1") + " or b=1", "s='" + rep("x") + "' or b=1", rep("not a=1 or ") + "b=1 and a=0", "a in (" + rep("2,") + "1) or b=1", "(a=2" + rep(" or a=2") + ") or b=1", rep("(") + "a=2" + rep(")") + " or b=1", "date(" + rep("date(") + "s" + rep(")") + ")='x' or b=1", rep("not (") + "b=1" + rep(")") + " or b=1"} {
					if n > 18 && strings.Contains(q, "((") || n > 18 && strings.Contains(q, "(date(") || n > 18 && strings.Contains(q, "(not (") {
						continue // SQLite's own parser nests no deeper
					}
					for _, c := range []string{"%s", "raw:s='x'\x1f%s", "%s\x1fraw:s='x' or f=true", "query:s='x' or f=true\x1f%s", "%s\x1fquery:s='x'", "group:s='x' or f=true\x1f%s"} {
						if !y(fmt.Sprintf(c, "query:"+q)) || !y(fmt.Sprintf(c, "list:"+q+";f=true or s='x'")) {
							return
						}
					}
				}
			}
		})
		x.Each("long lists", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(120, 400), 513)[1:] {
				s := []string{}
				for i := 0; i < n; i++ {
					s = append(s, fmt.Sprintf("a!=%d or b=1", i+1))
				}
				if !y("list:"+strings.Join(s, ";")) || n <= 40 && !y("query:"+strings.Join(s, "\x1fquery:")) {
					return
				}
			}
		})
	}, Assumptions: []string{"conditions added by Or at the top level of a gorm statement are not covered: gorm itself gives a later condition to the last alternative only"}})
}

// rawSQL is the condition as a user writes it, without outer parentheses.
func rawSQL(n *ref.N) string {
	name := func(m *ref.N) string { return m.S }
	if n.T == ref.Logic {
		return rawSQL(n.L) + " " + n.Op + " " + rawSQL(n.R)
	}
	return n.SQL(name)
}

func c15Case(w *run.W, c string) error {
	f := getFixture(w, "mixed")
	tx := f.g.Model(&Thing{})
	bad := false
	in := make([]bool, len(f.rows))
	for i := range in {
		in[i] = true
	}
	narrow := func(t *ref.N, not bool) {
		vals, ok := w.Local["c15 "+t.Text()].([]int8)
		if !ok {
			vals, _ = ref.Rows(t, f.rows)
			w.Local["c15 "+t.Text()] = vals
		}
		for i, v := range vals {
			in[i] = in[i] && (v == 1 && !not || v == 0 && not)
		}
	}
	for _, s := range strings.Split(c, "\x1f") {
		kind, rest, _ := strings.Cut(s, ":")
		conds := strings.Split(rest, ";")
		w.Trans(1)
		var tree *ref.N
		for _, q := range conds {
			blank := q == "" || kind == "list" && strings.TrimSpace(q) == ""
			if blank {
				continue
			}
			if tree = ref.Parse(q).Tree; tree == nil {
				bad = true
			} else {
				narrow(tree, kind == "not")
			}
		}
		switch kind {
		case "query":
			tx = tx.Scopes(gormq.ApplyMiniQuery(rest))
			continue
		case "wire":
			tx = gormq.WireMiniQuery(tx, rest)
			continue
		case "list":
			tx = tx.Scopes(gormq.MiniQuery{Query: conds}.Scope)
			continue
		}
		if tree == nil {
			continue
		}
		raw := rawSQL(tree)
		switch kind {
		case "raw":
			tx = tx.Where(raw)
		case "args":
			tx = tx.Where("(? = ? or ? is null) and ("+raw+")", 1, 1, "x")
		case "scope":
			tx = tx.Scopes(func(d *gorm.DB) *gorm.DB { return d.Where(raw) })
		case "not":
			tx = tx.Not(f.g.Where(raw))
		case "group":
			if tree.T == ref.Logic && tree.Op == "or" {
				tx = tx.Where(f.g.Where(rawSQL(tree.L)).Or(rawSQL(tree.R)))
			} else {
				tx = tx.Where(f.g.Where(raw))
			}
		}
	}
	var want []int64
	for i, b := range in {
		if b {
			want = append(want, int64(i+1))
		}
	}
	w.Distinct(c)
	before := f.pool.sent.Load()
	var got []int64
	err := tx.Pluck("id", &got).Error
	if bad {
		if err == nil || f.pool.sent.Load() != before {
			return fmt.Errorf("a query is not valid on its own, but %q is sent, error %v", f.pool.last.Load(), err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("error %v", err)
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	if !sameIDs(got, want) {
		return fmt.Errorf("%s; %v", f.diffIDs(got, want), f.pool.last.Load())
	}
	return nil
}
