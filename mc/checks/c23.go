package checks

import (
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"

	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

// A case is fixture \x1e query, or text \x1e query (literals and names only).
func init() {
	register(&run.Check{ID: "C23", Case: c23Case, Explore: func(x *run.X) {
		ft := feature{literals: true, nested: true, columns: true, bare: true}
		all := []int{0, 1, 2, 3, 4, 5, 6, 7}
		allFilters(x, ft, all[:x.Bound(4, 8)], all[:x.Bound(1, 8)], x.Bound(200, 900))
		x.Each("values", func(y func(string) bool) {
			var lits []string
			for _, h := range hostile {
				lits = append(lits, quoted(h)...)
			}
			lits = append(lits, otherLiterals...)
			lits = append(lits, "2147483648", "9007199254740993")
			for _, t := range []string{"a=#", "#!=a", "a in (#)", "a not in (1,#,'x')", "a between # and 2", "a between 1 and #", "not a < #", "(a >= #) or b is null", "a in [#,#]", "a=1 and b > #"} {
				for _, l := range lits {
					if !y("text\x1f\x1e" + strings.ReplaceAll(t, "#", l)) {
						return
					}
				}
			}
		})
		x.Each("contents", func(y func(string) bool) {
			put := func(l string) bool {
				return y("text\x1f\x1ea=" + l + " or not a in (1," + l + ") and a between " + l + " and 2")
			}
			for _, s := range gen.Contents {
				for _, q := range quoted(s) {
					if !put(q) {
						return
					}
				}
			}
			gen.ShortWords(x.Bound(2, 3), func(s string) bool { return put("'" + s + "'") })
			gen.Far(x.Bound(130, 400), x.Bound(5000, 70000), put)
			for i := 0; i <= x.Bound(3000, 100000); i++ {
				if !put(fmt.Sprint(i)) {
					return
				}
			}
		})
		x.Each("names", func(y func(string) bool) {
			for _, n := range append([]string{"a", "A", "userName", "user_name", "UserName", "ID", "id", "x1", "x_1", "nullable", "notes", "true1", "a__b", "inner", "isx", "order", "HTTPServer"}, gen.Vocabulary...) {
				for _, t := range []string{"#=1", "1<#", "# in (1)", "# between 1 and 2", "# is null", "not # is not null", "#=#", "a=# or # > b"} {
					if !y("text\x1f\x1e" + strings.ReplaceAll(t, "#", n)) {
						return
					}
				}
			}
			gen.ShortWords(3, func(n string) bool {
				t := strings.ReplaceAll("#=1 or # in (2,3)", "#", n)
				return ref.Parse(t).Tree == nil || y("text\x1f\x1e"+t)
			})
		})
	}, Assumptions: []string{"ent's evaluation of a predicate is trusted", "SQLite decides the meaning of the SQL"}})
}

// mentions lists the names and literals of a tree without repetitions.
func mentions(n *ref.N) string {
	set := map[string]bool{}
	n.Walk(func(m *ref.N) {
		if m.T == ref.Ident || m.T == ref.Val && m.VT != ref.Arr {
			set[m.Text()] = true
		}
	})
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func c23Case(w *run.W, c string) error {
	fix, q, _ := strings.Cut(c, "\x1e")
	tree := ref.Parse(q).Tree
	if tree == nil {
		return fmt.Errorf("not a query: the check is wrong")
	}
	if qlKind(tree) != 'p' {
		return nil // not of the supported kind
	}
	var p entql.P
	var first string
	for i := 0; i < 2; i++ {
		var err error
		if i == 0 {
			p, err = (&entmq.MiniQLToEntQLBuilder{Query: q}).Build()
		} else {
			p, err = entmq.BuildEntQL(q)
		}
		if err != nil || p == nil {
			return fmt.Errorf("no predicate, error %v", err)
		}
		w.Trans(1)
		back, err := fromEntQL(p)
		if err != nil {
			return fmt.Errorf("predicate %v: %v", p, err)
		}
		if got, want := mentions(back), mentions(tree); got != want {
			return fmt.Errorf("predicate mentions %s, should mention %s", got, want)
		}
		if strings.HasSuffix(fix, "\x1f") { // values only: the tree itself is compared
			w.Distinct(back.Text())
			if i == 1 {
				return c23Text(tree, back)
			}
			continue
		}
		if i == 1 && back.Text() == first {
			return nil // judged already
		}
		first = back.Text()
		f := getFixture(w, fix)
		want, err := f.expect(tree, nil)
		if err != nil {
			return fmt.Errorf("reference: %v", err)
		}
		w.Distinct(fix + fmt.Sprint(want))
		got, err := f.expect(back, nil)
		if err != nil {
			return fmt.Errorf("reference of %v: %v", p, err)
		}
		if !sameIDs(got, want) {
			if pin, ok := pinned(tree, every); ok {
				if alt, err := f.expect(pin, nil); err == nil && sameIDs(got, alt) {
					if err := c23SQL(w, f, tree, p, alt); err != nil {
						return err
					}
					return w.Known("not-between", notBetween)
				}
			}
			return fmt.Errorf("predicate %v: %s", p, f.diffIDs(got, want))
		}
		if err := c23SQL(w, f, tree, p, want); err != nil {
			return err
		}
	}
	return nil
}

// c23SQL compares the rows ent selects with the predicate.
func c23SQL(w *run.W, f *fixture, tree *ref.N, p entql.P, want []int64) error {
	if !qlPlain(tree) || boolOperand(tree) || levels(tree) > 18 { // SQLite's parser cannot nest deeper
		return nil
	}
	done := map[string]bool{}
	for _, d := range dialects {
		text, args, err := evalQL(thingGraph(w), "thing", "things", d, p)
		if err != nil {
			return fmt.Errorf("%s: %v for %v", d, err, p)
		}
		lite, err := sqlx.Lite(text)
		if err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
		key := lite + fmt.Sprintf("\x00%#v", args)
		if done[key] {
			continue
		}
		done[key] = true
		got, err := ids(f.sql, lite, plains(args)...)
		if err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
		if !sameIDs(got, want) {
			return fmt.Errorf("%s: %s; %s", d, f.diffIDs(got, want), text)
		}
	}
	return nil
}

// c23Text compares two trees by their truth for all assignments of NULL, the values in them and their neighbours to the names.
func c23Text(want, got *ref.N) error {
	vals := []ref.V{ref.NullV(), ref.IntV(0), ref.IntV(1), ref.IntV(2), ref.IntV(3), ref.StrV("x")}
	var names []string
	want.Walk(func(m *ref.N) {
		switch {
		case m.T == ref.Val && m.VT == ref.Int:
			vals = append(vals, ref.IntV(m.I-1), ref.IntV(m.I))
		case m.T == ref.Val && m.VT == ref.Str:
			vals = append(vals, ref.StrV(m.S), ref.StrV(m.S+"!"))
		case m.T == ref.Ident && !slices.Contains(names, m.S):
			names = append(names, m.S)
		}
	})
	var rows []ref.Env
	env := ref.MapEnv{}
	var fill func(i int)
	fill = func(i int) {
		if i == len(names) {
			rows = append(rows, maps.Clone(env))
			return
		}
		for _, v := range vals {
			env[names[i]] = v
			fill(i + 1)
		}
	}
	fill(0)
	a, ok := ref.Rows(want, rows)
	b, ok2 := ref.Rows(got, rows)
	if !ok || !ok2 {
		return fmt.Errorf("not comparable: %s and %s", want.Text(), got.Text())
	}
	for i := range a {
		if (a[i] == 1) != (b[i] == 1) {
			return fmt.Errorf("for %v the predicate is %v, should be %v", rows[i], b[i] == 1, a[i] == 1)
		}
	}
	return nil
}

// levels is the depth of a tree.
func levels(n *ref.N) int {
	switch n.T {
	case ref.Paren:
		return levels(n.X)
	case ref.Not:
		return 1 + levels(n.X)
	case ref.Logic:
		return 1 + max(levels(n.L), levels(n.R))
	}
	return 1
}
