package checks

import (
	"fmt"
	"strings"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

// twice tells that the operand of a between is written twice.
func twice(n *ref.N) bool {
	return n.T == ref.Betw && n.L.T != ref.Paren && n.L.T != ref.Fn
}

// every is the condition of pinned where all are written so.
func every(*ref.N) bool { return true }

// pinned replaces not between by what the tests of the repository ask for (below and above at once), if which tells so.
func pinned(n *ref.N, which func(n *ref.N) bool) (*ref.N, bool) {
	if n == nil {
		return nil, false
	}
	any := false
	sub := func(m *ref.N) *ref.N {
		r, c := pinned(m, which)
		any = any || c
		return r
	}
	c := *n
	c.L, c.R, c.X = sub(n.L), sub(n.R), sub(n.X)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, sub(k))
	}
	if n.T == ref.Betw && n.Op == "not between" && which(n) {
		return ref.LogN(ref.CmpN(c.L, "lt", c.Kids[0]), "and", ref.CmpN(c.L, "gt", c.Kids[1])), true
	}
	return &c, any
}

const notBetween = "not between selects rows that are below and above the bounds at once"

// A case is fixture \x1e query, or name \x1e name \x1e column.
func init() {
	register(&run.Check{ID: "C18", Case: c18Case, Explore: func(x *run.X) {
		ft := feature{date: true, like: true, literals: true, nested: true, bare: true, columns: true}
		all := []int{0, 1, 2, 3, 4, 5, 6, 7}
		allFilters(x, ft, all, all[:x.Bound(1, 8)], x.Bound(250, 900))
		x.Each("names", func(y func(string) bool) {
			words := []string{"user", "name", "id", "created", "at", "http", "not", "null"}
			for _, a := range words {
				for _, b := range words {
					up := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
					for _, n := range []string{a + up(b), up(a) + up(b), a + "_" + b, up(a) + "_" + b} {
						if !y("name\x1e" + n + "\x1e" + a + "_" + b) {
							return
						}
					}
					for _, c := range words {
						if !y("name\x1e" + a + up(b) + up(c) + "\x1e" + a + "_" + b + "_" + c) {
							return
						}
					}
				}
			}
			for _, v := range gen.Vocabulary {
				if v == strings.ToLower(v) && !y("name\x1e"+v+"\x1e"+v) {
					return
				}
			}
			ok := true
			gen.ShortWords(x.Bound(2, 3), func(n string) bool {
				if n == strings.ToLower(n) && ref.Parse(n).Tree != nil && ref.Parse(n).Tree.T == ref.Ident {
					ok = y("name\x1e" + n + "\x1e" + n)
				}
				return ok
			})
			if !ok {
				return
			}
			// every name of some characters that is in snake case is kept
			var rec func(n string) bool
			rec = func(n string) bool {
				if !y("name\x1e" + n + "\x1e" + n) {
					return false
				}
				for _, c := range "abz_109" {
					if len(n) < x.Bound(5, 6) && !rec(n+string(c)) {
						return false
					}
				}
				return true
			}
			if !rec("a") || !rec("md5") || !rec("x12y") || !rec("s3_") {
				return
			}
			for _, d := range []string{"1", "2", "12", "2024"} {
				for _, a := range words {
					for _, b := range words {
						up := strings.ToUpper(b[:1]) + b[1:]
						if !y("name\x1e"+a+up+d+"\x1e"+a+"_"+b+d) || !y("name\x1e"+a+d+up+"\x1e"+a+d+"_"+b) || !y("name\x1e"+strings.ToUpper(a[:1])+a[1:]+up+d+"\x1e"+a+"_"+b+d) {
							return
						}
					}
				}
			}
			for _, p := range [][2]string{{"ID", "id"}, {"userID", "user_id"}, {"HTTPServer", "http_server"}, {"URL", "url"}, {"a", "a"}, {"A", "a"}, {"activityType", "activity_type"}} {
				if !y("name\x1e" + p[0] + "\x1e" + p[1]) {
					return
				}
			}
		})
	}, Assumptions: []string{"SQLite decides the meaning of the SQL; casts are dropped and $n read as ?n to run the SQL of the other dialects", "operands of comparisons are columns, literals, function calls or parenthesised expressions; lists are not empty"}})
}

func c18Case(w *run.W, c string) error {
	fix, q, _ := strings.Cut(c, "\x1e")
	if fix == "name" {
		name, col, _ := strings.Cut(q, "\x1e")
		for _, d := range dialects {
			for _, way := range ways {
				text, _, err := entSQL(name+" = 1", d, way, nil, true)
				if err != nil {
					return fmt.Errorf("%s %s: error %v", d, way, err)
				}
				ts := sqlx.Tokens(text)
				if len(ts) != 3 || ts[0].Kind != sqlx.Ident || ts[0].S != col {
					return fmt.Errorf("%s %s: %s, should be a condition on %s", d, way, text, col)
				}
				w.Trans(1)
			}
		}
		w.Distinct(c)
		return nil
	}
	f := getFixture(w, fix)
	tree := ref.Parse(q).Tree
	if tree == nil {
		return fmt.Errorf("not a query: the check is wrong")
	}
	want, err := f.expect(tree, nil)
	if err != nil {
		return fmt.Errorf("reference: %v", err)
	}
	w.Distinct(fix + fmt.Sprint(want))
	done := map[string]bool{}
	var known error
	for _, d := range dialects {
		for _, way := range ways {
			for _, nocast := range []bool{false, true} {
				if fix == "logic4" && (way != joined || nocast || d == dialects[1]) {
					continue // the large family in two dialects
				}
				text, args, err := entSQL(q, d, way, nil, nocast)
				if err != nil {
					return fmt.Errorf("%s %s: error %v", d, way, err)
				}
				w.Trans(1)
				lite, err := sqlx.Lite(text)
				if err != nil {
					return fmt.Errorf("%s %s: %v", d, way, err)
				}
				args = plains(args)
				key := lite + "\x00" + fmt.Sprintf("%#v", args)
				if done[key] {
					continue
				}
				done[key] = true
				got, err := ids(f.sql, "select id from things where "+lite, args...)
				if err != nil {
					return fmt.Errorf("%s %s: %v", d, way, err)
				}
				if sameIDs(got, want) {
					continue
				}
				if p, ok := pinned(tree, twice); ok {
					if alt, err := f.expect(p, nil); err == nil && sameIDs(got, alt) {
						known = w.Known("not-between", notBetween)
						continue
					}
				}
				return fmt.Errorf("%s %s: %s; %s", d, way, f.diffIDs(got, want), text)
			}
		}
	}
	return known
}
