package checks

import (
	"fmt"
	"reflect"
	"strings"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

// hostile are the contents of string literals.
var hostile = []string{
	"", "x", "'", `"`, `\`, "`", "?", "$1", "@a", "@name", ":a", "%", "--", "//", "/*", "*/", ";", ")", "(", "' or 1=1 --", `" or "1"="1`, "x') or (1=1", "\\' or 1=1", "a", "things", "null", "NULL", "true", "1", "1; drop table things",
	"\n", "\r\n", "\t", "\x00", "é", "\U0001F600", "??", "?,?", "{}", "[]", "and", " or ", "`a`", "things.a", "%s", "%!d", "{{a}}", "'; --\n", "\\", "\\\\", "a=1", "date(a)", "?a", "a?b?c", "@", "@@", "<clause>", "’", "＇", "-- x\n", "x y z",
}

func quoted(s string) []string {
	var out []string
	for _, q := range []string{"'", `"`} {
		if !strings.Contains(s, q) {
			out = append(out, q+s+q)
		}
	}
	return out
}

// templates with # for each scalar literal, over Thing
var literalTemplates = []string{
	"a=#", "#=a", "not s != #", "a<#", "s like #", "s not like #", "#", "not #", "(#)", "# = #", "# is null", "a=# and b=#", "a=# or not (b>#)", "a in (#)", "a in [#,#]", "s not in (#,1,#)", "a between # and #", "s not between [#,#]", "# between # and #", "date(#)", "date(w)=#", "date(#)=date(#)", "date(w,#)=#",
	"a=1 and (s=# or s like #) and not t in (#,'q')", "# in (#,#)", "a=#&&b=#||c=#", "(a=#) is true", "a=# -- ' ? \" @a\n and b=#", "# like #", "(a in (#))=#",
}

var relTemplates = []string{"Firm.a=#", "#=Card.name and a=#", "Firm.name like # or Card.a in (#,#)", "not (Firm.lvl=# and name=#) or Parent.a between # and #", "Second.Rank=Firm.Rank and Second.name=#"}

var otherLiterals = []string{"0", "1", "42", "9223372036854775807", "true", "FALSE", "null", "NULL"}

// the closed vocabulary of statements
var gormWords = words("SELECT FROM WHERE AND OR NOT IN LIKE BETWEEN IS NULL ISNULL NOTNULL TRUE FALSE DATE LEFT JOIN ON AS")
var gormIdents = words("things id a b c d s t f w people firms cards name firm_id second_id parent_id person_id lvl Firm Second Card Parent")

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// A case is model \x1e text \x1e text with other literals (or nothing).
func init() {
	register(&run.Check{ID: "C12", Case: c12Case, Explore: func(x *run.X) {
		lits := append([]string{}, otherLiterals...)
		for _, h := range hostile {
			lits = append(lits, quoted(h)...)
		}
		few := []string{"'x'", "\"' or 1=1 --\"", `"?"`, "'@a'", "7", "null", "true", "'x\") or (1=1'", "'%'", `'\'`}
		fill := func(t string, vs ...string) string {
			for _, v := range vs {
				t = strings.Replace(t, "#", v, 1)
			}
			return strings.ReplaceAll(t, "#", "'x'")
		}
		each := func(model string, ts []string) {
			x.Each("one literal "+model, func(y func(string) bool) {
				for _, t := range ts {
					n := strings.Count(t, "#")
					base := strings.ReplaceAll(t, "#", "'x'")
					for i := 0; i < n; i++ {
						for _, l := range lits {
							vs := []string{}
							for j := 0; j < i; j++ {
								vs = append(vs, "'x'")
							}
							if !y(model + "\x1e" + fill(t, append(vs, l)...) + "\x1e" + base) {
								return
							}
						}
					}
				}
			})
			x.Each("two literals "+model, func(y func(string) bool) {
				for _, t := range ts {
					if strings.Count(t, "#") < 2 {
						continue
					}
					base := strings.ReplaceAll(t, "#", "'x'")
					for _, a := range lits {
						for _, b := range lits {
							if !y(model + "\x1e" + fill(t, a, b) + "\x1e" + base) {
								return
							}
						}
					}
				}
			})
			x.Each("all literals "+model, func(y func(string) bool) {
				for _, t := range ts {
					n := strings.Count(t, "#")
					if n < 3 {
						continue
					}
					base := strings.ReplaceAll(t, "#", "'x'")
					var rec func(t string, n int) bool
					rec = func(t string, n int) bool {
						if n == 0 {
							return y(model + "\x1e" + t + "\x1e" + base)
						}
						for _, v := range few {
							if !rec(strings.Replace(t, "#", v, 1), n-1) {
								return false
							}
						}
						return true
					}
					if !rec(t, n) {
						return
					}
				}
			})
		}
		each("thing", literalTemplates)
		each("person", relTemplates)
		x.Each("contents", func(y func(string) bool) {
			put := func(l string) bool {
				return y("thing\x1es=" + l + " or t in (1," + l + ") and a like " + l + "\x1es='x' or t in (1,'x') and a like 'x'")
			}
			for _, s := range gen.Contents {
				for _, q := range quoted(s) {
					if !put(q) {
						return
					}
				}
			}
			gen.ShortWords(x.Bound(2, 3), func(s string) bool { return put("'" + s + "'") })
			gen.Far(x.Bound(130, 400), x.Bound(5000, 70000), put)
			for i := 0; i <= x.Bound(3000, 100000); i++ {
				if !put(fmt.Sprint(i)) {
					return
				}
			}
		})
		x.Each("characters", func(y func(string) bool) {
			for r := rune(0); r < rune(x.Bound(0x800, 0x3000)); r++ {
				if r == 0x1e { // separates the fields of a case
					continue
				}
				for _, q := range quoted(string(r)) {
					if !y("thing\x1es="+q+" or t in (1,"+q+")\x1es='x' or t in (1,'x')") || !y("thing\x1es="+strings.ReplaceAll(q, string(r), "a"+string(r)+"b")+"\x1es='x'") {
						return
					}
				}
			}
		})
		ft := feature{truth: true, date: true, mods: true, like: true, literals: true, nested: true, bare: true, columns: true}
		plain := func(g func(y func(string) bool)) func(y func(string) bool) {
			return func(y func(string) bool) {
				g(func(c string) bool { _, q, _ := strings.Cut(c, "\x1e"); return y("thing\x1e" + q + "\x1e") })
			}
		}
		x.Each("filters", plain(func(y func(string) bool) { atoms(ft, y) }))
		for k := 1; k <= 3; k++ {
			x.Each(fmt.Sprintf("logic %d", k), plain(func(y func(string) bool) { logicFilters(k, []int{0, 2, 5}[:x.Bound(1, 3)], y) }))
		}
		x.Each("sizes", plain(func(y func(string) bool) { filterSizes(x.Bound(200, 900), y) }))
		x.Each("deep", plain(func(y func(string) bool) { deepFilters(x.Bound(130, 600), 1030, y) }))
	}, Assumptions: []string{"an empty list is not a literal to bind"}})
}

func flatLiterals(n *ref.N) []any {
	var out []any
	var add func(v any)
	add = func(v any) {
		if l, ok := v.([]any); ok {
			for _, e := range l {
				add(e)
			}
			return
		}
		out = append(out, v)
	}
	for _, l := range n.Literals() {
		add(l.Value())
	}
	return out
}

func c12Case(w *run.W, c string) error {
	f := strings.Split(c, "\x1e")
	var fx *fixture
	var model any = &Thing{}
	if f[0] == "person" {
		fx, model = getRelFixture(w), &Person{}
	} else {
		fx = getFixture(w, "logic3")
	}
	build := func(q string) (string, error) {
		tree := ref.Parse(q).Tree
		if tree == nil {
			return "", fmt.Errorf("%q is not a query: the check is wrong", q)
		}
		skeleton := ""
		for _, list := range []bool{true, false} {
			scope := apply(q)
			if list {
				scope = applyAll(q, "")
			}
			text, vars, err := fx.gormSQL(model, scope)
			if err != nil {
				return "", fmt.Errorf("error %v", err)
			}
			ts := sqlx.Tokens(text)
			holes := 0
			for i, t := range ts {
				switch t.Kind {
				case sqlx.Hole:
					holes++
				case sqlx.Word:
					// an alias is a word too
					if !gormWords[t.S] && !gormIdents[t.S] {
						return "", fmt.Errorf("word %s in SQL %s", t.S, text)
					}
				case sqlx.Ident:
					if !gormIdents[t.S] && !(strings.Contains(t.S, "__") && gormIdents[strings.Split(t.S, "__")[0]] && gormIdents[strings.Split(t.S, "__")[1]]) {
						return "", fmt.Errorf("name %q in SQL %s", t.S, text)
					}
				case sqlx.Sym:
					if t.S == ";" {
						return "", fmt.Errorf("%s in SQL %s", t.S, text)
					}
				default:
					return "", fmt.Errorf("%s %q (token %d) in SQL %s", t.Kind, t.S, i, text)
				}
			}
			want := flatLiterals(tree)
			if len(want) != holes || len(vars) != holes {
				return "", fmt.Errorf("%d placeholders, %d bound values, %d literals; SQL %s", holes, len(vars), len(want), text)
			}
			for i := range want {
				if !reflect.DeepEqual(norm(vars[i]), norm(want[i])) {
					return "", fmt.Errorf("bound value %d is %#v, should be %#v; SQL %s", i, vars[i], want[i], text)
				}
			}
			w.Trans(len(ts))
			skeleton = sqlx.Skeleton(ts)
		}
		return skeleton, nil
	}
	sk, err := build(f[1])
	if err != nil {
		return err
	}
	w.Distinct(sk + f[1])
	if f[2] != "" {
		other, ok := w.Local["sql "+f[0]+f[2]].(string)
		if !ok {
			if other, err = build(f[2]); err != nil {
				return fmt.Errorf("%q: %v", f[2], err)
			}
			w.Local["sql "+f[0]+f[2]] = other
		}
		if other != sk {
			return fmt.Errorf("SQL is %s, with other literals %s", sk, other)
		}
	}
	return nil
}

func norm(v any) any {
	switch x := plain(v).(type) {
	case int:
		return int64(x)
	case int64:
		return x
	default:
		return x
	}
}
