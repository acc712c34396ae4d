package checks

import (
	"fmt"
	"strings"

	"entgo.io/ent/dialect"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

// Layout templates: ~ is a gap where layout is optional, ^ one where it is required.
var layouts = []string{
	"~a~=~1~", "~a~>=~'x y'~and~b~<>~2~", "~a^and~b^or~c~", "~1~and~a^or~'x'~&&~b~||~c~", "~not^a~=~1~", "~not^(~a^or~not^b~)~", "~a^in~(~1~,~2~,~)~", "~a^not^in~[~'x'~,~null~]~",
	"~a^like~'%'~", "~a^not^like~b~", "~a^between~1~and~2~", "~a^not^between~[~1~,~2~]~", "~a^is^null~", "~a^is^not^null~and~b^isnull~", "~a^is^not^true~", "~a^notnull~or~1^is^false~", "~f(~)~", "~f(~a~,~1~,~b~=~2~,~)~=~3~",
	"~date(~w~)~=~'x'~and~not^s^like~t~", "~(~(~a~)~)~", "~[~]~=~(~)~", "~a.b~=~c.d~", "~a^gt~1~and~b^gte~2~or~c^neq~3~", "~a^eq~1~&&~1~lt~2~", "~(~1~,~'x'~,~)~", "~'--x'~=~\"// y\"~",
	"~a^and~not^b^or~not^(~c~)~", "~has_edge(~pets~,~a~=~1~)~", "~true^and~FALSE~", "~a~!=~b~<~c~",
}

var gaps = []string{
	"", " ", "  ", "\t", "\n", "\r", "\r\n", "\n\r", " \t\n ", "--\n", "-- c\n", "//\r", "//x\r\n", "--a=1 or 1=1\n", "--'\"([{\n", "// and b) or (1=1 \n ", "--x\n--y\n", " -- \n // \r\n ", "--é☃\n", "--//\n", "----\n", "///*\r", "-- not null\r\n", "--\t\n\t",
	strings.Repeat(" ", 70), strings.Repeat("\n", 40), "--" + strings.Repeat("long comment ", 30) + "\n", "--;drop table things\n",
}

// A case is the variant \x1e the base query.
func init() {
	register(&run.Check{ID: "C05", Case: c05Case, Explore: func(x *run.X) {
		x.Each("one gap", func(y func(string) bool) { layoutVariants(1, gaps, y) })
		x.Each("two gaps", func(y func(string) bool) { layoutVariants(2, gaps, y) })
		if x.Thorough {
			x.Each("three gaps", func(y func(string) bool) { layoutVariants(3, gaps[:7], y) })
		}
		x.Each("all gaps", func(y func(string) bool) { layoutVariants(0, gaps, y) })
		x.Each("gap lengths", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(120, 500), 1<<16+1)[1:] {
				for _, u := range []string{" ", "\n", "--x\n", "\t"} {
					for _, t := range []string{"a%sand%sb=1", "a%snot%sin (1)", "not%s(a)%s", "a%sis%snull", "%sa%s"} {
						g := strings.Repeat(u, n)
						if !y(fmt.Sprintf(t, g, g) + "\x1e" + fmt.Sprintf(t, " ", " ")) {
							return
						}
					}
				}
				g := " --" + strings.Repeat("x", n) + "\n"
				if !y("a" + g + "not" + g + "in" + g + "(1)\x1ea not in (1)") {
					return
				}
			}
		})
		x.Each("letter case", func(y func(string) bool) {
			ctx := map[string][]string{
				"and": {"a @ b", "a between 1 @ 2", "1@1", "a @ not b", "a = 1 @ b = 2 or c"}, "or": {"a @ b", "1@1", "a and b @ c"}, "not": {"@ a", "a @ in (1)", "a @ like 'x'", "a @ between 1 and 2", "a and @ (b)"},
				"in": {"a @ (1)", "a not @ [1]"}, "like": {"a @ 'x'", "a not @ 'x'"},
				"gt": {"a @ 1"}, "gte": {"a @ 1"}, "lt": {"a @ 1"}, "lte": {"a @ 1"}, "eq": {"a @ 1"}, "neq": {"a @ 1", "a @ b and 1 @ c"},
			}
			for _, word := range gen.Words {
				for _, c := range ctx[word] {
					for _, v := range gen.Cases(word) {
						if !y(strings.ReplaceAll(c, "@", v) + "\x1e" + strings.ReplaceAll(c, "@", word)) {
							return
						}
					}
				}
			}
			for _, n := range gen.Cases("not") {
				for _, v := range append(gen.Cases("like"), gen.Cases("in")...) {
					arg := " (1)"
					if len(v) == 4 {
						arg = " 'x'"
					}
					if !y("a " + n + "\t" + v + arg + "\x1ea not " + strings.ToLower(v) + arg) {
						return
					}
				}
			}
		})
	}})
}

func layoutVariants(change int, variants []string, y func(string) bool) {
	for _, l := range layouts {
		var parts []string
		var kinds []byte
		start := 0
		for i := 0; i < len(l); i++ {
			if l[i] == '~' || l[i] == '^' {
				parts = append(parts, l[start:i])
				kinds = append(kinds, l[i])
				start = i + 1
			}
		}
		parts = append(parts, l[start:])
		render := func(at map[int]string) (string, bool) {
			var sb strings.Builder
			for i, p := range parts {
				sb.WriteString(p)
				if i == len(kinds) {
					break
				}
				g, ok := at[i]
				if !ok {
					if kinds[i] == '^' {
						g = " "
					}
				} else if kinds[i] == '^' && g == "" {
					return "", false
				}
				sb.WriteString(g)
			}
			return sb.String(), true
		}
		base, _ := render(nil)
		emit := func(at map[int]string) bool {
			s, ok := render(at)
			return !ok || y(s+"\x1e"+base)
		}
		if change == 0 {
			for _, v := range variants {
				at := map[int]string{}
				for i := range kinds {
					at[i] = v
				}
				if !emit(at) {
					return
				}
			}
			continue
		}
		var rec func(from, left int, at map[int]string) bool
		rec = func(from, left int, at map[int]string) bool {
			if left == 0 {
				return emit(at)
			}
			for i := from; i < len(kinds); i++ {
				for _, v := range variants {
					at[i] = v
					if !rec(i+1, left-1, at) {
						return false
					}
				}
				delete(at, i)
			}
			return true
		}
		if !rec(0, change, map[int]string{}) {
			return
		}
	}
}

func c05Case(w *run.W, c string) error {
	q, base, _ := strings.Cut(c, "\x1e")
	r := ref.Parse(base)
	if r.Tree == nil {
		return fmt.Errorf("base %q is not a query: the check is wrong", base)
	}
	w.Distinct(q)
	w.Trans(size(r.Tree))
	if err := same(r.Tree, q); err != nil {
		return err
	}
	// the generated SQL, where the backends accept the query
	want, ok := w.Local["base "+base].(*sqlPair)
	if !ok {
		want = backendSQL(w, base)
		w.Local["base "+base] = want
	}
	got := backendSQL(w, q)
	if *got != *want {
		return fmt.Errorf("SQL %v, without the layout %v", *got, *want)
	}
	return nil
}

type sqlPair struct{ gorm, ent string }

func backendSQL(w *run.W, q string) *sqlPair {
	p := &sqlPair{}
	f := getFixture(w, "logic3")
	s, vars, err := f.gormSQL(&Thing{}, apply(q))
	if err != nil {
		p.gorm = "error"
	} else {
		p.gorm = sqlx.Skeleton(sqlx.Tokens(s)) + fmt.Sprint(vars)
	}
	s, args, err := entSQL(q, dialect.Postgres, alone, nil, false)
	if err != nil {
		p.ent = "error"
	} else {
		p.ent = sqlx.Skeleton(sqlx.Tokens(s)) + fmt.Sprint(plains(args))
	}
	return p
}
