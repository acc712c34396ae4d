package checks

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"entgo.io/ent/dialect"
	entsql "entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

var entTemplates = []string{
	"a=#", "#=a", "not s != #", "a<#", "s like #", "s not like #", "#", "not #", "(#)", "# = #", "# is null", "a=# and b=#", "a=# or not (b>#)", "a in (#)", "a in [#,#]", "s not in (#,1,#)", "a between # and #", "s not between [#,#]", "# between # and #", "not # not between # and #", "date(#)", "date(w)=#", "date(#)=date(#)",
	"a=1 and (s=# or s like #) and not t in (#,'q')", "# in (#,#)", "a=#&&b=#||c=#", "(a=#) is null", "a=# -- ' ? \" @a $1\n and b=#", "# like #", "(a in (#))=#", "# or # or #", "date(#) between # and #", "(# = #) between # and #",
	"has_edge(pets,a=#)", "not has_edge(groups,a=# or name like #) and b=#", "has_edge(children,has_edge(followers,a in (#,#)) and #=a) or a=#", "has_edge(parent,a between # and #)", "has_edge(parent,has_edge(children,a=# and has_edge(groups,#=a))) or a=#",
}

// A case is arguments before \x1e text.
func init() {
	register(&run.Check{ID: "C19", Case: c19Case, Explore: func(x *run.X) {
		lits := append([]string{"2147483647", "2147483648", "4294967296"}, otherLiterals...)
		for _, h := range hostile {
			lits = append(lits, quoted(h)...)
		}
		few := []string{"'x'", `"' or 1=1 --"`, `"$1"`, "7", "2147483648", "null", "true", "'?'"}
		fill := func(t string, vs ...string) string {
			for _, v := range vs {
				t = strings.Replace(t, "#", v, 1)
			}
			return strings.ReplaceAll(t, "#", "'x'")
		}
		x.Each("one literal", func(y func(string) bool) {
			for _, t := range entTemplates {
				n := strings.Count(t, "#")
				for i := 0; i < n; i++ {
					for _, l := range lits {
						vs := []string{}
						for j := 0; j < i; j++ {
							vs = append(vs, "'x'")
						}
						q := fill(t, append(vs, l)...)
						for before := 0; before <= 2; before++ {
							if !y(fmt.Sprintf("%d\x1e%s", before, q)) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("two literals", func(y func(string) bool) {
			for _, t := range entTemplates {
				if strings.Count(t, "#") < 2 {
					continue
				}
				for _, a := range lits {
					for _, b := range lits {
						if !y("1\x1e" + fill(t, a, b)) {
							return
						}
					}
				}
			}
		})
		x.Each("all literals", func(y func(string) bool) {
			var rec func(t string, n int) bool
			rec = func(t string, n int) bool {
				if n == 0 {
					return y("2\x1e" + t)
				}
				for _, v := range few {
					if !rec(strings.Replace(t, "#", v, 1), n-1) {
						return false
					}
				}
				return true
			}
			for _, t := range entTemplates {
				if n := strings.Count(t, "#"); n > 2 && !rec(t, n) {
					return
				}
			}
		})
		x.Each("preceding arguments", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(120, 1200), 1<<15-100) {
				for _, q := range []string{"a=1", "a in (1,'x',true) or not b between 2 and 3", "1=1", "a is null"} {
					if !y(fmt.Sprintf("%d\x1e%s", n, q)) {
						return
					}
				}
			}
		})
		ft := feature{date: true, like: true, literals: true, nested: true, bare: true, columns: true}
		num := func(g func(y func(string) bool)) func(y func(string) bool) {
			return func(y func(string) bool) {
				g(func(c string) bool { _, q, _ := strings.Cut(c, "\x1e"); return y("0\x1e"+q) && y("3\x1e"+q) })
			}
		}
		x.Each("filters", num(func(y func(string) bool) { atoms(ft, y) }))
		for k := 1; k <= 3; k++ {
			x.Each(fmt.Sprintf("logic %d", k), num(func(y func(string) bool) { logicFilters(k, []int{0, 1, 2, 3, 4, 5, 6, 7}[:x.Bound(2, 8)], y) }))
		}
		x.Each("sizes", num(func(y func(string) bool) { filterSizes(x.Bound(150, 600), y) }))
		x.Each("deep", num(func(y func(string) bool) { deepFilters(x.Bound(40, 400), 260, y) }))
		x.Each("contents", func(y func(string) bool) {
			put := func(l string) bool {
				return y("0\x1es=" + l + " or t in (1," + l + ") and a like " + l + " and not b between " + l + " and " + l)
			}
			for _, s := range gen.Contents {
				for _, q := range quoted(s) {
					if !put(q) {
						return
					}
				}
			}
			gen.ShortWords(x.Bound(2, 3), func(s string) bool { return put("'" + s + "'") })
			gen.Far(x.Bound(130, 400), x.Bound(5000, 70000), put)
			for i := 0; i <= x.Bound(3000, 100000); i++ {
				if !put(fmt.Sprint(i)) {
					return
				}
			}
		})
		x.Each("characters", func(y func(string) bool) {
			for r := rune(0); r < rune(x.Bound(0x800, 0x3000)); r++ {
				if r == 0x1e { // separates the fields of a case
					continue
				}
				for _, q := range quoted(string(r)) {
					if !y("0\x1es=" + q + " or t in (1," + q + ")") {
						return
					}
				}
			}
		})
	}})
}

// entLiterals are the literals in the order of the placeholders; inList tells which are elements of a list.
func entLiterals(n *ref.N) (out []*ref.N, inList []bool) {
	var rec func(n *ref.N, list bool)
	rec = func(n *ref.N, list bool) {
		if n == nil {
			return
		}
		if n.T == ref.Val {
			if n.VT == ref.Arr {
				for _, k := range n.Kids {
					rec(k, true)
				}
				return
			}
			out, inList = append(out, n), append(inList, list)
			return
		}
		rec(n.X, list)
		rec(n.L, list)
		rec(n.R, list)
		for i, k := range n.Kids {
			if i == 1 && twice(n) {
				rec(n.L, list)
			}
			rec(k, list)
		}
	}
	rec(n, false)
	return
}

var intCasts = words("INT INTEGER INT4 BIGINT INT8")
var longCasts = words("BIGINT INT8")
var boolCasts = words("BOOL BOOLEAN")

func c19Case(w *run.W, c string) error {
	nums, q, _ := strings.Cut(c, "\x1e")
	before := 0
	fmt.Sscan(nums, &before)
	tree := ref.Parse(q).Tree
	if tree == nil {
		return fmt.Errorf("not a query: the check is wrong")
	}
	w.Distinct(c)
	all, allInList := entLiterals(tree)
	edges := strings.Contains(q, "has_edge")
	node, ok := w.Local["node"].(*sqlgraph.Node)
	if !ok {
		node = schemaNode(newSchema(), "user")
		w.Local["node"] = node
	}
	for _, d := range dialects {
		for _, way := range ways {
			for _, nocast := range []bool{false, true} {
				w.Trans(1)
				fail := func(f string, a ...any) error {
					return fmt.Errorf("%s %s, casts %v: %s", d, way, !nocast, fmt.Sprintf(f, a...))
				}
				mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q, DisableTypeCasting: nocast, Node: node}
				b := &entsql.Builder{}
				b.SetDialect(d)
				var text string
				var args []any
				pre, post := before, 1
				switch way {
				case alone:
					mb.SetDialect(d)
					mb.SetTotal(before)
					text, args = mb.Query()
					post = 0
					// the arguments before are in the statement, not in this text
					if d == dialect.Postgres {
						ts := sqlx.Tokens(text)
						for _, t := range ts {
							if t.Kind == sqlx.Hole {
								if t.N != before+1 {
									return fail("first placeholder is %d after %d arguments: %s", t.N, before, text)
								}
								break
							}
						}
					}
					pre = 0
				case joined, given:
					for i := 0; i < before; i++ {
						b.Arg(1000 + i)
						b.Comma()
					}
					if way == joined {
						b.Join(mb)
					} else {
						mb.SQLBuilder = b
						mb.SetDialect(d)
						mb.Query()
					}
					b.Comma().Arg("end")
					text, args = b.Query()
				}
				if mb.Err() != nil {
					return fail("error %v", mb.Err())
				}
				ts := sqlx.Tokens(text)
				var holes []int // positions in ts
				for i, t := range ts {
					switch t.Kind {
					case sqlx.Hole:
						holes = append(holes, i)
					case sqlx.Word:
						if !entWords[t.S] && !(edges && edgeWords[t.S]) {
							return fail("word %s in %s", t.S, text)
						}
					case sqlx.Ident:
						if !gormIdents[t.S] && !(edges && plainName.MatchString(t.S)) {
							return fail("name %q in %s", t.S, text)
						}
					case sqlx.Sym:
						if t.S == ";" {
							return fail("%s in %s", t.S, text)
						}
					default:
						return fail("%s %q in %s", t.Kind, t.S, text)
					}
				}
				// a null is written as NULL or bound
				nulls := 0
				for i, t := range ts {
					if t.Kind == sqlx.Word && t.S == "NULL" && !(i > 0 && ts[i-1].S == "IS" || i > 1 && ts[i-1].S == "NOT" && ts[i-2].S == "IS") {
						nulls++
					}
				}
				own := len(args) - pre - post
				var lits []*ref.N
				var inList []bool
				for i, l := range all {
					if l.VT == ref.Null && (len(lits) >= own || plain(args[pre+len(lits)]) != nil) {
						nulls--
						continue
					}
					lits, inList = append(lits, l), append(inList, allInList[i])
				}
				if nulls != 0 {
					return fail("NULL without a null: %s", text)
				}
				if len(holes) != pre+len(lits)+post || len(args) != len(holes) {
					return fail("%d placeholders, %d arguments for %d literals and %d others: %s", len(holes), len(args), len(lits), pre+post, text)
				}
				first := 1
				if way == alone {
					first = before + 1
				}
				for i, h := range holes {
					if d == dialect.Postgres && ts[h].N != first+i {
						return fail("placeholder %d has number %d: %s", i+1, ts[h].N, text)
					}
					cast := ""
					if h+2 < len(ts) && ts[h+1].S == "::" {
						cast = ts[h+2].S
					}
					if i < pre || i >= pre+len(lits) {
						if cast != "" {
							return fail("foreign placeholder cast to %s: %s", cast, text)
						}
						continue
					}
					l := lits[i-pre]
					if got, want := norm(args[i]), norm(l.Value()); !reflect.DeepEqual(got, want) {
						return fail("argument %d is %#v, should be %#v: %s", i, got, want, text)
					}
					if nocast || d != dialect.Postgres {
						if cast != "" {
							return fail("cast to %s: %s", cast, text)
						}
						continue
					}
					ok := cast == ""
					switch {
					case l.VT == ref.Int && (l.I > 1<<31-1):
						ok = longCasts[cast] || inList[i-pre] && cast == ""
					case l.VT == ref.Int:
						ok = intCasts[cast] || inList[i-pre] && cast == ""
					case l.VT == ref.Bool:
						ok = boolCasts[cast] || inList[i-pre] && cast == ""
					}
					if !ok {
						return fail("%s cast to %q: %s", l.Text(), cast, text)
					}
				}
				casts := 0
				for _, t := range ts {
					if t.S == "::" {
						casts++
					}
				}
				if casts > len(lits) {
					return fail("%d casts for %d literals: %s", casts, len(lits), text)
				}
			}
		}
	}
	return nil
}

var edgeWords = words("SELECT FROM WHERE JOIN AS ON EXISTS")
var plainName = regexp.MustCompile(`^[a-z][a-z_0-9]*$`) // of the schema or an alias
var entWords = words("AND OR NOT IN LIKE BETWEEN IS NULL DATE INT INTEGER INT4 INT8 BIGINT BOOL BOOLEAN ESCAPE")
