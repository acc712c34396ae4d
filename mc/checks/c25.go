package checks

import (
	"errors"
	"fmt"
	"strings"

	entsql "entgo.io/ent/dialect/sql"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
	"verif/mc/sqlx"
)

// A case is fixture \x1e queries separated by \x1f.
func init() {
	register(&run.Check{ID: "C25", Case: c25Case, Explore: func(x *run.X) {
		ft := feature{truth: true, date: true, like: true, literals: true, nested: true, bare: true, columns: true}
		all := []int{0, 1, 2, 3, 4, 5, 6, 7}
		var k4 []int
		if x.Thorough {
			k4 = all[:4]
		}
		allFilters(x, ft, all[:x.Bound(4, 8)], k4, x.Bound(120, 600))
		set := gen.NewSet()
		for _, th := range []gen.Theme{
			{Name: "texts", Tokens: []string{"a", "s", "=", " < ", "1", "'x'", " and ", " or ", "not ", "(", ")", " in (1,2)", " between 0 and 1", " is null", " like 'x%'", "null", " is true"}, Quick: 5, Thorough: 6},
			{Name: "logic texts", Tokens: []string{"a=1", "b=1", "a is null", " and ", " or ", "not ", "(", ")", "&&", "||"}, Quick: 7, Thorough: 9},
			{Name: "value texts", Start: "a", Tokens: []string{"=", "!", "<", ">", " ", "0", "1", "null", "true", "'1'", "b", "(", ")", "[", "]", ",", "in", "not", "is"}, Quick: 5, Thorough: 6},
		} {
			prefixCases(x, set, th, x.Bound(th.Quick, th.Thorough), func(w *run.W, q string) {
				if t := ref.Parse(q).Tree; t != nil && c25Sane(t) {
					w.Run("wide\x1e" + q)
				}
			})
		}
		list := []string{"", "a=1", "a=1 or b=1", "not a=1 or b is null", "a in (0,2) and b!=1", "(a=1)", "a<b or a between 0 and 1", "f=true or s='x'", "not (a=1 and b=1)"}
		for n := 2; n <= x.Bound(3, 4); n++ {
			x.Each(fmt.Sprintf("lists of %d", n), func(y func(string) bool) {
				total := 1
				for i := 0; i < n; i++ {
					total *= len(list)
				}
				for v := 0; v < total; v++ {
					var qs []string
					for i, u := 0, v; i < n; i, u = i+1, u/len(list) {
						qs = append(qs, list[u%len(list)])
					}
					if !y("wide\x1e" + strings.Join(qs, "\x1f")) {
						return
					}
				}
			})
		}
	}, Assumptions: []string{"SQLite decides the meaning of the SQL; casts are dropped and $n read as ?n to run the SQL of the other dialects", "operands of comparisons are columns, literals, function calls or parenthesised expressions; lists are not empty"}})
}

// c25Sane tells whether all operands are of the kinds that have a meaning in SQL.
func c25Sane(t *ref.N) bool {
	operand := func(n *ref.N) bool {
		return n.T == ref.Ident || n.T == ref.Paren || n.T == ref.Fn || n.T == ref.Val && n.VT != ref.Arr
	}
	return !t.Any(func(n *ref.N) bool {
		switch n.T {
		case ref.Ident:
			return !strings.Contains(" a b c d s t f w id ", " "+n.S+" ")
		case ref.Cmp:
			if n.Op == "in" || n.Op == "not in" {
				return !operand(n.L) || n.R.T != ref.Val || n.R.VT != ref.Arr || len(n.R.Kids) == 0
			}
			return !operand(n.L) || !operand(n.R)
		case ref.Pred, ref.Betw:
			return !operand(n.L)
		case ref.Logic:
			return isList(n.L) || isList(n.R)
		case ref.Not:
			return isList(n.X)
		case ref.Paren:
			return isList(n.X)
		}
		return false
	}) && !isList(t)
}

func isList(n *ref.N) bool { return n.T == ref.Val && n.VT == ref.Arr }

func c25Case(w *run.W, c string) error {
	fix, rest, _ := strings.Cut(c, "\x1e")
	f := getFixture(w, fix)
	qs := strings.Split(rest, "\x1f")
	common := true // all backends have to support it
	var trees, pins []*ref.N
	pin := false
	for _, q := range qs {
		if q == "" {
			continue
		}
		t := ref.Parse(q).Tree
		if t == nil {
			return fmt.Errorf("not a query: the check is wrong")
		}
		p, ok := pinned(t, every)
		trees, pins, pin = append(trees, t), append(pins, p), pin || ok
		common = common && qlKind(t) == 'p' && qlPlain(t) && !boolOperand(t) && levels(t) <= 18
	}
	type result struct {
		who string
		ids []int64
		err error
	}
	var rs []result
	one := func(who string, ids []int64, err error) {
		w.Trans(1)
		rs = append(rs, result{who, ids, err})
	}
	g, err := f.gormIDs(applyAll(qs...))
	one("gorm", g, err)
	if len(qs) == 1 {
		g, err = f.gormIDs(apply(qs[0]))
		one("gorm scope", g, err)
	}
	done := map[string]int{}
	lite := func(who, text string, args []any, err error) {
		if err != nil {
			one(who, nil, err)
			return
		}
		s, err := sqlx.Lite(text)
		if err != nil {
			one(who, nil, err)
			return
		}
		key := s + fmt.Sprintf("\x00%#v", plains(args))
		if i, ok := done[key]; ok {
			one(who, rs[i].ids, rs[i].err)
			return
		}
		done[key] = len(rs)
		got, err := ids(f.sql, s, plains(args)...)
		one(who, got, err)
	}
	for _, d := range dialects {
		s := entsql.Dialect(d).Select("id").From(entsql.Table("things"))
		for _, q := range qs {
			if q != "" {
				mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q}
				s.Where(entsql.P(func(b *entsql.Builder) { b.Join(mb) }))
			}
		}
		text, args := s.Query()
		lite("entsql "+d, text, args, s.Err())
		r := &whereRecorder{}
		if err := entmq.ApplyEntQL(r, qs); err != nil {
			one("entql "+d, nil, err)
			continue
		}
		text, args, err := evalQL(thingGraph(w), "thing", "things", d, r.ps...)
		if errors.Is(err, errPanic) && !common {
			continue // see C24
		}
		lite("entql "+d, text, args, err)
	}
	var first *result
	for i := range rs {
		if rs[i].err != nil {
			if common {
				return fmt.Errorf("%s: error %v", rs[i].who, rs[i].err)
			}
			continue
		}
		if first == nil {
			first = &rs[i]
			w.Distinct(fix + fmt.Sprint(first.ids))
			continue
		}
		if sameIDs(rs[i].ids, first.ids) {
			continue
		}
		if pin && strings.HasPrefix(rs[i].who, "ent") {
			if alt, err := f.expect(conj(pins), nil); err == nil && sameIDs(rs[i].ids, alt) {
				if want, err := f.expect(conj(trees), nil); err == nil && sameIDs(first.ids, want) {
					return w.Known("not-between", notBetween)
				}
			}
		}
		return fmt.Errorf("%s selects %v, %s selects %v", first.who, first.ids, rs[i].who, rs[i].ids)
	}
	return nil
}

// conj joins trees with and.
func conj(ts []*ref.N) *ref.N {
	out := ref.ParN(ts[0])
	for _, t := range ts[1:] {
		out = ref.LogN(out, "and", ref.ParN(t))
	}
	return out
}
