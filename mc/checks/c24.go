package checks

import (
	"errors"
	"fmt"
	"strings"

	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"entgo.io/ent/schema/field"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

const boolOperands = "a boolean literal as an operand of and, or becomes a predicate on which ent panics"

// qlBad are accepted by the grammar but have no form in entql.
var qlBad = []string{"a like 'x'", "a not like 'x'", "a is true", "a is not false", "x.y=1", "f(a)=1", "f()", "a", "1", "'x'", "null", "true", "(a)", "[1]", "not a", "not true", "not 1", "not (a)", "a and b=1", "b=1 or 1", "a=f(1)", "f(a) is null", "1 is null", "x.y is null", "f(a) between 1 and 2", "x.y in (1)", "date(a)=1", "has_edge(a)", "(a like 'x')=1", "a in (1) and b", "not (a is true)", "(1 is null)", "(a=1) is null", "(a between 1 and 2) is not null", "x.y", "a=x.y", "not x.y", "null and a=1", "'x' or a=1"}

var qlGood = []string{"a=1", "b between 1 and 2", "c in (1,2)", "not d is null", "a>=b", "(a=1 or b!='x')", "not (a<1 and b is not null)", "1<a", "a not in ('x')", "a=null"}

// A case is q query, or l queries separated by \x1f.
func init() {
	register(&run.Check{ID: "C24", Case: c24Case, Explore: func(x *run.X) {
		set := gen.NewSet()
		run1 := func(w *run.W, q string) { w.Run("q" + q) }
		prefixCases(x, set, gen.Theme{Name: "tokens", Tokens: gen.Full}, x.Bound(3, 4), run1)
		for _, th := range gen.Themes {
			prefixCases(x, set, th, x.Bound(th.Quick-2, th.Thorough-1), run1)
		}
		all := append(append([]string{""}, qlGood...), qlBad...)
		x.Each("other languages", func(y func(string) bool) { gen.Foreign(func(q string) bool { return y("q"+q) && y("la=1\x1f"+q) }) })
		x.Each("marks", func(y func(string) bool) { gen.Marks(x.Bound(2, 3), func(q string) bool { return y("q" + q) }) })
		x.Each("deep", deepBuilds)
		x.Each("parts", func(y func(string) bool) {
			for _, p := range all {
				for _, f := range []string{"%s", "not %s", "(%s)", "not (not (%s))", "f(%s)", "(%s) is null", "(%s) is not null", "(%s) is true", "(%s) between 1 and 2", "(%s) not between [1,2]", "(%s) in (1)", "1=(%s)", "(%s)=1", "(%s) like 'x'", "a=(%s)", "(%s) and true", "not (%s) or 1"} {
					if !y("q" + fmt.Sprintf(f, p)) {
						return
					}
				}
			}
		})
		x.Each("long", func(y func(string) bool) {
			for _, bad := range []string{"f(a)=1", "a like 'x'", "a.b=1", "a=1)", "a", "b=1"} {
				longBad(x.Bound(40, 250), x.Bound(4200, 70000), bad, func(q string) bool { return y("q"+q) && y("la=1\x1f"+q+"\x1fb=2") })
			}
		})
		x.Each("pairs", func(y func(string) bool) {
			for _, p := range all[1:] {
				for _, q := range all[1:] {
					for _, f := range []string{"%s and %s", "%s or %s", "not %s or (%s)", "(%s and a=1) or not (%s)", "(%s)=(%s)", "((%s)) and ((%s))", "not (%s and %s)"} {
						if !y("q" + fmt.Sprintf(f, p, q)) {
							return
						}
					}
				}
			}
		})
		for k := 2; k <= x.Bound(3, 4); k++ {
			x.Each(fmt.Sprintf("bad part in logic %d", k), func(y func(string) bool) {
				for i := 0; i < k; i++ {
					for _, b := range []string{"a like 'x'", "a is true", "f(a)=1", "x.y=1", "a", "(1)", "not a", "1 is null"} {
						ok := true
						gen.Skeletons(k, func(j int) gen.E {
							if i == j {
								return parsed(b)
							}
							return parsed(qlGood[(i+j)%len(qlGood)])
						}, func(e gen.E) bool { ok = y("q" + e.Text); return ok })
						if !ok {
							return
						}
					}
				}
			})
		}
		x.Each("edits", func(y func(string) bool) {
			gen.Edits(append(append([]string{}, gen.Corpus...), qlGood...), func(q string) bool { return y("q" + q) })
		})
		x.Each("suffixes", func(y func(string) bool) {
			gen.Suffixed(gen.Primaries, func(e gen.E) bool { return y("q"+e.Text) && y("qnot "+e.Text) })
		})
		x.Each("sizes", func(y func(string) bool) {
			gen.Sizes(x.Bound(60, 200), 10001, x.Bound(1100, 5000), func(q string) bool { return y("q" + q) })
			for n := 1; n <= x.Bound(30, 120); n++ { // the bad part at each depth and place
				for _, b := range []string{"a=1", "a like 'x'", "a", "f(a)=1", "true"} {
					if !y("q"+strings.Repeat("(", n)+b+strings.Repeat(" and b=1)", n)) || !y("q"+strings.Repeat("a=1 and ", n)+b+strings.Repeat(" or b=2", n)) || !y("q"+strings.Repeat("not (", n)+b+strings.Repeat(")", n)) {
						return
					}
				}
			}
		})
		list := append(append([]string{""}, qlGood[:x.Bound(5, 8)]...), "a=", "a", "a like 'x'", "f(a)=1", "a=1)", " ", "a is true", "'")
		for n := 0; n <= x.Bound(4, 5); n++ {
			x.Each(fmt.Sprintf("lists of %d", n), func(y func(string) bool) {
				total := 1
				for i := 0; i < n; i++ {
					total *= len(list)
				}
				for v := 0; v < total; v++ {
					var qs []string
					for i, u := 0, v; i < n; i, u = i+1, u/len(list) {
						qs = append(qs, list[u%len(list)])
					}
					if !y("l" + strings.Join(qs, "\x1f")) {
						return
					}
				}
			})
		}
		x.Each("long lists", func(y func(string) bool) { // the bad query at each position
			for n := 5; n <= x.Bound(24, 60); n++ {
				for pos := -1; pos < n; pos++ {
					var qs []string
					for i := 0; i < n; i++ {
						q := fmt.Sprintf("a=%d", i)
						if i%5 == 3 {
							q = ""
						}
						if i == pos {
							q = []string{"a like 'x'", "a=1 and", "b", "f()"}[n%4]
						}
						qs = append(qs, q)
					}
					if !y("l" + strings.Join(qs, "\x1f")) {
						return
					}
				}
			}
		})
		x.Each("long lists of few queries", func(y func(string) bool) { // the same query more than once
			few := []string{"a=1", "b=2", ""}
			for n := 5; n <= x.Bound(9, 10); n++ {
				ok := true
				gen.Tuples(len(few), n, func(ix []int) bool {
					var qs []string
					for _, i := range ix {
						qs = append(qs, few[i])
					}
					ok = y("l" + strings.Join(qs, "\x1f"))
					return ok
				})
				if !ok {
					return
				}
			}
		})
	}, Assumptions: []string{"whether predicates before a bad query in a list are applied is not fixed, only their order and that none follows"}})
}

type whereRecorder struct{ ps []entql.P }

func (r *whereRecorder) Where(p entql.P) { r.ps = append(r.ps, p) }

func named(err error, q string) bool {
	return strings.Contains(err.Error(), q) || strings.Contains(err.Error(), fmt.Sprintf("%q", q))
}

// qlOutcome is 'p' predicate, 'n' nothing, 'e' error.
func qlOutcome(q string) (*ref.N, byte) {
	if q == "" {
		return nil, 'n'
	}
	t := ref.Parse(q).Tree
	if t == nil || qlKind(t) != 'p' {
		return t, 'e'
	}
	return t, 'p'
}

func c24Case(w *run.W, c string) error {
	if q, _, ok := deepText(c); ok {
		return deepEntQL(w, q)
	}
	if c[0] == 'l' {
		return c24List(w, strings.Split(c[1:], "\x1f"))
	}
	q := c[1:]
	tree, want := qlOutcome(q)
	if tree != nil {
		w.Distinct(tree.Text())
	}
	mb := &entmq.MiniQLToEntQLBuilder{Query: q}
	for i, build := range []func() (entql.P, error){
		mb.Build,
		func() (entql.P, error) { return entmq.BuildEntQL(q) },
		func() (entql.P, error) {
			r := &whereRecorder{}
			err := entmq.ApplyEntQL(r, []string{q})
			if len(r.ps) == 0 {
				return nil, err
			}
			if len(r.ps) > 1 {
				return nil, fmt.Errorf("%d predicates", len(r.ps))
			}
			return r.ps[0], err
		},
	} {
		w.Trans(1)
		p, err := build()
		switch {
		case want == 'e':
			if err == nil {
				return fmt.Errorf("way %d: no error but %v", i, p)
			}
			if p != nil {
				return fmt.Errorf("way %d: error %v and predicate %v", i, err, p)
			}
			if i > 0 && !named(err, q) {
				return fmt.Errorf("way %d: error %q does not name the query", i, err)
			}
		case err != nil:
			return fmt.Errorf("way %d: error %v", i, err)
		case want == 'n':
			if p != nil {
				return fmt.Errorf("way %d: predicate %v", i, p)
			}
		case p == nil:
			return fmt.Errorf("way %d: no predicate", i)
		default:
			if err := c24Use(w, tree, p); err != nil {
				return err
			}
		}
	}
	return nil
}

// c24Use lets ent evaluate a predicate.
func c24Use(w *run.W, tree *ref.N, p entql.P) error {
	fields := map[string]*sqlgraph.FieldSpec{}
	tree.Walk(func(m *ref.N) {
		if m.T == ref.Ident {
			fields[m.S] = &sqlgraph.FieldSpec{Type: field.TypeInt, Column: m.S}
		}
	})
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{{Type: "thing", Fields: fields, NodeSpec: sqlgraph.NodeSpec{Table: "things", ID: &sqlgraph.FieldSpec{Type: field.TypeInt, Column: "id"}}}}}
	_, _, err := evalQL(g, "thing", "things", dialects[0], p)
	if errors.Is(err, errPanic) {
		if boolOperand(tree) {
			return w.Known("bool-operand", boolOperands)
		}
		return fmt.Errorf("ent: %v for %v", err, p)
	}
	if err != nil && qlPlain(tree) {
		return fmt.Errorf("ent: %v for %v", err, p)
	}
	return nil
}

func c24List(w *run.W, qs []string) error {
	w.Distinct(strings.Join(qs, "\x1f"))
	w.Trans(1)
	var want []string
	bad := -1
	for i, q := range qs {
		switch _, o := qlOutcome(q); {
		case o == 'e':
			bad = i
		case o == 'p':
			p, err := entmq.BuildEntQL(q)
			if err != nil {
				return fmt.Errorf("%q alone: error %v", q, err)
			}
			want = append(want, p.String())
		}
		if bad >= 0 {
			break
		}
	}
	keep := append([]string{}, qs...)
	r := &whereRecorder{}
	err := entmq.ApplyEntQL(r, qs)
	for i := range qs {
		if qs[i] != keep[i] {
			return fmt.Errorf("the list was changed at %d", i)
		}
	}
	var got []string
	for _, p := range r.ps {
		if p == nil {
			return fmt.Errorf("nil predicate applied")
		}
		got = append(got, p.String())
	}
	if bad < 0 {
		if err != nil {
			return fmt.Errorf("error %v", err)
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Errorf("applied %q, should be %q", got, want)
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("no error for %q", qs[bad])
	}
	if !named(err, qs[bad]) {
		return fmt.Errorf("error %q does not name %q", err, qs[bad])
	}
	if len(got) > len(want) || strings.Join(got, "\n") != strings.Join(want[:len(got)], "\n") {
		return fmt.Errorf("applied %q, should be the first of %q", got, want)
	}
	return nil
}
