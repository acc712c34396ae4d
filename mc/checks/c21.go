package checks

import (
	"errors"
	"fmt"
	"strings"

	entsql "entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// entSupported tells whether entsql has to accept (1), has to report (0) or may do either (2).
// t is the node type the query is about, "" without a node.
func entSupported(n *ref.N, t string) int {
	all := func(rs ...int) int {
		out := 1
		for _, r := range rs {
			if r == 0 {
				return 0
			}
			if r == 2 {
				out = 2
			}
		}
		return out
	}
	rec := func(n *ref.N) int { return entSupported(n, t) }
	switch n.T {
	case ref.Val:
		if n.VT == ref.Arr && len(n.Kids) == 0 {
			return 2 // an empty list has no SQL form everywhere
		}
		return 1
	case ref.Ident:
		return 1
	case ref.Not, ref.Paren:
		return rec(n.X)
	case ref.Logic, ref.Cmp:
		return all(rec(n.L), rec(n.R))
	case ref.Pred:
		if n.Op != "is null" && n.Op != "is not null" {
			return 0
		}
		return rec(n.L)
	case ref.Betw:
		return all(rec(n.L), rec(n.Kids[0]), rec(n.Kids[1]))
	case ref.Fn:
		switch n.S {
		case "date":
			if len(n.Kids) != 1 {
				return 0
			}
			return rec(n.Kids[0])
		case "has_edge":
			if t == "" || len(n.Kids) < 1 || len(n.Kids) > 2 {
				return 0
			}
			e := edgeOf(t, n.Kids[0].S)
			if e == nil || n.Kids[0].T != ref.Ident {
				return 0
			}
			out := 1
			if len(n.Kids) == 2 {
				c := n.Kids[1]
				if c.T == ref.Val || c.T == ref.Ident || c.T == ref.Refr {
					return 0
				}
				out = all(out, entSupported(c, e.to))
			}
			return out
		}
	}
	return 0
}

var edgeTheme = []gen.Theme{
	{Name: "edge", Start: "has_edge(", Tokens: []string{"pets", "parent", ",", "a=1", ")", " and ", "has_edge(", "a", "nope", " "}, Quick: 6, Thorough: 8},
	{Name: "call", Start: "", Tokens: []string{"date(", "lower(", "has_edge(", "a", ",", ")", "=1", " or ", "not ", "pets", "1", "a.b", " is true"}, Quick: 5, Thorough: 6},
}

// badParts are accepted by the grammar but have no form in entsql.
var badParts = []string{"lower(a)=1", "a is true", "a is not false", "x.y=1", "has_edge(nope)", "has_edge()", "date()", "date(a,1)=1", "has_edge(pets,1)", "has_edge(pets,a)", "has_edge(pets,a=1,b=2)", "has_edge(1)", "has_edge('pets')", "has_edge(pets())", "has_edge(pets(a))", "has_edge(pets(lower(a)),a=1)", "has_edge((pets))", "has_edge(not pets)", "has_edge(pets is null)", "has_edge(pets,x.y=1)", "has_edge(pets,not lower(a)=1)",
	"has_edge(pets,has_edge(pets))", "has_edge(pets,has_edge(owner,a is true))", "has_edge(a=1)", "has_edge(pets.owner)", "has_edge(pets,[1])", "has_edge(nope,a=1)", "Date(a)=1", "HAS_EDGE(pets)", "a=lower(1)", "a like lower(b)", "(a is true)=1", "lower(a) between 1 and 2", "lower(a) is null", "lower(a) in (1)", "x.y in (1)", "x.y between 1 and 2", "x.y is null", "date(x.y)=1", "date(lower(a))=1"}

var goodParts = []string{"a=1", "b between 1 and 2", "c in (1,2)", "not d is null", "date(a)='x'", "has_edge(pets)", "has_edge(pets,a=1 or b=2)", "has_edge(children,has_edge(pets,not a=1))", "a like 'x'", "1"}

// A case is a query.
func init() {
	register(&run.Check{ID: "C21", Case: c21Case, Explore: func(x *run.X) {
		set := gen.NewSet()
		run1 := func(w *run.W, q string) { w.Run(q) }
		for _, th := range edgeTheme {
			prefixCases(x, set, th, x.Bound(th.Quick, th.Thorough), run1)
		}
		prefixCases(x, set, gen.Theme{Name: "tokens", Tokens: gen.Full}, x.Bound(3, 4), run1)
		for _, th := range gen.Themes {
			prefixCases(x, set, th, x.Bound(th.Quick-3, th.Thorough-2), run1)
		}
		parts := append(append([]string{}, goodParts...), badParts...)
		x.Each("other languages", gen.Foreign)
		x.Each("marks", func(y func(string) bool) { gen.Marks(x.Bound(2, 3), y) })
		x.Each("deep", deepBuilds)
		x.Each("parts", func(y func(string) bool) {
			for _, p := range parts {
				for _, f := range []string{"%s", "not %s", "(%s)", "not (not (%s))", "f(%s)", "date(%s)", "date((%s))", "(%s) is null", "(%s) between 1 and 2", "(%s) in (1)", "1=(%s)", "(%s)=1", "(%s) is true"} {
					if !y(fmt.Sprintf(f, p)) {
						return
					}
				}
				for _, e := range edgesOf("user") {
					for _, f := range []string{"has_edge(%s,%s)", "not has_edge(%s,not (%s))", "has_edge(%s,%s or a=1)", "has_edge(%s,a=1 and %s)", "a=1 or has_edge(%s,(%s))"} {
						q := fmt.Sprintf(f, e.name, p)
						if !y(q) || !y("has_edge(parent,"+q+")") || !y("has_edge(following,not "+q+") or 1=1") {
							return
						}
					}
				}
			}
		})
		x.Each("names of edges", func(y func(string) bool) {
			for _, e := range edgesOf("user") {
				if !variants(e.name, func(v string) bool {
					return y("has_edge("+v+")") && y("not has_edge("+v+",a=1)") && y("has_edge(parent,has_edge("+v+"))")
				}) {
					return
				}
			}
		})
		x.Each("long", func(y func(string) bool) {
			for _, bad := range []string{"f(a)=1", "has_edge(zz)", "has_edge(pets,f(a)=1)", "a.b=1", "a=1)", "has_edge(pets,a=1)"} {
				longBad(x.Bound(20, 250), x.Bound(4200, 70000), bad, y)
			}
		})
		x.Each("pairs", func(y func(string) bool) {
			for _, p := range parts {
				for _, q := range parts {
					for _, f := range []string{"%s and %s", "%s or %s", "not %s or (%s)", "(%s and a=1) or not (%s)", "has_edge(parent,%s and %s)", "has_edge(parent,%s) and has_edge(groups,%s)", "has_edge(children,%s or has_edge(parent,%s))"} {
						if !y(fmt.Sprintf(f, p, q)) {
							return
						}
					}
				}
			}
		})
		for k := 2; k <= x.Bound(3, 4); k++ {
			x.Each(fmt.Sprintf("bad part in logic %d", k), func(y func(string) bool) {
				for i := 0; i < k; i++ {
					for _, b := range []string{"lower(a)=1", "a is true", "has_edge(nope)", "has_edge(pets,x.y=1)"} {
						ok := true
						gen.Skeletons(k, func(j int) gen.E {
							if i == j {
								return gen.E{Text: b, Tree: ref.Parse(b).Tree}
							}
							g := goodParts[(i+j)%len(goodParts)]
							return gen.E{Text: g, Tree: ref.Parse(g).Tree}
						}, func(e gen.E) bool { ok = y(e.Text); return ok })
						if !ok {
							return
						}
					}
				}
			})
		}
		x.Each("edits", func(y func(string) bool) {
			corpus := append(append([]string{}, gen.Corpus...), goodParts...)
			corpus = append(corpus, "has_edge(pets,a=1 and has_edge(owner,not (b=2 or c is null)))", "not has_edge(groups) or has_edge(card,date(a)='x')")
			gen.Edits(corpus, y)
		})
		x.Each("suffixes", func(y func(string) bool) {
			gen.Suffixed(gen.Primaries, func(e gen.E) bool { return y(e.Text) && y("not "+e.Text) })
		})
		x.Each("sizes", func(y func(string) bool) {
			gen.Sizes(x.Bound(60, 200), 10001, x.Bound(1100, 5000), y)
			for n := 1; n <= x.Bound(12, 40); n++ { // the bad part at each depth
				for _, b := range []string{"a=1", "lower(a)=1", "a", "has_edge(nope)"} {
					for _, e := range []string{"parent", "children", "following"} {
						if !y(strings.Repeat("has_edge("+e+",", n) + b + strings.Repeat(")", n)) {
							return
						}
					}
					if !y(strings.Repeat("(", n)+b+strings.Repeat(" and b=1)", n)) || !y(strings.Repeat("a=1 and ", n)+b+strings.Repeat(" or b=2", n)) {
						return
					}
				}
			}
		})
	}, Assumptions: []string{"an empty list and a call in place of an edge name may be accepted or reported"}})
}

func c21Case(w *run.W, q string) error {
	if q, _, ok := deepText(q); ok {
		return deepEntSQL(w, q)
	}
	g, ok := w.Local["schema"].(*sqlgraph.Schema)
	if !ok {
		g = newSchema()
		w.Local["schema"] = g
	}
	tree := ref.Parse(q).Tree
	if tree != nil {
		w.Distinct(tree.Text())
	}
	for _, t := range []string{"", "user"} {
		want := 0
		if tree != nil {
			want = entSupported(tree, t)
			w.Trans(1)
		}
		var node *sqlgraph.Node
		if t != "" {
			node = schemaNode(g, t)
		}
		for i, way := range append([]string{"selector"}, ways...) {
			if tree == nil && t != "" && i > 1 {
				continue // rejected by the parser, whatever the node
			}
			for _, d := range dialects {
				if i > 0 && d != dialects[i-1] {
					continue
				}
				if i == 0 && d != dialects[0] && (tree == nil || t == "") {
					continue
				}
				var err error
				if way == "selector" {
					mb := &entmq.MiniQLToEntSQLBuilder{Node: node, QueryString: q}
					s := entsql.Dialect(d).Select("id").From(entsql.Table("users")).Where(entsql.P(func(b *entsql.Builder) { b.Join(mb) }))
					s.Query()
					if (s.Err() == nil) != (mb.Err() == nil) {
						return fmt.Errorf("%s, node %q: error of the builder is %v, of the selector %v", d, t, mb.Err(), s.Err())
					}
					err = mb.Err()
				} else {
					_, _, err = entSQL(q, d, way, node, false)
					if errors.Is(err, errSplit) {
						return fmt.Errorf("%s %s, node %q: %v", d, way, t, err)
					}
				}
				if want == 0 && err == nil {
					return fmt.Errorf("%s %s, node %q: no error", d, way, t)
				}
				if want == 1 && err != nil {
					return fmt.Errorf("%s %s, node %q: error %v", d, way, t, err)
				}
			}
		}
	}
	return nil
}
