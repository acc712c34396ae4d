package checks

import (
	"fmt"
	"log/slog"
	"strings"

	entsql "entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/gen"
	"verif/mc/run"
)

// rendered is what one operation of a history gives.
type rendered struct {
	text string
	args []any
	p    entql.P
	err  bool
}

func (r rendered) String() string {
	return fmt.Sprintf("%s %#v %v failed=%v", r.text, plains(r.args), r.p, r.err)
}

// subject is something with a query in it that can be rendered.
type subject interface {
	// do performs an operation; dry only makes the lasting part of it.
	do(op byte, dry bool) rendered
}

var (
	renderOps = map[string]string{"selector": "qcndwlsoe", "update": "qdw", "builder": "qjkpgd", "entql": "bfghve"}
	renderQs  = []string{"a=1", "a=1 or name='x'", "not a between 1 and 2", "a in (1,2,3) and name like 'x%'", "a is null", "has_edge(pets)", "has_edge(pets,a=1 or name='x') and a=2", "not has_edge(groups,has_edge(users,a=1))", "date(name)='x'", "1=1 or true", "f(a)=1", "has_edge(pets,f(a)=1)", "a=", "has_edge(none)", ""}
	entqlQs   = []string{"a=1", "a=1 or name='x' and a in (1,2)", "not (a between 1 and 2)", "a is null or not name is not null", "a like 'x'", "f(a)=1", "a=1 and f(a)=1", "a", "a=", ""}
)

var failing = map[string]bool{"f(a)=1": true, "has_edge(pets,f(a)=1)": true, "a=": true, "has_edge(none)": true, "": true}

func init() {
	slog.SetDefault(slog.New(slog.DiscardHandler)) // entql tells of what earlier failures left behind
	register(&run.Check{ID: "C29", Case: c29Case, Explore: func(x *run.X) {
		seqs := func(y func(string) bool, prefix, ops string, n int) bool {
			var rec func(s string) bool
			rec = func(s string) bool {
				if len(s) == n {
					return y(prefix + s)
				}
				for _, o := range ops {
					if !rec(s + string(o)) {
						return false
					}
				}
				return true
			}
			return rec("")
		}
		for n := 2; n <= x.Bound(4, 5); n++ {
			x.Each(fmt.Sprintf("%d operations", n), func(y func(string) bool) {
				for _, kind := range []string{"selector", "update", "builder"} {
					for _, q := range renderQs {
						for _, way := range []string{"made", "held", "two", "shared"} {
							if kind == "builder" && way != "held" || n > x.Bound(3, 4) && way == "two" {
								continue
							}
							if !seqs(y, kind+"\x1e"+q+"\x1e"+way+"\x1e", renderOps[kind], n) {
								return
							}
						}
					}
				}
				for _, q := range entqlQs {
					if !seqs(y, "entql\x1e"+q+"\x1eheld\x1e", renderOps["entql"], n) {
						return
					}
				}
			})
		}
		// every kind of query in a few histories
		shapes := func(y func(q string) bool) {
			parts := append(append([]string{"a", "(a)", "1", "f()", "a not between 1 and 2", "a is true", "(a) in ((1))", "a in []"}, goodParts...), badParts...)
			for _, p := range parts {
				for _, f := range []string{"%s", "not %s", "(%s)", "((%s))", "not (not (%s))", "date(%s)", "date((%s))='x'", "(%s) is null", "(%s) between 1 and 2", "(%s) not between 1 and 2", "(%s) in (1)", "1=(%s)", "not (%s)=1", "a=1 and %s", "%s or a=1"} {
					if !y(fmt.Sprintf(f, p)) {
						return
					}
				}
				for _, e := range edgesOf("user") {
					for _, f := range []string{"has_edge(%s,%s)", "has_edge(%s,(%s))", "has_edge(%s,((%s)))", "not has_edge(%s,not (%s) or a=1)", "has_edge(%s,a=1 and (%s))", "a=1 or has_edge(%s,(%s) is null)"} {
						q := fmt.Sprintf(f, e.name, p)
						if !y(q) || !y("has_edge(parent,"+q+")") {
							return
						}
					}
				}
			}
			for _, p := range parts {
				for _, q := range parts {
					for _, f := range []string{"%s and %s", "has_edge(parent,%s and %s)", "(%s) = (%s)", "not %s or (%s)", "has_edge(parent,%s) and has_edge(groups,%s)", "(%s) between 1 and 2 and (%s) between 3 and 4"}[:x.Bound(2, 6)] {
						if !y(fmt.Sprintf(f, p, q)) {
							return
						}
					}
				}
			}
			ok := true
			each := func(e gen.E) bool { ok = y(e.Text); return ok }
			prims := gen.PrimaryShort
			if x.Thorough {
				prims = gen.Primaries
			}
			gen.Suffixed(prims, each)
			for k := 1; ok && k <= x.Bound(2, 3); k++ {
				for shift := range conds {
					if ok {
						gen.Skeletons(k, func(i int) gen.E { return conds[(i+shift)%len(conds)] }, each)
					}
				}
			}
		}
		for _, h := range []string{"selector\x1eheld\x1eqcq", "selector\x1eshared\x1edq", "selector\x1emade\x1eqnq", "update\x1eheld\x1eqq", "builder\x1eheld\x1eqqj", "builder\x1eheld\x1ejpg", "builder\x1eheld\x1edgq", "entql\x1eheld\x1ebbh", "entql\x1eheld\x1eebv"} {
			p := strings.Split(h, "\x1e")
			x.Each("shapes, "+strings.Join(p, " "), func(y func(string) bool) {
				shapes(func(q string) bool { return y(p[0] + "\x1e" + q + "\x1e" + p[1] + "\x1e" + p[2]) })
			})
		}
		x.Each("many times", func(y func(string) bool) {
			for _, n := range []int{8, 20, 65, 130, 300} {
				for kind, ops := range renderOps {
					qs := renderQs
					if kind == "entql" {
						qs = entqlQs
					}
					for _, q := range qs {
						for _, o := range ops {
							if (o == 'w' || o == 'o') && n > 20 || kind != "entql" && failing[q] {
								continue // ent piles up conditions and errors
							}
							if !y(kind + "\x1e" + q + "\x1eheld\x1e" + strings.Repeat(string(o), n)) {
								return
							}
						}
					}
				}
			}
		})
	}, Assumptions: []string{"a history that changes the result of ent's own predicates in the same place is not judged", "the query of a builder is not changed between renderings (entsql)"}})
}

func c29Case(w *run.W, c string) error {
	p := strings.Split(c, "\x1e")
	kind, q, way, ops := p[0], p[1], p[2], p[3]
	node := schemaNode(getWorld(w).graph, "user")
	got, later := renderings(kind, q, way, node, getWorld(w).graph, ops)
	if kind != "entql" && kind != "builder" {
		// ent alone
		e, l := renderings(kind, "ent", way, node, nil, ops)
		for i := range ops {
			if want := fresh(kind, "ent", way, node, nil, ops[:i+1]).String(); e[i] != want || l[i] != want {
				return nil
			}
		}
	}
	for i := range ops {
		want := fresh(kind, q, way, node, getWorld(w).graph, ops[:i+1])
		w.Trans(1)
		w.Distinct(want.String())
		if got[i] != want.String() {
			return fmt.Errorf("operation %d (%c) gives %s, on a new statement %s", i+1, ops[i], got[i], want)
		}
		if later[i] != got[i] {
			return fmt.Errorf("what operation %d (%c) gave, %s, is later %s", i+1, ops[i], got[i], later[i])
		}
	}
	return nil
}

// renderings are the result of every operation, at once and at the end.
func renderings(kind, q, way string, node *sqlgraph.Node, g *sqlgraph.Schema, ops string) (now, later []string) {
	s := newSubject(kind, q, way, node, g)
	var all []rendered
	for i := range ops {
		all = append(all, s.do(ops[i], false))
		now = append(now, all[i].String())
	}
	for _, r := range all {
		later = append(later, r.String())
	}
	return
}

func fresh(kind, q, way string, node *sqlgraph.Node, g *sqlgraph.Schema, ops string) rendered {
	s := newSubject(kind, q, way, node, g)
	for i := range ops[:len(ops)-1] {
		s.do(ops[i], true)
	}
	return s.do(ops[len(ops)-1], false)
}

func newSubject(kind, q, way string, node *sqlgraph.Node, g *sqlgraph.Schema) subject {
	mk := func() *entsql.Predicate {
		if q == "ent" {
			return entsql.Or(entsql.EQ("a", 1), entsql.In("name", "x", "y"))
		}
		mb := func() *entmq.MiniQLToEntSQLBuilder { return &entmq.MiniQLToEntSQLBuilder{QueryString: q, Node: node} }
		if way != "made" {
			held := mb()
			return entsql.P(func(b *entsql.Builder) { b.Join(held) })
		}
		return entsql.P(func(b *entsql.Builder) { b.Join(mb()) })
	}
	preds := []*entsql.Predicate{mk()}
	switch way {
	case "two":
		preds = append(preds, mk())
	case "shared":
		preds = append(preds, preds[0])
	}
	switch kind {
	case "selector":
		s := entsql.Dialect(dialects[0]).Select("id").From(entsql.Table("users")).Where(entsql.EQ("name", "n"))
		for _, p := range preds {
			s.Where(p)
		}
		return &selSubject{s: s}
	case "update":
		u := entsql.Dialect(dialects[0]).Update("users").Set("a", 5)
		for _, p := range preds {
			u.Where(p)
		}
		return &updSubject{u: u}
	case "builder":
		mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q, Node: node}
		return &mbSubject{mb: mb, dial: dialects[0]}
	}
	return &qlSubject{mb: entmq.MiniQLToEntQLBuilder{Query: q}, q: q, graph: g}
}

type selSubject struct {
	s *entsql.Selector
	d int
	n int
}

func (s *selSubject) do(op byte, dry bool) (r rendered) {
	switch op {
	case 'd':
		s.d++
		s.s.SetDialect(dialects[s.d%len(dialects)])
	case 'w':
		s.n++
		s.s.Where(entsql.EQ("a", s.n))
	case 'o':
		s.n++
		s.s.Where(entsql.Or(entsql.EQ("a", s.n), entsql.EQ("name", "z")))
	case 'l':
		s.n++
		s.s.Limit(s.n)
	}
	if dry {
		return
	}
	q := s.s
	switch op {
	case 'c':
		q = s.s.Clone()
	case 'n':
		q = s.s.Clone().Select(entsql.Count("*"))
	case 's':
		q = entsql.Dialect(s.s.Dialect()).Select("id").From(entsql.Table("users")).Where(entsql.EQ("a", 9)).Where(entsql.In("id", s.s))
	case 'e':
		s.s.Err() // known only once the statement is rendered
		return
	}
	q.SetTotal(0) // ent counts on
	r.text, r.args = q.Query()
	r.err = q.Err() != nil
	return
}

type updSubject struct {
	u *entsql.UpdateBuilder
	d int
}

func (s *updSubject) do(op byte, dry bool) (r rendered) {
	switch op {
	case 'd':
		s.d++
		s.u.SetDialect(dialects[s.d%len(dialects)])
	case 'w':
		s.u.Where(entsql.EQ("a", 3))
	}
	if !dry {
		r.text, r.args = s.u.Query()
		r.err = s.u.Err() != nil
	}
	return
}

// mbSubject is the builder itself, used in one way after another.
type mbSubject struct {
	mb   *entmq.MiniQLToEntSQLBuilder
	dial string
	n    int
}

func (s *mbSubject) do(op byte, dry bool) (r rendered) {
	if op == 'd' {
		s.n++
		s.dial = dialects[s.n%len(dialects)]
	}
	if dry {
		return
	}
	b := &entsql.Builder{}
	b.SetDialect(s.dial)
	switch op {
	case 'k':
		b.Arg(1).Arg(2).Pad()
		fallthrough
	case 'j':
		b.Join(s.mb)
		r.text, r.args = b.Query()
		r.err = s.mb.Err() != nil
	case 'p':
		p := entsql.And(entsql.EQ("a", 5), entsql.P(func(b *entsql.Builder) { b.Join(s.mb) }))
		p.SetDialect(s.dial)
		r.text, r.args = p.Query()
		r.err = s.mb.Err() != nil
	case 'g':
		s.mb.SQLBuilder = b
		s.mb.SetDialect(s.dial)
		s.mb.Query()
		s.mb.SQLBuilder = nil
		r.text, r.args = b.Query()
		r.err = s.mb.Err() != nil
	default:
		s.mb.SetDialect(s.dial)
		s.mb.SetTotal(0)
		r.text, r.args = s.mb.Query()
		r.err = s.mb.Err() != nil
	}
	if r.err {
		r.text, r.args = "", nil
	}
	return
}

// qlSubject is a builder of entql and the predicate it gave last.
type qlSubject struct {
	mb    entmq.MiniQLToEntQLBuilder
	q     string
	graph *sqlgraph.Schema
	p     entql.P
}

func (s *qlSubject) do(op byte, dry bool) (r rendered) {
	build := func(q string) {
		s.mb.Query = q
		p, err := s.mb.Build()
		r.err = err != nil
		if err == nil {
			s.p, r.p = p, p
		}
	}
	switch op {
	case 'f':
		s.q = "name='x' and not f(a)=1"
	case 'g':
		s.q = "name='x' or a=3"
	case 'h':
		s.q = "a=3"
	}
	if dry {
		return
	}
	switch op {
	case 'b', 'f', 'g', 'h':
		build(s.q)
	case 'e':
		build(s.q)
		if s.p == nil || r.err {
			return
		}
		sel := entsql.Dialect(dialects[0]).Select("id").From(entsql.Table("users"))
		r.err = s.graph.EvalP("user", s.p, sel) != nil
		r.text, r.args = sel.Query()
	case 'v':
		p, err := entmq.BuildEntQL(s.q)
		r.err = err != nil
		if err == nil {
			r.p = p
		}
	}
	return
}
