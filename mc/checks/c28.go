package checks

import (
	"fmt"
	"strings"

	"entgo.io/ent/dialect/sql/sqlgraph"
	"github.com/wenerme/go-miniquery/entmq"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// fault is a condition with a name (@) that the backend does not know.
type fault struct{ backend, text string }

var faults = []fault{
	{"gorm", "@=1"}, {"gorm", "1=@"}, {"gorm", "@ in (1,2)"}, {"gorm", "@ between 1 and 2"}, {"gorm", "@ is not null"}, {"gorm", "@ like 'x'"}, {"gorm", "@(a)=1"}, {"gorm", "1=@()"}, {"gorm", "@.a=1"}, {"gorm", "Firm.@=1"}, {"gorm", "a=Firm.@"}, {"gorm", "Card.@ in (1)"}, {"gorm", "date(@)=1"}, {"gorm", "date(date(Firm.@))=1"}, {"gorm", "a=@"}, {"gorm", "@=@"},
	{"entsql", "@(a)=1"}, {"entsql", "1=@()"}, {"entsql", "@(1,2,3)"}, {"entsql", "date(@(a))=1"}, {"entsql", "has_edge(@)"}, {"entsql", "has_edge(@,a=1)"}, {"entsql", "has_edge(pets,@(a)=1)"}, {"entsql", "has_edge(pets,has_edge(owner,not has_edge(@)))"}, {"entsql", "has_edge(groups,has_edge(users,a=1 or @(b) is null))"}, {"entsql", "@(a) between 1 and 2"}, {"entsql", "a in (1) and @(b) like 'x'"},
	{"entql", "@(a)=1"}, {"entql", "1=@()"}, {"entql", "@(1,2,3)"}, {"entql", "@(a) is null"}, {"entql", "@(a) in (1)"}, {"entql", "not @(a)"},
}

// unknown names, some close to those that are known
var unknown = []string{"nope", "aa", "nam", "name_", "datE", "Date", "has_edges", "hasEdge", "firms", "x1", "Z", "person_id", "Dates", "peTs", "thisIsALongNameThatNobodyHasEverHeardOf_0123456789", "orr", "nulls"}

var faultFrames = []string{"%s", "not %s", "(%s)", "not (%s)", "a=1 and %s", "%s or a=1", "a=1 or (a=2 and not (%s))", "(%s and a=1) or a=2", "a=1 and a=2 and %s and a=3", "not (not (a=1 or %s))"}

// A case is backend \x1e query \x1e names, of which the error has to tell one.
func init() {
	register(&run.Check{ID: "C28", Case: c28Case, Assumptions: []string{
		"of several faults the error has to name one",
	}, Explore: func(x *run.X) {
		put := func(f fault, name string) string { return strings.ReplaceAll(f.text, "@", name) }
		bad := func(f fault, name string) bool {
			// A name may be known to some backend.
			switch f.backend {
			case "gorm":
				return name != "person_id" || !strings.HasPrefix(f.text, "Card.")
			}
			return true
		}
		x.Each("one", func(y func(string) bool) {
			for _, f := range faults {
				for _, n := range unknown {
					if !bad(f, n) {
						continue
					}
					for _, fr := range faultFrames {
						for _, fr2 := range faultFrames {
							if !y(f.backend + "\x1e" + fmt.Sprintf(fr2, "("+fmt.Sprintf(fr, put(f, n))+")") + "\x1e" + n) {
								return
							}
						}
						if !y(f.backend + "\x1e" + fmt.Sprintf(fr, put(f, n)) + "\x1e" + n) {
							return
						}
					}
				}
			}
		})
		x.Each("long names", func(y func(string) bool) {
			for _, f := range faults {
				for _, n := range gen.Upto(x.Bound(300, 1200), 1<<14) {
					name := "zq" + strings.Repeat("abcdefghij", n/10+1)[:n]
					if !y(f.backend+"\x1e"+put(f, name)+"\x1e"+name) || !y(f.backend+"\x1e"+fmt.Sprintf(faultFrames[n%len(faultFrames)], put(f, name))+"\x1e"+name) {
						return
					}
				}
			}
		})
		x.Each("two", func(y func(string) bool) {
			for _, f := range faults {
				for _, g := range faults {
					if f.backend != g.backend {
						continue
					}
					for i, n := range unknown {
						m := unknown[(i*5+3)%len(unknown)]
						if !bad(f, n) || !bad(g, m) || n == m {
							continue
						}
						for _, op := range []string{" and ", " or ", " and not (a=1) or "} {
							if !y(f.backend + "\x1e" + put(f, n) + op + put(g, m) + "\x1e" + n + "\x1f" + m) {
								return
							}
						}
					}
				}
			}
		})
	}})
}

func c28Case(w *run.W, c string) error {
	p := strings.Split(c, "\x1e")
	backend, q, names := p[0], p[1], strings.Split(p[2], "\x1f")
	if ref.Parse(q).Tree == nil {
		return nil // not of the language: the name is not what is wrong
	}
	w.Distinct(c)
	tell := func(way string, err error) error {
		w.Trans(1)
		if err == nil {
			return fmt.Errorf("%s: no error", way)
		}
		for _, n := range names {
			if strings.Contains(err.Error(), n) {
				return nil
			}
		}
		return fmt.Errorf("%s: the error %q does not tell the name that is not known", way, err)
	}
	switch backend {
	case "gorm":
		f := getRelFixture(w)
		_, _, err := f.gormSQL(&Person{}, apply(q))
		if err := tell("scope", err); err != nil {
			return err
		}
		_, _, err = f.gormSQL(&Person{}, applyAll("a=1", q, "a=2"))
		return tell("list", err)
	case "entsql":
		g, ok := w.Local["schema"].(*sqlgraph.Schema)
		if !ok {
			g = newSchema()
			w.Local["schema"] = g
		}
		for _, way := range ways {
			_, _, err := entSQL(q, dialects[0], way, schemaNode(g, "user"), false)
			if err := tell(way, err); err != nil {
				return err
			}
		}
	case "entql":
		_, err := (&entmq.MiniQLToEntQLBuilder{Query: q}).Build()
		if err := tell("builder", err); err != nil {
			return err
		}
		_, err = entmq.BuildEntQL(q)
		return tell("function", err)
	}
	return nil
}
