// Package ops is an alphabet of calls into all packages of the repository, for the checks of histories and schedules.
package ops

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"entgo.io/ent/dialect"
	entsql "entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"entgo.io/ent/schema/field"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/utils/tests"
)

// Firm is a relation of Item.
type Firm struct {
	ID   int
	Name string
	A    int
}

// Item is a model.
type Item struct {
	ID       int
	A, B     int
	Name     string
	UserName string
	FirmID   int
	Firm     *Firm
}

// Shop is a relation of Other.
type Shop struct {
	ID   int
	Name string `gorm:"column:label"`
	A    int    `gorm:"column:alpha"`
}

// Other is a model that lacks columns of Item, and the same names mean other columns, relations and tables.
type Other struct {
	ID     int
	A      int    `gorm:"column:alpha"`
	Name   string `gorm:"column:title"`
	FirmID int
	Firm   *Shop
}

// Shared are the values that the calls of one history or schedule share.
type Shared struct {
	DB    *gorm.DB
	Scope func(*gorm.DB) *gorm.DB
	Multi gormq.MiniQuery
	Graph *sqlgraph.Schema
	Tree  *miniquery.Node
	Visit *miniquery.Visitor
	List  []string
}

// NewShared makes fresh shared values.
func NewShared() *Shared {
	db, err := gorm.Open(tests.DummyDialector{}, &gorm.Config{DryRun: true, Logger: logger.Discard, SkipDefaultTransaction: true})
	if err != nil {
		panic(err)
	}
	g := &sqlgraph.Schema{}
	for _, t := range []string{"user", "pet"} {
		g.Nodes = append(g.Nodes, &sqlgraph.Node{Type: t, Fields: map[string]*sqlgraph.FieldSpec{"a": {Type: field.TypeInt, Column: "a"}}, NodeSpec: sqlgraph.NodeSpec{Table: t + "s", Columns: []string{"id", "a"}, ID: &sqlgraph.FieldSpec{Type: field.TypeInt, Column: "id"}}})
	}
	g.MustAddE("pets", &sqlgraph.EdgeSpec{Rel: sqlgraph.O2M, Table: "pets", Columns: []string{"user_pets"}}, "user", "pet")
	g.MustAddE("owner", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2O, Inverse: true, Table: "pets", Columns: []string{"user_pets"}}, "pet", "user")
	g.MustAddE("owner", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2O, Inverse: true, Table: "users", Columns: []string{"boss_id"}}, "user", "user")
	g.MustAddE("friends", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2M, Table: "user_friends", Columns: []string{"user_id", "friend_id"}}, "user", "user")
	s := &Shared{DB: db, Graph: g, Scope: gormq.ApplyMiniQuery("a=1 or name='x'"), List: []string{"a=1", "b=2 or name='x'"}}
	s.Multi = gormq.MiniQuery{Query: []string{"a=1 or b=2", "name in ('x','y')"}}
	// built by hand: the calls under test must not run here
	id := func(n string) *miniquery.Node { return &miniquery.Node{Type: miniquery.IdentifierNodeType, Name: n} }
	val := func(i int) *miniquery.Node {
		return &miniquery.Node{Type: miniquery.ValueNodeType, ValueType: miniquery.IntValueType, Int: i}
	}
	op := func(o miniquery.OpType) *miniquery.Node {
		return &miniquery.Node{Type: miniquery.OperationNodeType, Operation: o}
	}
	eq := func(n string, i int) *miniquery.Node {
		return &miniquery.Node{Type: miniquery.CompareExpressionType, Left: id(n), Op: op(miniquery.OpEQ), Right: val(i)}
	}
	s.Tree = &miniquery.Node{Type: miniquery.LogicExpressionType, Left: eq("a", 1), Op: op(miniquery.OpOr), Right: &miniquery.Node{Type: miniquery.NotExpressionType, Expression: eq("b", 2)}}
	count := func(ctx context.Context, n *miniquery.Node) error {
		log := ctx.Value(logKey{}).(*[]string)
		*log = append(*log, string(n.Type)+":"+n.Name)
		return nil
	}
	s.Visit = &miniquery.Visitor{IdentifierNode: count, ValueNode: count}
	return s
}

type logKey struct{}

// Result of a call: Ser writes it down, Mut changes all that was returned or passed in.
type Result struct {
	Ser func() string
	Mut func()
}

// Op is a call.
type Op struct {
	Name string
	Do   func(s *Shared) Result
}

func text(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func fixed(s string) Result { return Result{func() string { return s }, func() {}} }

var address = regexp.MustCompile(`0x[0-9a-f]+`)

func errText(err error) string {
	if err == nil {
		return ""
	}
	return "error " + address.ReplaceAllString(err.Error(), "0x")
}

// scribble changes everything that can be reached.
func scribble(v reflect.Value, done map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || done[v.Pointer()] {
			return
		}
		done[v.Pointer()] = true
		scribble(v.Elem(), done)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() == reflect.Pointer || v.Elem().Kind() == reflect.Slice {
			scribble(v.Elem(), done)
		} else if v.CanSet() && v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("~"))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i), done)
			}
		}
	case reflect.Slice:
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i), done)
		}
	default:
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.String:
			v.SetString("~")
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
			v.SetInt(-77)
		case reflect.Float64:
			v.SetFloat(-77)
		}
	}
}

func mutate(vs ...any) func() {
	return func() {
		for _, v := range vs {
			if v != nil {
				scribble(reflect.ValueOf(v), map[uintptr]bool{})
			}
		}
	}
}

func parse(q string) Op {
	return Op{"parse " + q, func(*Shared) Result {
		n, err := miniquery.Parse(q)
		return Result{func() string { return text(n) + errText(err) }, mutate(n)}
	}}
}

func build(q string) Op {
	return Op{"build " + q, func(*Shared) Result {
		n, err := miniquery.Parse(q)
		if err != nil {
			return fixed(errText(err))
		}
		return fixed(miniquery.Build(n) + "\n" + n.String() + "\n" + text(n))
	}}
}

func join(qs ...string) Op {
	return Op{"join " + strings.Join(qs, ";"), func(*Shared) Result {
		l := append([]string{}, qs...)
		out := miniquery.Join(l)
		return Result{func() string { return out + text(l) }, mutate(l)}
	}}
}

func scoped(name string, model any, f func(s *Shared) func(*gorm.DB) *gorm.DB) Op {
	return Op{"gorm " + name, func(s *Shared) Result {
		tx := s.DB
		if model != nil {
			tx = tx.Model(model)
		}
		var out []map[string]any
		tx = tx.Where("id > ?", 0).Scopes(f(s)).Find(&out)
		vars := tx.Statement.Vars
		sql := tx.Statement.SQL.String()
		return Result{func() string { return sql + text(vars) + errText(tx.Error) }, mutate(vars)}
	}}
}

func gormQ(model any, q string) Op {
	return scoped(fmt.Sprintf("%T %s", model, q), model, func(*Shared) func(*gorm.DB) *gorm.DB { return gormq.ApplyMiniQuery(q) })
}

// namesake queries a model that has the name of Item and its table, but not its columns.
func namesake(q string) Op {
	type Firm struct {
		ID int
		A  int `gorm:"column:omega"`
	}
	type Item struct {
		ID     int
		A      int    `gorm:"column:omega"`
		Name   string `gorm:"column:caption"`
		FirmID int
		Firm   *Firm
	}
	return scoped("namesake "+q, &Item{}, func(*Shared) func(*gorm.DB) *gorm.DB { return gormq.ApplyMiniQuery(q) })
}

func gormList(qs ...string) Op {
	return scoped("list "+strings.Join(qs, ";"), &Item{}, func(*Shared) func(*gorm.DB) *gorm.DB {
		return gormq.MiniQuery{Query: append([]string{}, qs...)}.Scope
	})
}

func entSQL(dial, typ, q string, nocast bool) Op {
	return Op{fmt.Sprintf("entsql %s %s %v %s", dial, typ, nocast, q), func(s *Shared) Result {
		mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q, DisableTypeCasting: nocast}
		for _, n := range s.Graph.Nodes {
			if n.Type == typ {
				mb.Node = n
			}
		}
		sel := entsql.Dialect(dial).Select("id").From(entsql.Table("users")).Where(entsql.GT("id", 0)).Where(entsql.P(func(b *entsql.Builder) { b.Join(mb) }))
		sql, args := sel.Query()
		return Result{func() string { return sql + text(args) + errText(mb.Err()) + errText(sel.Err()) }, mutate(args)}
	}}
}

func predText(p entql.P) string {
	if p == nil {
		return "none"
	}
	return p.String()
}

func entQL(q string) Op {
	return Op{"entql " + q, func(*Shared) Result {
		p, err := entmq.BuildEntQL(q)
		return Result{func() string { return predText(p) + errText(err) }, mutate(p)}
	}}
}

type recorder struct{ ps []entql.P }

func (r *recorder) Where(p entql.P) { r.ps = append(r.ps, p) }

func entQLs(qs ...string) Op {
	return Op{"entql list " + strings.Join(qs, ";"), func(*Shared) Result {
		r := &recorder{}
		l := append([]string{}, qs...)
		err := entmq.ApplyEntQL(r, l)
		return Result{func() string {
			out := errText(err) + text(l)
			for _, p := range r.ps {
				out += ";" + predText(p)
			}
			return out
		}, func() {
			mutate(l)()
			for _, p := range r.ps {
				mutate(p)()
			}
		}}
	}}
}

func visit(q string, fail string) Op {
	return Op{"visit " + q + " " + fail, func(*Shared) Result {
		n, err := miniquery.Parse(q)
		if err != nil {
			return fixed(errText(err))
		}
		var log []string
		h := func(kind string) miniquery.VisitFunc {
			return func(_ context.Context, n *miniquery.Node) error {
				log = append(log, kind+":"+string(n.Type)+n.Name)
				if kind == fail {
					return errors.New("stop")
				}
				return nil
			}
		}
		v := miniquery.Visitor{IdentifierNode: h("id"), ValueNode: h("value"), OperationNode: h("op"), ReferenceNode: h("ref")}
		v.Init()
		err = v.Visit(context.Background(), n)
		return fixed(strings.Join(log, " ") + errText(err))
	}}
}

const (
	pg    = dialect.Postgres
	my    = dialect.MySQL
	lite  = dialect.SQLite
	mixed = "not (a in (1,'x',null) or b is not null)"
)

// All is the alphabet. The first Core of them stand for all kinds of calls.
var All []Op

// Core is the number of calls in the small alphabet.
var Core int

func init() {
	core := []Op{
		parse("a=1"), parse(mixed), parse("a="), parse("a NOT  IN ('x')"),
		build("f(a,b=1,[1]) or not x.y between 1 and 2"), join("a=1", "b=2 or c=3"), visit(mixed, "op"),
		gormQ(&Item{}, "a=1 or b=2"), gormQ(&Other{}, "a=1 or b=2"), gormQ(&Item{}, "Firm.name='x' and a=1"),
		{"gorm shared", func(s *Shared) Result {
			return scoped("", &Item{}, func(s *Shared) func(*gorm.DB) *gorm.DB { return s.Scope }).Do(s)
		}},
		{"gorm shared other", func(s *Shared) Result {
			return scoped("", &Other{}, func(s *Shared) func(*gorm.DB) *gorm.DB { return s.Scope }).Do(s)
		}},
		{"gorm shared list", func(s *Shared) Result {
			return scoped("", &Item{}, func(s *Shared) func(*gorm.DB) *gorm.DB { return s.Multi.Scope }).Do(s)
		}},
		entSQL(pg, "user", "a=1 or has_edge(pets,a=2 and has_edge(owner,a=3))", false), entSQL(my, "", "a between 1 and 2 or b in (1,'x')", false), entSQL(pg, "user", "has_edge(nope)", false),
		entQL("a=1 and not b is null"), entQL("a like 'x'"), entQLs("a=1", "b in (1,2)"),
	}
	Core = len(core)
	All = append(core,
		parse("a=2"), parse(" a=1"), parse("A=1"), parse(`a="1"`), parse("f(a,b=1,[1])"), parse("x.y between 1 and 2 and true"), parse("a not--c\nlike 'x'"), parse("("), parse("a=99999999999999999999"), parse(""), parse("a and b or c and d"), parse("a || b && c"), parse("a not in ('x')"), parse("a in ['x']"),
		Op{"normalize", func(*Shared) Result {
			var out []string
			for _, o := range []string{"NOT IN", "not\tin", "||", "and", "is--x\nnull", "<>"} {
				out = append(out, miniquery.NormalizeOperation(o))
			}
			return fixed(text(out))
		}},
		build(mixed), build("a='x' and b=\"'\""), join("a=1"), join("", " ", "a=1"), join("a=1", "b=2 or c=3", "d=4"),
		Op{"build shared tree", func(s *Shared) Result {
			return fixed(miniquery.Build(s.Tree) + "\n" + s.Tree.String() + "\n" + text(s.Tree))
		}},
		Op{"visit shared", func(s *Shared) Result {
			v := *s.Visit
			v.Init()
			var log []string
			err := v.Visit(context.WithValue(context.Background(), logKey{}, &log), s.Tree)
			return fixed(strings.Join(log, " ") + errText(err) + text(s.Tree))
		}},
		Op{"gorm shared list other", func(s *Shared) Result {
			return scoped("", &Other{}, func(s *Shared) func(*gorm.DB) *gorm.DB { return s.Multi.Scope }).Do(s)
		}},
		Op{"gorm shared chain", func(s *Shared) Result {
			return scoped("", &Item{}, func(s *Shared) func(*gorm.DB) *gorm.DB {
				return func(db *gorm.DB) *gorm.DB { return s.Multi.Scope(s.Scope(db)) }
			}).Do(s)
		}},
		Op{"join shared", func(s *Shared) Result { return fixed(miniquery.Join(s.List) + text(s.List)) }},
		visit("f(a,1) and x.y=2", ""), visit("a=1 and b=2", "value"),
		gormQ(&Item{}, "a="), gormQ(&Item{}, "zz=1"), gormQ(&Item{}, "f(a)"), gormQ(&Other{}, "name='x'"), gormQ(&Item{}, "name='x'"), gormQ(nil, "a=1"), gormQ(&Item{}, "date(name)='x' and userName like 'y'"), gormQ(&Item{}, "Firm.a=1 or Firm.name='y'"), gormQ(&Item{}, "Firm.zz=1"), gormQ(&Item{}, "a in (1,2) and a between 1 and 3"), gormQ(&Item{}, ""), gormQ(&Item{}, "a=2 or b=3"),
		gormList("a=1", "b=2 or name='x'"), gormList("a=1", "b=2) or (1=1"), gormList("a=1 or b=1", "Firm.a=1"), gormList("a=1"),
		gormQ(&Item{}, "nAme='x' and FIRMID=1"), gormQ(&Other{}, "nAme='x' and FIRMID=1"), gormQ(&Other{}, "Firm.a=1 or Firm.name='y'"), entSQL(pg, "user", "has_edge(owner)", false),
		entSQL(lite, "", "a=1", false), entSQL(pg, "", "a=1", true), entSQL(pg, "", "a=", false), entSQL(pg, "user", "has_edge(friends,has_edge(friends,a=1)) and not userName='x'", false), entSQL(pg, "pet", "has_edge(owner)", false), entSQL(pg, "user", "has_edge(pets,lower(a)=1)", false), entSQL(my, "", "date(a)='x'", true), entSQL(pg, "", "not between1=2 and a=3 or b=9223372036854775807", false),
		namesake("a=1 or name='x'"), namesake("Firm.a=1 or b=1"),
		entQL("a=2 and not b is null"), entQL("a between 1 and 2 or c in (1,2)"), entQL("a"), entQL(""), entQLs("a=1", "a like 'x'", "b=2"), entQLs("", "a=3"),
	)
}

// Kinds are calls with any text.
var Kinds = []struct {
	Name string
	Op   func(q string) Op
}{
	{"parse", parse}, {"build", build},
	{"join", func(q string) Op { return join(q, "a=1", q) }},
	{"visit", func(q string) Op { return visit(q, "") }},
	{"item", func(q string) Op { return gormQ(&Item{}, q) }},
	{"other", func(q string) Op { return gormQ(&Other{}, q) }},
	{"list", func(q string) Op { return gormList(q, "a=1") }},
	{"postgres", func(q string) Op { return entSQL(pg, "user", q, false) }},
	{"nocast", func(q string) Op { return entSQL(pg, "pet", q, true) }},
	{"mysql", func(q string) Op { return entSQL(my, "user", q, false) }},
	{"sqlite", func(q string) Op { return entSQL(lite, "", q, false) }},
	{"entql", entQL},
	{"entqls", func(q string) Op { return entQLs("a=1", q) }},
}

// Near are groups of texts that are close to each other but do not mean the same.
var Near = [][]string{
	{"userName=1", "username=1", "UserName=1", "user_name=1", "USERNAME=1", "USER_NAME=1", "user_Name=1", "user=1"},
	{"a=1", "a='1'", `a="1"`, "a=true", "a='true'", "a=01", "a=null", "a='null'", "a=11"},
	{"name='x'", "name='X'", "name='x '", "name=' x'", "name='x  y'", "name='x y'", "name='x\ty'", "name='xy'", `name="x'"`},
	{"a>1", "a>=1", "a<1", "a<=1", "a=1", "a<>1", "a like 1", "a not like 1"},
	{"a in (1,2)", "a in (2,1)", "a in (1,2,2)", "a in ('1',2)", "a not in (1,2)", "a in (12)", "a in (1,'2')", "a in ('1,2')", "a = '(1,2)'"},
	{"a between 1 and 2", "a between 2 and 1", "a not between 1 and 2", "a between 1 and 12", "a between 11 and 2", "a between '1' and 2"},
	{"a=1 and b=2", "a=1 or b=2", "a=2 and b=1", "b=1 and a=2", "a=1 and b=2 or a=3", "a=1 or b=2 and a=3", "(a=1 or b=2) and a=3", "a=1 and (b=2 or a=3)"},
	{"not a=1", "a=1", "not (a=1)", "(a=1)", "not a", "a", "((a=1))", "b=1"},
	{"a is null", "a is not null", "b is null", "a = null", "not a is null", "a is true"},
	{"a=", "a=1)", "(a=1", "a=1 and", "a=1", "a", "a===1", "a=1 b", "a = "},
	{"a=1 -- x", "a=1", "a=1 --x\n and b=2", "a=1 // y\n", "a='1 -- x'", "a='--'", "a=1 -- and b=2\n"},
	{"Firm.a=1", "Firm.name=1", "firm.a=1", "Firm.A=1", "Firm.zz=1", "Firm.a=1 and a=1", "FirmID=1", "Firm.a=2", "a.Firm=1"},
	{"date(name)='x'", "date(a)='x'", "date(name,'x')='x'", "Date(name)='x'", "date(name)='y'", "date('name')='x'", "nope(name)='x'", "date(b)='x'"},
	{"has_edge(pets)", "has_edge(owner)", "has_edge(pets,a=1)", "has_edge(pets,a=2)", "has_edge(pets,has_edge(owner))", "has_edge(friends,a=1)", "not has_edge(pets)", "has_edge(nope)", "has_edge(pets,has_edge(pets))"},
	{"a=1", "A=1", "b=1", "B=1", "id=1", "ID=1", "Id=1", "zz=1", "ZZ=1"},
	{"name like 'x%'", "name like 'x_'", "name like '%x'", "name not like 'x%'", "name = 'x%'", "name like 'X%'", "name like name"},
	{"a=b", "b=a", "a='b'", "'a'=b", "'a'='b'", "a=a", `"a"="b"`},
}

// NearOp is the name of a call with a text.
func NearOp(kind, q string) string { return "near " + kind + " " + q }

// ByName finds a call.
func ByName(name string) (Op, bool) {
	if f := strings.SplitN(name, " ", 3); len(f) == 3 && f[0] == "near" {
		for _, k := range Kinds {
			if k.Name == f[1] {
				return k.Op(f[2]), true
			}
		}
	}
	for _, o := range All {
		if o.Name == name {
			return o, true
		}
	}
	return Op{}, false
}

// Run performs calls one after another. With mut the results are changed after each call,
// otherwise the results are written down again at the end.
func Run(names []string, mut bool) (out, again []string) {
	s := NewShared()
	var rs []Result
	for _, n := range names {
		op, ok := ByName(n)
		if !ok {
			panic("no call " + n)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					out = append(out, fmt.Sprint("panic ", r))
					rs = append(rs, fixed("panic"))
				}
			}()
			r := op.Do(s)
			out = append(out, r.Ser())
			rs = append(rs, r)
			if mut {
				r.Mut()
			}
		}()
	}
	if !mut {
		for _, r := range rs {
			again = append(again, r.Ser())
		}
	}
	return out, again
}
