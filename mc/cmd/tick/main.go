//go:build tick

// tick reads cases from its input, a JSON string per line, and answers each with how the steps of every operation grow.
package main

import (
	"bufio"
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	entsql "entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/schema/field"
	"github.com/glebarez/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"

	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"
	"github.com/wenerme/go-miniquery/vtick"
)

type Row struct {
	ID    int64
	A     int64
	B     string
	C     int64
	RelID int64
	Rel   *Row `gorm:"foreignKey:RelID"`
}

var (
	db   *gorm.DB
	node *sqlgraph.Node
)

func open() {
	c, err := sql.Open("sqlite", ":memory:")
	if err == nil {
		db, err = gorm.Open(sqlite.Dialector{Conn: c}, &gorm.Config{DryRun: true, Logger: logger.Discard, DisableAutomaticPing: true, SkipDefaultTransaction: true})
	}
	if err != nil {
		panic(err)
	}
	g := &sqlgraph.Schema{}
	for _, t := range []string{"user", "pet"} {
		g.Nodes = append(g.Nodes, &sqlgraph.Node{Type: t, Fields: map[string]*sqlgraph.FieldSpec{"a": {Type: field.TypeInt, Column: "a"}}, NodeSpec: sqlgraph.NodeSpec{Table: t + "s", Columns: []string{"id", "a"}, ID: &sqlgraph.FieldSpec{Type: field.TypeInt, Column: "id"}}})
	}
	g.MustAddE("e", &sqlgraph.EdgeSpec{Rel: sqlgraph.O2M, Table: "users", Columns: []string{"parent_id"}}, "user", "user")
	g.MustAddE("p", &sqlgraph.EdgeSpec{Rel: sqlgraph.O2M, Table: "pets", Columns: []string{"owner_id"}}, "user", "pet")
	g.MustAddE("p", &sqlgraph.EdgeSpec{Rel: sqlgraph.M2O, Inverse: true, Table: "pets", Columns: []string{"owner_id"}}, "pet", "user")
	node = g.Nodes[0]
}

// An op does something with a query and tells how long its answer is.
type op struct {
	name  string
	bytes bool // memory is that of the repository's code
	do    func(q string, tree *miniquery.Node) int
}

var ops = []op{
	{"print", true, func(q string, t *miniquery.Node) int { return len(miniquery.Build(t)) }},
	{"show", true, func(q string, t *miniquery.Node) int { return len(t.String()) }},
	{"visit", true, func(q string, t *miniquery.Node) int {
		n := 0
		count := func(context.Context, *miniquery.Node) error { n++; return nil }
		v := &miniquery.Visitor{IdentifierNode: count, ReferenceNode: count, OperationNode: count}
		v.Init()
		_ = v.Visit(context.Background(), t)
		return n
	}},
	{"gorm", false, func(q string, t *miniquery.Node) int {
		var out []Row
		tx := db.Model(&Row{}).Scopes(gormq.ApplyMiniQuery(q)).Find(&out)
		return tx.Statement.SQL.Len() + len(tx.Statement.Vars)
	}},
	{"entsql", false, func(q string, t *miniquery.Node) int {
		mb := &entmq.MiniQLToEntSQLBuilder{Node: node, QueryString: q}
		s, args := entsql.Dialect("postgres").Select("a").From(entsql.Table("users")).Where(entsql.P(func(b *entsql.Builder) { b.Join(mb) })).Query()
		return len(s) + len(args)
	}},
	{"entql", true, func(q string, t *miniquery.Node) int { _, _ = entmq.BuildEntQL(q); return 0 }},
	{"join", true, func(q string, t *miniquery.Node) int { return len(miniquery.Join([]string{q, q})) }},
}

// memory is how many repetitions it takes to measure memory.
const memory = 500

type sample struct {
	done              bool
	steps, bytes, out int64
}

// measure runs f; over tells that it was given up.
func measure(length int, mem bool, f func() int) (s sample, over bool) {
	var a, b runtime.MemStats
	if mem {
		runtime.ReadMemStats(&a)
	}
	vtick.N, vtick.Limit = 0, 3000000+10000*int64(length)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vtick.Over); !ok {
				panic(r)
			}
			over = true
		}
		s.steps = vtick.N
		if s.steps >= vtick.Limit {
			over = true
		}
		vtick.Limit = 0
		if !mem {
			return
		}
		runtime.ReadMemStats(&b)
		s.bytes = int64(b.TotalAlloc - a.TotalAlloc)
	}()
	s.out = int64(f())
	return
}

type answer struct {
	Bad   string
	Steps int64
	Ops   int
	Valid bool
}

func text(p []string, n int) string {
	return p[0] + strings.Repeat(p[1], n) + p[2] + strings.Repeat(p[3], n) + p[4]
}

// judge measures all operations on the text with its parts repeated more and more often.
func judge(p []string, sizes [4]int) (ans answer) {
	var last int64
	names := []string{"parse"}
	for _, o := range ops {
		names = append(names, o.name)
	}
	samples := make([][4]sample, len(names))
	for i, n := range sizes {
		q := text(p, n)
		var tree *miniquery.Node
		var err error
		for k, name := range names {
			if k > 0 && err != nil && name != "join" {
				continue
			}
			s, over := measure(len(q), sizes[3] >= memory, func() int {
				if k > 0 {
					return ops[k-1].do(q, tree)
				}
				if tree, err = miniquery.Parse(q); err != nil {
					return len(err.Error()) / 1000 // may repeat a part of the text
				}
				return 0
			})
			ans.Steps += s.steps
			last = s.steps
			if over {
				ans.Bad = fmt.Sprintf("%s of %d characters is not done after %d steps", name, len(q), last)
				return
			}
			ans.Ops++
			s.done = true
			samples[k][i] = s
		}
		ans.Valid = err == nil
	}
	for k, name := range names {
		s := samples[k]
		if !s[3].done || !s[0].done {
			continue
		}
		per := func(v func(sample) int64) (float64, float64) {
			return float64(v(s[1])-v(s[0])) / float64(sizes[1]-sizes[0]), float64(v(s[3])-v(s[2])) / float64(sizes[3]-sizes[2])
		}
		if a, b := per(func(s sample) int64 { return s.steps }); b > 1.5*max(a, 0)+10 {
			ans.Bad = fmt.Sprintf("%s takes %.0f steps per repetition up to %d, %.0f up to %d", name, a, sizes[1], b, sizes[3])
		}
		if a, b := per(func(s sample) int64 { return s.out }); b > 1.5*max(a, 0)+20 {
			ans.Bad = fmt.Sprintf("the answer of %s has %.0f characters per repetition up to %d, %.0f up to %d", name, a, sizes[1], b, sizes[3])
		}
		if k > 0 && !ops[k-1].bytes || sizes[3] < memory {
			continue
		}
		// tables of a fixed size grow at some length
		if a, b := per(func(s sample) int64 { return s.bytes }); b > 4*max(a, 0)+3000 {
			ans.Bad = fmt.Sprintf("%s takes %.0f bytes per repetition up to %d, %.0f up to %d", name, a, sizes[1], b, sizes[3])
		}
	}
	return
}

// joined measures joining more and more queries, a and b in turn.
func joined(a, b string, sizes [4]int) (ans answer) {
	var s [4]sample
	for i, n := range sizes {
		var l []string
		for k := 0; k < n; k++ {
			l = append(l, a, b)
		}
		var over bool
		if s[i], over = measure(2*n, true, func() int { return len(miniquery.Join(l)) }); over {
			ans.Bad = fmt.Sprintf("%d queries are not joined after %d steps", 2*n, s[i].steps)
			return
		}
		ans.Steps += s[i].steps
		ans.Ops++
	}
	per := func(v func(sample) int64) (float64, float64) {
		return float64(v(s[1])-v(s[0])) / float64(sizes[1]-sizes[0]), float64(v(s[3])-v(s[2])) / float64(sizes[3]-sizes[2])
	}
	for name, v := range map[string]func(sample) int64{
		"steps": func(s sample) int64 { return s.steps }, "bytes": func(s sample) int64 { return s.bytes }, "characters": func(s sample) int64 { return s.out },
	} {
		if x, y := per(v); y > 4*max(x, 0)+100 {
			ans.Bad = fmt.Sprintf("joining takes %.0f %s per query up to %d, %.0f up to %d", x, name, 2*sizes[1], y, 2*sizes[3])
		}
	}
	return
}

func fail(what string) {
	fmt.Fprintln(os.Stderr, "check:", what)
	os.Exit(2)
}

// A case is the sizes, and the parts of the text.
func main() {
	open()
	in := bufio.NewReader(os.Stdin)
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			return
		}
		var c string
		if err := json.Unmarshal([]byte(l), &c); err != nil {
			fail(err.Error())
		}
		f := strings.Split(c, "\x1e")
		var sizes [4]int
		if n, _ := fmt.Sscan(strings.TrimPrefix(f[0], "j"), &sizes[0], &sizes[1], &sizes[2], &sizes[3]); n != 4 || len(f) != 6 {
			fail("bad case")
		}
		watch := time.AfterFunc(2*time.Minute, func() {
			fmt.Fprintln(os.Stderr, "no answer")
			os.Exit(3)
		})
		var a answer
		if f[0][0] == 'j' {
			a = joined(f[1], f[2], sizes)
		} else {
			a = judge(f[1:], sizes)
		}
		watch.Stop()
		j, _ := json.Marshal(a)
		fmt.Println(string(j))
	}
}
