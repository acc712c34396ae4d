package checks

import (
	"errors"
	"strconv"
	"strings"

	entsql "entgo.io/ent/dialect/sql"

	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/run"
)

const deepMark = "deep\x1e"

// deepCases are queries nested or chained far beyond what a stack holds; the text is not part of the case.
func deepCases(parts [][3]string, sizes ...int) func(y func(string) bool) {
	return func(y func(string) bool) {
		for _, n := range sizes {
			for _, p := range parts {
				if !y(deepMark + p[0] + "\x1e" + p[1] + "\x1e" + p[2] + "\x1e" + strconv.Itoa(n)) {
					return
				}
			}
		}
	}
}

func deepText(c string) (q string, n int, ok bool) {
	s, ok := strings.CutPrefix(c, deepMark)
	p := strings.Split(s, "\x1e")
	if !ok || len(p) != 4 {
		return "", 0, false
	}
	n, err := strconv.Atoi(p[3])
	return strings.Repeat(p[0], n) + p[1] + strings.Repeat(p[2], n), n, err == nil
}

var deepParts = [][3]string{{"(", "a=1", ")"}, {"not (", "a=1", ")"}, {"(a=1 or ", "b=1", ")"}, {"", "a=1", " and a=1"}, {"", "a=1", " or a=1 and b=1"}, {"(", "", ""}, {"(a=1 or not (", "a=1", "))"}}

// deepBuilds are the ones for the backends.
func deepBuilds(y func(string) bool) {
	deepCases(deepParts, 20000, 100001)(y)
	deepCases([][3]string{deepParts[0], deepParts[5], {"(", "a=1", ""}}, 1000000)(y)
}

// deepParse gives a tree that can be printed, or an error.
func deepParse(w *run.W, q string, n int) error {
	w.Trans(1)
	node, err := miniquery.Parse(q)
	switch {
	case (node == nil) == (err == nil):
		return errors.New("not exactly one of a tree and an error")
	case err != nil:
		if strings.TrimSpace(err.Error()) == "" {
			return errors.New("empty error text")
		}
		return nil
	}
	if miniquery.Build(node) == "" {
		return errors.New("tree renders as nothing")
	}
	if (n <= 5000 || n >= 1000000) && node.String() == "" { // the time of String grows with the square
		return errors.New("tree renders as nothing")
	}
	return nil
}

// deepGorm is filtered or an error.
func deepGorm(w *run.W, q string) error {
	w.Trans(1)
	f := getRelFixture(w)
	before := f.pool.sent.Load()
	db := gormq.WireMiniQuery(f.g.Model(&Person{}), q)
	if len(db.Statement.Clauses) == 0 && db.Error == nil {
		return errors.New("neither a condition nor an error")
	}
	if f.pool.sent.Load() != before {
		return errors.New("sends something")
	}
	return nil
}

// deepEntSQL is SQL or an error.
func deepEntSQL(w *run.W, q string) error {
	w.Trans(1)
	mb := &entmq.MiniQLToEntSQLBuilder{QueryString: q}
	s := entsql.Dialect("postgres").Select("a").From(entsql.Table("t")).Where(entsql.P(func(b *entsql.Builder) { b.Join(mb) }))
	text, _ := s.Query()
	if (mb.Err() != nil) != (s.Err() != nil) || mb.Err() == nil && len(text) < 40 {
		return errors.New("neither SQL nor an error")
	}
	return nil
}

// deepEntQL is a predicate or an error.
func deepEntQL(w *run.W, q string) error {
	w.Trans(1)
	p, err := entmq.BuildEntQL(q)
	if (p == nil) == (err == nil) {
		return errors.New("not exactly one of a predicate and an error")
	}
	return nil
}
