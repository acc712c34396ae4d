package checks

import (
	"database/sql/driver"
	"fmt"

	"entgo.io/ent/dialect"
	entsql "entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"github.com/wenerme/go-miniquery/entmq"
)

var dialects = []string{dialect.Postgres, dialect.MySQL, dialect.SQLite}

// Ways of using the builder.
const (
	alone  = "alone"  // SetDialect, Query
	joined = "joined" // Join into the builder of a predicate
	given  = "given"  // SQLBuilder
)

var ways = []string{alone, joined, given}

// plain gives the value that database/sql hands to the driver for an argument.
func plain(a any) any {
	if v, ok := a.(driver.Valuer); ok {
		x, err := driver.DefaultParameterConverter.ConvertValue(v)
		if err != nil {
			return err
		}
		return x
	}
	return a
}

func plains(as []any) []any {
	out := []any{}
	for _, a := range as {
		out = append(out, plain(a))
	}
	return out
}

// entSQL builds the predicate text only.
func entSQL(q, dial, way string, node *sqlgraph.Node, nocast bool) (text string, args []any, err error) {
	mb := &entmq.MiniQLToEntSQLBuilder{Node: node, QueryString: q, DisableTypeCasting: nocast}
	switch way {
	case alone:
		mb.SetDialect(dial)
		text, args = mb.Query()
		return text, args, mb.Err()
	case joined:
		b := &entsql.Builder{}
		b.SetDialect(dial)
		b.Join(mb)
		text, args = b.Query()
		if (b.Err() == nil) != (mb.Err() == nil) {
			return text, args, fmt.Errorf("%w: error of the builder is %v, of the statement %v", errSplit, mb.Err(), b.Err())
		}
		return text, args, mb.Err()
	case given:
		b := &entsql.Builder{}
		b.SetDialect(dial)
		mb.SQLBuilder = b
		mb.SetDialect(dial)
		mb.Query()
		text, args = b.Query()
		return text, args, mb.Err()
	}
	panic(way)
}

var errSplit = fmt.Errorf("error lost")
