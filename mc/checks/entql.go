package checks

import (
	"errors"
	"fmt"

	entsql "entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"entgo.io/ent/schema/field"

	"verif/mc/ref"
	"verif/mc/run"
)

// qlKind is what a query is for entql: 'f' field, 'v' value, 'p' predicate, 0 not supported.
func qlKind(n *ref.N) byte {
	switch n.T {
	case ref.Val:
		return 'v'
	case ref.Ident:
		return 'f'
	case ref.Paren:
		return qlKind(n.X)
	case ref.Not:
		if qlKind(n.X) == 'p' {
			return 'p'
		}
	case ref.Logic:
		ok := func(n *ref.N) bool { return qlKind(n) == 'p' || isBool(n) }
		if ok(n.L) && ok(n.R) {
			return 'p'
		}
	case ref.Cmp:
		if n.Op != "like" && n.Op != "not like" && qlKind(n.L) != 0 && qlKind(n.R) != 0 {
			return 'p'
		}
	case ref.Pred:
		if (n.Op == "is null" || n.Op == "is not null") && qlKind(n.L) == 'f' {
			return 'p'
		}
	case ref.Betw:
		if qlKind(n.L) != 0 {
			return 'p'
		}
	}
	return 0
}

func unparen(n *ref.N) *ref.N {
	for n.T == ref.Paren {
		n = n.X
	}
	return n
}

func isBool(n *ref.N) bool { n = unparen(n); return n.T == ref.Val && n.VT == ref.Bool }

// boolOperand tells whether a literal is an operand of and, or: ent cannot evaluate it.
func boolOperand(n *ref.N) bool {
	return n.Any(func(m *ref.N) bool { return m.T == ref.Logic && (isBool(m.L) || isBool(m.R)) })
}

// qlPlain tells whether all comparisons are of a field with a field or a value, which ent can turn into SQL.
func qlPlain(n *ref.N) bool {
	return !n.Any(func(m *ref.N) bool {
		switch m.T {
		case ref.Cmp:
			k := qlKind(m.R)
			return qlKind(m.L) != 'f' || k != 'f' && k != 'v'
		case ref.Betw:
			return qlKind(m.L) != 'f'
		}
		return false
	})
}

// fromEntQL reads a predicate of entql back.
func fromEntQL(e entql.Expr) (*ref.N, error) {
	ops := map[entql.Op]string{entql.OpEQ: "eq", entql.OpNEQ: "neq", entql.OpGT: "gt", entql.OpGTE: "gte", entql.OpLT: "lt", entql.OpLTE: "lte", entql.OpIn: "in", entql.OpNotIn: "not in"}
	logic := map[entql.Op]string{entql.OpAnd: "and", entql.OpOr: "or"}
	switch e := e.(type) {
	case *entql.Field:
		return ref.Id(e.Name), nil
	case *entql.Value:
		if e == nil {
			return nil, errors.New("nil value")
		}
		return qlValue(e.V)
	case *entql.UnaryExpr:
		if e.Op != entql.OpNot {
			return nil, fmt.Errorf("unary %v", e.Op)
		}
		x, err := fromEntQL(e.X)
		if err != nil {
			return nil, err
		}
		return ref.NotN(ref.ParN(x)), nil
	case *entql.NaryExpr:
		op := logic[e.Op]
		if op == "" || len(e.Xs) == 0 {
			return nil, fmt.Errorf("%v of %d", e.Op, len(e.Xs))
		}
		var t *ref.N
		for _, x := range e.Xs {
			n, err := fromEntQL(x)
			if err != nil {
				return nil, err
			}
			if n = ref.ParN(n); t == nil {
				t = n
			} else {
				t = ref.ParN(ref.LogN(t, op, n))
			}
		}
		return t, nil
	case *entql.BinaryExpr:
		l, err := fromEntQL(e.X)
		if err != nil {
			return nil, err
		}
		if v, ok := e.Y.(*entql.Value); ok && v == nil {
			switch e.Op {
			case entql.OpEQ:
				return &ref.N{T: ref.Pred, L: l, Op: "is null"}, nil
			case entql.OpNEQ:
				return &ref.N{T: ref.Pred, L: l, Op: "is not null"}, nil
			}
		}
		r, err := fromEntQL(e.Y)
		if err != nil {
			return nil, err
		}
		wrap := func(n *ref.N) *ref.N {
			if n.T == ref.Val || n.T == ref.Ident {
				return n
			}
			return ref.ParN(n)
		}
		if op := logic[e.Op]; op != "" {
			return ref.LogN(wrap(l), op, wrap(r)), nil
		}
		if op := ops[e.Op]; op != "" {
			return ref.CmpN(wrap(l), op, wrap(r)), nil
		}
		return nil, fmt.Errorf("binary %v", e.Op)
	}
	return nil, fmt.Errorf("unexpected %T", e)
}

func qlValue(v any) (*ref.N, error) {
	switch v := v.(type) {
	case nil:
		return ref.VNull(), nil
	case int:
		return ref.VInt(int64(v)), nil
	case int64:
		return ref.VInt(v), nil
	case string:
		return ref.VStr(v), nil
	case bool:
		return ref.VBool(v), nil
	case []any:
		out := ref.VArr()
		for _, x := range v {
			k, err := qlValue(x)
			if err != nil {
				return nil, err
			}
			out.Kids = append(out.Kids, k)
		}
		return out, nil
	}
	return nil, fmt.Errorf("value %T", v)
}

// thingGraph is the schema of the table things.
func thingGraph(w *run.W) *sqlgraph.Schema {
	if g, ok := w.Local["things"].(*sqlgraph.Schema); ok {
		return g
	}
	fields := map[string]*sqlgraph.FieldSpec{}
	for _, c := range []string{"a", "b", "c", "d", "f"} {
		fields[c] = &sqlgraph.FieldSpec{Type: field.TypeInt, Column: c}
	}
	for _, c := range []string{"s", "t", "w"} {
		fields[c] = &sqlgraph.FieldSpec{Type: field.TypeString, Column: c}
	}
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{{Type: "thing", Fields: fields, NodeSpec: sqlgraph.NodeSpec{Table: "things", ID: &sqlgraph.FieldSpec{Type: field.TypeInt, Column: "id"}}}}}
	w.Local["things"] = g
	return g
}

var errPanic = errors.New("panic")

// evalQL lets ent turn predicates into the SQL of a statement.
func evalQL(g *sqlgraph.Schema, typ, table, dial string, ps ...entql.P) (text string, args []any, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%w: %v", errPanic, r)
		}
	}()
	s := entsql.Dialect(dial).Select("id").From(entsql.Table(table))
	for _, p := range ps {
		if err = g.EvalP(typ, p, s); err != nil {
			return
		}
	}
	text, args = s.Query()
	return text, args, s.Err()
}
