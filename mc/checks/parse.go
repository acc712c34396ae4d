package checks

import (
	"errors"
	"fmt"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/ref"
)

// convert turns a tree of the implementation into a reference tree and fails if it is not well formed.
func convert(n *miniquery.Node) (*ref.N, error) {
	if n == nil {
		return nil, errors.New("missing node")
	}
	op := func() (string, error) {
		if n.Op == nil {
			return "", fmt.Errorf("%s node without operator", n.Type)
		}
		if n.Op.Type != miniquery.OperationNodeType {
			return "", fmt.Errorf("operator of %s node is a %q node", n.Type, n.Op.Type)
		}
		return n.Op.Operation, nil
	}
	kids := func(ns []*miniquery.Node) ([]*ref.N, error) {
		out := []*ref.N{}
		for _, k := range ns {
			m, err := convert(k)
			if err != nil {
				return nil, err
			}
			out = append(out, m)
		}
		return out, nil
	}
	isOneOf := func(s string, set ...string) error {
		for _, v := range set {
			if s == v {
				return nil
			}
		}
		return fmt.Errorf("%s node with operator %q", n.Type, s)
	}
	out := &ref.N{T: string(n.Type)}
	var err error
	switch n.Type {
	case miniquery.ValueNodeType:
		out.VT = string(n.ValueType)
		switch n.ValueType {
		case miniquery.IntValueType:
			out.I = int64(n.Int)
		case miniquery.BooleanValueType:
			out.B = n.Bool
		case miniquery.StringValueType:
			out.S = n.Str
		case miniquery.NullValueType:
		case miniquery.ArrayValueType:
			if out.Kids, err = kids(n.Array); err != nil {
				return nil, err
			}
			for _, k := range out.Kids {
				if k.T != ref.Val || k.VT == ref.Arr {
					return nil, fmt.Errorf("list element %s", k.Text())
				}
			}
		default:
			return nil, fmt.Errorf("value of kind %q", n.ValueType)
		}
	case miniquery.IdentifierNodeType:
		out.S = n.Name
		if n.Name == "" {
			return nil, errors.New("empty identifier")
		}
	case miniquery.ReferenceNodeType:
		out.Names = append([]string{}, n.Names...)
		if len(n.Names) < 2 {
			return nil, fmt.Errorf("reference with %d names", len(n.Names))
		}
	case miniquery.PredicatesExpressionType:
		if out.L, err = convert(n.Left); err == nil {
			if out.Op, err = op(); err == nil {
				err = isOneOf(out.Op, "is null", "is not null", "is true", "is false", "is not true", "is not false")
			}
		}
	case miniquery.CompareExpressionType, miniquery.LogicExpressionType:
		if out.L, err = convert(n.Left); err == nil {
			if out.R, err = convert(n.Right); err == nil {
				out.Op, err = op()
			}
		}
		if err == nil {
			if n.Type == miniquery.LogicExpressionType {
				err = isOneOf(out.Op, "and", "or")
			} else {
				err = isOneOf(out.Op, "eq", "neq", "gt", "gte", "lt", "lte", "like", "not like", "in", "not in")
			}
		}
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		out.X, err = convert(n.Expression)
	case miniquery.BetweenExpressionType:
		if out.L, err = convert(n.Left); err == nil {
			if out.Op, err = op(); err == nil {
				err = isOneOf(out.Op, "between", "not between")
			}
		}
		if err == nil {
			if out.Kids, err = kids(n.Params); err == nil && len(out.Kids) != 2 {
				err = fmt.Errorf("between with %d bounds", len(out.Kids))
			}
		}
	case miniquery.FunctionExpressionType:
		out.S = n.Name
		if n.Name == "" {
			return nil, errors.New("function without name")
		}
		out.Kids, err = kids(n.Params)
	default:
		err = fmt.Errorf("node of kind %q", n.Type)
	}
	if err != nil {
		return nil, err
	}
	return out, nil
}

// parse parses with the implementation; the tree must be well formed.
func parse(q string) (tree *ref.N, node *miniquery.Node, rejected error, bad error) {
	node, rejected = miniquery.Parse(q)
	if rejected != nil {
		return nil, nil, rejected, nil
	}
	if node == nil {
		return nil, nil, nil, errors.New("neither tree nor error")
	}
	tree, bad = convert(node)
	return tree, node, nil, bad
}

// same compares with the reference.
func same(want *ref.N, q string) error {
	got, _, rej, bad := parse(q)
	if bad != nil {
		return bad
	}
	if want == nil {
		if rej == nil {
			return fmt.Errorf("accepted as %s, should be rejected", got.Text())
		}
		return nil
	}
	if rej != nil {
		return fmt.Errorf("rejected (%v), should be %s", rej, want.Text())
	}
	if g, w := got.Text(), want.Text(); g != w {
		return fmt.Errorf("tree %s, should be %s", g, w)
	}
	return nil
}

// size counts the nodes of a tree.
func size(n *ref.N) int {
	k := 0
	n.Walk(func(*ref.N) { k++ })
	return k
}
