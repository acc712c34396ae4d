package checks

import (
	"context"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// A case is text \x1e mode \x1e edits. An edit is node:number, nodes are counted parents first in the tree as
// it is then. In mode 1 the tree is printed before every edit, in mode 2 the tree is copied before every edit.
func init() {
	register(&run.Check{ID: "C31", Case: c31Case, Explore: func(x *run.X) {
		texts := append(append([]string{}, gen.Corpus...), visitTexts...)
		add := func(e gen.E) bool {
			texts = append(texts, e.Text)
			return true
		}
		for shift := range conds {
			gen.Skeletons(1, func(i int) gen.E { return conds[(i+shift)%len(conds)] }, add)
			gen.Skeletons(2, func(i int) gen.E { return conds[(i+shift)%len(conds)] }, add)
		}
		names := []string{"a", "b", "c", "d"}
		gen.Skeletons(3, func(i int) gen.E { return gen.E{Text: names[i], Tree: ref.Id(names[i])} }, add)
		if x.Thorough {
			gen.Skeletons(3, func(i int) gen.E { return conds[i] }, add)
		}
		seen := map[string]bool{}
		var all []string
		for _, t := range texts {
			if r := ref.Parse(t); !seen[t] && r.Tree != nil {
				seen[t] = true
				all = append(all, t)
			}
		}
		run.Tasks(x, all, func(w *run.W, t string) {
			w.Family("one edit")
			n, err := miniquery.Parse(t)
			if err != nil {
				w.Run(t + "\x1e0\x1e")
				return
			}
			for i, node := range nodesOf(n) {
				for k := range editsOf(node) {
					for mode := x.Bound(1, 0); mode < 3; mode++ {
						w.Run(fmt.Sprintf("%s\x1e%d\x1e%d:%d", t, mode, i, k))
						if w.Stop() {
							return
						}
					}
				}
			}
		})
		pairs := append(append([]string{}, visitTexts...), gen.Corpus...)
		run.Tasks(x, pairs, func(w *run.W, t string) {
			w.Family("two edits")
			n, err := miniquery.Parse(t)
			if err != nil || len(nodesOf(n)) > x.Bound(6, 9) {
				return // a rejected text is reported above
			}
			for i, node := range nodesOf(n) {
				for k := range editsOf(node) {
					m, _ := miniquery.Parse(t)
					nodes := nodesOf(m)
					editsOf(nodes[i])[k](nodes[i])
					for j, second := range nodesOf(m) {
						for l := range editsOf(second) {
							w.Run(fmt.Sprintf("%s\x1e1\x1e%d:%d,%d:%d", t, i, k, j, l))
							if w.Stop() {
								return
							}
						}
					}
				}
			}
		})
	}, Assumptions: []string{"a changed tree is judged if it is the tree of some query: if the reference parser gives it back from its plain writing"}})
}

// nodesOf gives the nodes of a tree without operators, parents first.
func nodesOf(n *miniquery.Node) (out []*miniquery.Node) {
	if n == nil {
		return nil
	}
	out = append(out, n)
	for _, k := range []*miniquery.Node{n.Left, n.Right, n.Expression} {
		out = append(out, nodesOf(k)...)
	}
	for _, k := range append(append([]*miniquery.Node{}, n.Array...), n.Params...) {
		out = append(out, nodesOf(k)...)
	}
	return out
}

func copyNode(n *miniquery.Node) *miniquery.Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Left, c.Right, c.Expression, c.Op = copyNode(n.Left), copyNode(n.Right), copyNode(n.Expression), copyNode(n.Op)
	c.Names = append([]string(nil), n.Names...)
	c.Array, c.Params = nil, nil
	for _, k := range n.Array {
		c.Array = append(c.Array, copyNode(k))
	}
	for _, k := range n.Params {
		c.Params = append(c.Params, copyNode(k))
	}
	return &c
}

func intNode(i int) *miniquery.Node {
	return &miniquery.Node{Type: miniquery.ValueNodeType, ValueType: miniquery.IntValueType, Int: i}
}

func strNode(s string) *miniquery.Node {
	return &miniquery.Node{Type: miniquery.ValueNodeType, ValueType: miniquery.StringValueType, Str: s}
}

var scalarNodes = []*miniquery.Node{
	intNode(0), intNode(7), intNode(math.MaxInt64), strNode(""), strNode("x y"), strNode(`it's`), strNode(`"q"`), strNode(`\`), strNode("null"),
	{Type: miniquery.ValueNodeType, ValueType: miniquery.BooleanValueType, Bool: true}, {Type: miniquery.ValueNodeType, ValueType: miniquery.BooleanValueType}, {Type: miniquery.ValueNodeType, ValueType: miniquery.NullValueType},
	{Type: miniquery.IdentifierNodeType, Name: "zz_9"}, {Type: miniquery.ReferenceNodeType, Names: []string{"p", "q", "r"}}, {Type: miniquery.FunctionExpressionType, Name: "g"},
	{Type: miniquery.ValueNodeType, ValueType: miniquery.ArrayValueType, Array: []*miniquery.Node{intNode(5), strNode("v")}},
}

// editsOf gives the changes a user may make at a node.
func editsOf(n *miniquery.Node) (out []func(n *miniquery.Node)) {
	add := func(f func(n *miniquery.Node)) { out = append(out, f) }
	ops := func(all ...string) {
		for _, o := range all {
			if n.Op != nil && n.Op.Operation != o {
				add(func(n *miniquery.Node) { n.Op.Operation = o })
				add(func(n *miniquery.Node) { n.Op = &miniquery.Node{Type: miniquery.OperationNodeType, Operation: o} })
			}
		}
	}
	switch n.Type {
	case miniquery.ValueNodeType, miniquery.IdentifierNodeType, miniquery.ReferenceNodeType:
		for _, v := range scalarNodes {
			add(func(n *miniquery.Node) { *n = *copyNode(v) })
		}
	}
	switch n.Type {
	case miniquery.ValueNodeType:
		switch n.ValueType {
		case miniquery.IntValueType:
			add(func(n *miniquery.Node) { n.Int = n.Int/2 + 11 })
		case miniquery.StringValueType:
			add(func(n *miniquery.Node) { n.Str += `"` })
			add(func(n *miniquery.Node) { n.Str = "é" + n.Str })
		case miniquery.BooleanValueType:
			add(func(n *miniquery.Node) { n.Bool = !n.Bool })
		case miniquery.ArrayValueType:
			add(func(n *miniquery.Node) { n.Array = append(n.Array, strNode("more")) })
			add(func(n *miniquery.Node) { n.Array = nil })
			if len(n.Array) > 0 {
				add(func(n *miniquery.Node) { n.Array = n.Array[1:] })
				add(func(n *miniquery.Node) { n.Array[len(n.Array)-1] = intNode(42) })
			}
		}
	case miniquery.IdentifierNodeType:
		add(func(n *miniquery.Node) { n.Name += "_x" })
	case miniquery.ReferenceNodeType:
		add(func(n *miniquery.Node) { n.Names[0] = "other" })
		add(func(n *miniquery.Node) { n.Names = append(n.Names, "last") })
	case miniquery.FunctionExpressionType:
		add(func(n *miniquery.Node) { n.Name = "other" })
		add(func(n *miniquery.Node) { n.Params = append(n.Params, intNode(3)) })
		if len(n.Params) > 0 {
			add(func(n *miniquery.Node) { n.Params = n.Params[:len(n.Params)-1] })
			add(func(n *miniquery.Node) {
				n.Params[0], n.Params[len(n.Params)-1] = n.Params[len(n.Params)-1], n.Params[0]
			})
		}
	case miniquery.CompareExpressionType:
		ops("eq", "neq", "gt", "gte", "lt", "lte", "like", "not like", "in", "not in")
		add(func(n *miniquery.Node) { n.Left, n.Right = n.Right, n.Left })
	case miniquery.LogicExpressionType:
		ops("and", "or")
		add(func(n *miniquery.Node) { n.Left, n.Right = n.Right, n.Left })
		add(func(n *miniquery.Node) { n.Left = parens(n.Left) })
		add(func(n *miniquery.Node) { n.Right = parens(n.Right) })
		add(func(n *miniquery.Node) { *n = *n.Left })
		add(func(n *miniquery.Node) { *n = *n.Right })
	case miniquery.BetweenExpressionType:
		ops("between", "not between")
		add(func(n *miniquery.Node) { n.Params[0], n.Params[1] = n.Params[1], n.Params[0] })
	case miniquery.PredicatesExpressionType:
		ops("is null", "is not null", "is true", "is false", "is not true", "is not false")
	case miniquery.ParenthesesExpressionType, miniquery.NotExpressionType:
		add(func(n *miniquery.Node) { *n = *n.Expression })
	}
	add(func(n *miniquery.Node) { c := *n; *n = *parens(&c) })
	add(func(n *miniquery.Node) {
		c := *n
		*n = miniquery.Node{Type: miniquery.NotExpressionType, Expression: &c}
	})
	add(func(n *miniquery.Node) {
		c := *n
		*n = miniquery.Node{Type: miniquery.LogicExpressionType, Left: &c, Op: &miniquery.Node{Type: miniquery.OperationNodeType, Operation: "and"}, Right: parens(&miniquery.Node{Type: miniquery.IdentifierNodeType, Name: "ok"})}
	})
	return out
}

func parens(n *miniquery.Node) *miniquery.Node {
	return &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: n}
}

// written is a plain writing of a reference tree.
func written(n *ref.N) string {
	list := func(ks []*ref.N) string {
		var s []string
		for _, k := range ks {
			s = append(s, written(k))
		}
		return strings.Join(s, " , ")
	}
	words := map[string]string{"eq": "=", "neq": "<>", "gt": "gt", "gte": "gte", "lt": "lt", "lte": "lte"}
	op := n.Op
	if w, ok := words[op]; ok {
		op = w
	}
	switch n.T {
	case ref.Val:
		switch n.VT {
		case ref.Int:
			return strconv.FormatInt(n.I, 10)
		case ref.Bool:
			return strconv.FormatBool(n.B)
		case ref.Str:
			if strings.Contains(n.S, "'") {
				return `"` + n.S + `"`
			}
			return "'" + n.S + "'"
		case ref.Null:
			return "null"
		}
		return "[" + list(n.Kids) + "]"
	case ref.Ident:
		return n.S
	case ref.Refr:
		return strings.Join(n.Names, ".")
	case ref.Pred:
		return written(n.L) + " " + op
	case ref.Cmp, ref.Logic:
		return written(n.L) + " " + op + " " + written(n.R)
	case ref.Paren:
		return "( " + written(n.X) + " )"
	case ref.Not:
		return "not " + written(n.X)
	case ref.Betw:
		return written(n.L) + " " + op + " " + written(n.Kids[0]) + " and " + written(n.Kids[1])
	case ref.Fn:
		return n.S + "(" + list(n.Kids) + ")"
	}
	return "?"
}

func c31Case(w *run.W, c string) error {
	p := strings.Split(c, "\x1e")
	node, err := miniquery.Parse(p[0])
	if err != nil {
		return fmt.Errorf("rejected: %v", err)
	}
	for _, e := range strings.Split(p[2], ",") {
		at, k, ok := strings.Cut(e, ":")
		if !ok {
			continue
		}
		i, _ := strconv.Atoi(at)
		j, _ := strconv.Atoi(k)
		switch p[1] {
		case "1":
			if _, err := convert(node); err == nil {
				_, _ = miniquery.Build(node), node.String()
			}
		case "2":
			node = copyNode(node)
		}
		n := nodesOf(node)[i]
		editsOf(n)[j](n)
	}
	want, err := convert(node)
	if err != nil {
		return nil // not a tree of a query
	}
	plain := written(want)
	if r := ref.Parse(plain); r.Tree == nil || r.Tree.Text() != want.Text() {
		return nil
	}
	w.Distinct(want.Text())
	w.Trans(size(want))
	text := miniquery.Build(node)
	got, printed, rej, bad := parse(text)
	if bad != nil {
		return bad
	}
	if rej != nil {
		return fmt.Errorf("the changed tree %s prints as %q, which is rejected: %v", want.Text(), text, rej)
	}
	if got.Text() != want.Text() {
		return fmt.Errorf("the changed tree %s prints as %q, which is %s", want.Text(), text, got.Text())
	}
	fresh, err := miniquery.Parse(plain)
	if err != nil {
		return fmt.Errorf("%q is rejected: %v", plain, err)
	}
	if t := miniquery.Build(fresh); t != text {
		return fmt.Errorf("the changed tree prints as %q, the parsed tree %s as %q", text, plain, t)
	}
	if a, b := node.String(), fresh.String(); a != b {
		return fmt.Errorf("the changed tree is shown as %q, the parsed tree %s as %q", a, plain, b)
	}
	if a, b := leavesOf(node), leavesOf(printed); a != b {
		return fmt.Errorf("a visit of the changed tree gives %q, of the parsed tree %q", a, b)
	}
	all := nodesOf(node)
	for i, n := range nodesOf(fresh) {
		if a, b := all[i], n; a.IsValue() != (a.Type == miniquery.ValueNodeType) || a.IsExpression() != b.IsExpression() || a.IsExpression() == leaf(a.Type) {
			return fmt.Errorf("node %s: value %v, expression %v", a, a.IsValue(), a.IsExpression())
		}
		if n.Type == miniquery.ValueNodeType {
			if err := sameValue(all[i].Value(), n.Value()); err != nil {
				return err
			}
		}
	}
	return nil
}

func leaf(t miniquery.NodeType) bool {
	switch t {
	case miniquery.ValueNodeType, miniquery.IdentifierNodeType, miniquery.ReferenceNodeType, miniquery.OperationNodeType:
		return true
	}
	return false
}

// leavesOf gives what a visit with default handlers reaches.
func leavesOf(n *miniquery.Node) string {
	var out []string
	note := func(_ context.Context, n *miniquery.Node) error {
		out = append(out, n.String())
		return nil
	}
	v := miniquery.Visitor{IdentifierNode: note, ReferenceNode: note, OperationNode: note, ValueNode: note}
	v.Init()
	if err := v.Visit(context.Background(), n); err != nil {
		out = append(out, err.Error())
	}
	return strings.Join(out, " ")
}
