package checks

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/run"
)

// stackItem is what the model has on its stack.
type stackItem struct {
	kind  byte // n name, r reference, v value, a list, o operator, c condition, l chain of and, or
	text  string
	names []string // of the marked names
	nodes []string // of a chain
	ops   []string
}

// treeOp is an operation of a Tree with its effect on the model. The effect is nil if the operation does not apply.
type treeOp struct {
	name string
	do   func(t *miniquery.Tree)
	eff  func(m *stackModel) bool
}

type stackModel struct {
	stack []stackItem
	marks []int
}

func (m *stackModel) push(i stackItem) bool { m.stack = append(m.stack, i); return true }

// take pops the kinds given for the topmost items, the last one on top.
func (m *stackModel) take(kinds ...string) []stackItem {
	at := len(m.stack) - len(kinds)
	if at < 0 || len(m.marks) > 0 && at < m.marks[len(m.marks)-1] {
		return nil
	}
	for i, k := range kinds {
		if !strings.ContainsRune(k, rune(m.stack[at+i].kind)) {
			return nil
		}
	}
	out := append([]stackItem{}, m.stack[at:]...)
	m.stack = m.stack[:at]
	return out
}

func (m *stackModel) marked(kinds string, least int) []stackItem {
	if len(m.marks) == 0 {
		return nil
	}
	at := m.marks[len(m.marks)-1]
	if len(m.stack)-at < least {
		return nil
	}
	for _, i := range m.stack[at:] {
		if !strings.ContainsRune(kinds, rune(i.kind)) {
			return nil
		}
	}
	out := append([]stackItem{}, m.stack[at:]...)
	m.stack, m.marks = m.stack[:at], m.marks[:len(m.marks)-1]
	return out
}

// chain groups: and before or, equal operators to the left.
func chain(nodes, ops []string) string {
	two := func(a, op, b string) string { return "{" + a + " " + op + " " + b + "}" }
	or, cur := "", nodes[0]
	for i, op := range ops {
		if op == "and" {
			cur = two(cur, "and", nodes[i+1])
			continue
		}
		if or != "" {
			cur = two(or, "or", cur)
		}
		or, cur = cur, nodes[i+1]
	}
	if or != "" {
		cur = two(or, "or", cur)
	}
	return cur
}

func itemTexts(is []stackItem) string {
	s := []string{}
	for _, i := range is {
		s = append(s, i.text)
	}
	return strings.Join(s, ",")
}

const operands = "nrvcl"

func adds(name, kind, text string, do func(t *miniquery.Tree)) treeOp {
	return treeOp{name, do, func(m *stackModel) bool { return m.push(stackItem{kind: kind[0], text: text}) }}
}

var treeOps = []treeOp{
	adds("a", "n", "a", func(t *miniquery.Tree) { t.AddName("a") }),
	adds("int", "v", "7", func(t *miniquery.Tree) { t.AddInteger("7") }),
	adds("like", "o", "<not like>", func(t *miniquery.Tree) { t.AddMatch("Not  Like") }),
	adds("and", "o", "<and>", func(t *miniquery.Tree) { t.AddLogic("&&") }),
	adds("or", "o", "<or>", func(t *miniquery.Tree) { t.AddLogic("OR") }),
	adds("eq", "o", "<eq>", func(t *miniquery.Tree) { t.AddCompare("==") }),
	{"mark", func(t *miniquery.Tree) { t.AddMark() }, func(m *stackModel) bool { m.marks = append(m.marks, len(m.stack)); return len(m.marks) < 3 }},
	{"array", func(t *miniquery.Tree) { t.PopArray() }, func(m *stackModel) bool {
		at := len(m.marks) > 0 && m.marks[len(m.marks)-1] == len(m.stack)
		is := m.marked(operands, 0)
		return (is != nil || at) && m.push(stackItem{kind: 'a', text: "[" + itemTexts(is) + "]"})
	}},
	{"reference", func(t *miniquery.Tree) { t.PopIdentifierReference() }, func(m *stackModel) bool {
		is := m.marked("n", 2)
		return is != nil && m.push(stackItem{kind: 'r', text: strings.ReplaceAll(itemTexts(is), ",", ".")})
	}},
	{"function", func(t *miniquery.Tree) { t.PopFunction() }, func(m *stackModel) bool {
		is := m.take("n", "a")
		return is != nil && m.push(stackItem{kind: 'c', text: is[0].text + "(" + is[1].text[1:len(is[1].text)-1] + ")"})
	}},
	{"compare", func(t *miniquery.Tree) { t.PopCompare() }, func(m *stackModel) bool {
		is := m.take("nrvc", "o", "nrvca")
		return is != nil && is[1].text != "<and>" && is[1].text != "<or>" && m.push(stackItem{kind: 'c', text: "compare{" + itemTexts(is) + "}"})
	}},
	{"logic", func(t *miniquery.Tree) { t.PopLogic() }, func(m *stackModel) bool {
		is := m.take(operands, "o", "nrvc")
		if is == nil || is[1].text != "<and>" && is[1].text != "<or>" {
			return false
		}
		i := stackItem{kind: 'l', nodes: []string{is[0].text}}
		if is[0].kind == 'l' {
			i.nodes, i.ops = append([]string{}, is[0].nodes...), append([]string{}, is[0].ops...)
		}
		i.nodes, i.ops = append(i.nodes, is[2].text), append(i.ops, strings.Trim(is[1].text, "<>"))
		i.text = chain(i.nodes, i.ops)
		return m.push(i)
	}},
	{"not", func(t *miniquery.Tree) { t.PopNot() }, func(m *stackModel) bool {
		is := m.take("nrvc")
		return is != nil && m.push(stackItem{kind: 'c', text: "{not " + is[0].text + "}"})
	}},
	{"parentheses", func(t *miniquery.Tree) { t.PopParentheses() }, func(m *stackModel) bool {
		is := m.take(operands)
		return is != nil && m.push(stackItem{kind: 'c', text: "(" + is[0].text + ")"})
	}},
	{"predicate", func(t *miniquery.Tree) { t.PopPredicate() }, func(m *stackModel) bool {
		is := m.take("nrvc", "o")
		return is != nil && is[1].text == "<is not null>" && m.push(stackItem{kind: 'c', text: "predicates{" + itemTexts(is) + "}"})
	}},
	{"between", func(t *miniquery.Tree) { t.PopBetween() }, func(m *stackModel) bool {
		is := m.take("nrvc", "o", "nrvc", "nrvc")
		return is != nil && is[1].text == "<between>" && m.push(stackItem{kind: 'c', text: "between{" + itemTexts(is) + "}"})
	}},
	{"pop", func(t *miniquery.Tree) { t.Pop() }, func(m *stackModel) bool { return m.take(operands+"oa") != nil }},
	adds("null-op", "o", "<is not null>", func(t *miniquery.Tree) { t.AddMatch("NOTNULL") }),
	adds("between-op", "o", "<between>", func(t *miniquery.Tree) { t.AddOperation("Between ") }),
	adds("float", "v", "1.5f", func(t *miniquery.Tree) { t.AddFloat("1.5") }),
	adds("string", "v", `"x"`, func(t *miniquery.Tree) { t.AddString("x") }),
	adds("true", "v", "true", func(t *miniquery.Tree) { t.AddBoolean("true") }),
	adds("null", "v", "null", func(t *miniquery.Tree) { t.AddNull() }),
	adds("b", "n", "b", func(t *miniquery.Tree) { t.AddName("b") }),
	adds("pushed", "v", "9", func(t *miniquery.Tree) {
		t.Push(&miniquery.Node{Type: miniquery.ValueNodeType, ValueType: miniquery.IntValueType, Int: 9})
	}),
}

var treeOpNamed = func() map[string]treeOp {
	m := map[string]treeOp{}
	for _, o := range treeOps {
		m[o.name] = o
	}
	return m
}()

// shape describes a node like the model does.
func shape(n *miniquery.Node) string {
	if n == nil {
		return "nil"
	}
	list := func(ns []*miniquery.Node) string {
		s := []string{}
		for _, k := range ns {
			s = append(s, shape(k))
		}
		return strings.Join(s, ",")
	}
	switch n.Type {
	case miniquery.ValueNodeType:
		switch n.ValueType {
		case miniquery.ArrayValueType:
			return "[" + list(n.Array) + "]"
		case miniquery.FloatValueType:
			return strconv.FormatFloat(n.Float, 'g', -1, 64) + "f"
		case miniquery.IntValueType:
			return strconv.Itoa(n.Int)
		case miniquery.StringValueType:
			return strconv.Quote(n.Str)
		case miniquery.BooleanValueType:
			return fmt.Sprint(n.Bool)
		case miniquery.NullValueType:
			return "null"
		}
	case miniquery.OperationNodeType:
		return "<" + n.Operation + ">"
	case miniquery.IdentifierNodeType:
		return n.Name
	case miniquery.ReferenceNodeType:
		return strings.Join(n.Names, ".")
	case miniquery.FunctionExpressionType:
		return n.Name + "(" + list(n.Params) + ")"
	case miniquery.CompareExpressionType:
		return "compare{" + list([]*miniquery.Node{n.Left, n.Op, n.Right}) + "}"
	case miniquery.PredicatesExpressionType:
		return "predicates{" + list([]*miniquery.Node{n.Left, n.Op}) + "}"
	case miniquery.BetweenExpressionType:
		return "between{" + list(append([]*miniquery.Node{n.Left, n.Op}, n.Params...)) + "}"
	case miniquery.LogicExpressionType:
		return "{" + shape(n.Left) + " " + strings.Trim(shape(n.Op), "<>") + " " + shape(n.Right) + "}"
	case miniquery.NotExpressionType:
		return "{not " + shape(n.Expression) + "}"
	case miniquery.ParenthesesExpressionType:
		return "(" + shape(n.Expression) + ")"
	}
	return fmt.Sprintf("?%s %s", n.Type, n.ValueType)
}

// operatorNames are the spellings of operators and what they are called in the tree.
var operatorNames = map[string]string{
	"=": "eq", "==": "eq", "eq": "eq", "!=": "neq", "<>": "neq", "neq": "neq", ">": "gt", "gt": "gt", ">=": "gte", "gte": "gte", "<": "lt", "lt": "lt", "<=": "lte", "lte": "lte",
	"and": "and", "&&": "and", "or": "or", "||": "or", "like": "like", "not like": "not like", "in": "in", "not in": "not in", "between": "between", "not between": "not between",
	"is null": "is null", "isnull": "is null", "is not null": "is not null", "notnull": "is not null", "is true": "is true", "is not false": "is not false",
}

func init() {
	register(&run.Check{ID: "C35", Case: c35Case, Explore: func(x *run.X) {
		sequences := func(name string, ops []treeOp, depth int) {
			// by the first three operations
			var starts []string
			gen.Tuples(len(ops), 3, func(t []int) bool {
				starts = append(starts, fmt.Sprintf("%d %d %d", t[0], t[1], t[2]))
				return true
			})
			run.Tasks(x, starts, func(w *run.W, start string) {
				w.Family(name)
				var names []string
				var m stackModel
				apply := func(o treeOp) (undo func(), ok bool) {
					old := stackModel{append([]stackItem{}, m.stack...), append([]int{}, m.marks...)}
					if !o.eff(&m) {
						m = old
						return nil, false
					}
					names = append(names, o.name)
					return func() { m, names = old, names[:len(names)-1] }, true
				}
				var dfs func(left int)
				dfs = func(left int) {
					if w.Stop() {
						return
					}
					w.State(1)
					// The rest has to be able to bring it down to one node.
					open := len(m.marks)
					for _, i := range m.stack {
						if i.kind == 'o' {
							open++
						}
					}
					if open > left || len(m.stack)+len(m.marks) > 1+3*left {
						return
					}
					if left == 0 {
						w.Run("ops\x1e" + strings.Join(names, " "))
						return
					}
					for _, o := range ops {
						undo, ok := apply(o)
						if !ok {
							continue
						}
						dfs(left - 1)
						undo()
					}
				}
				var i [3]int
				fmt.Sscan(start, &i[0], &i[1], &i[2])
				for _, k := range i {
					if _, ok := apply(ops[k]); !ok {
						return
					}
				}
				dfs(depth - 3)
			})
		}
		sequences("all operations", treeOps, x.Bound(7, 8))
		sequences("without other literals", treeOps[:17], x.Bound(8, 9))
		var few []treeOp
		for _, n := range []string{"a", "and", "or", "logic", "not", "parentheses"} {
			few = append(few, treeOpNamed[n])
		}
		sequences("logic", few, x.Bound(13, 15))
		few = nil
		for _, n := range []string{"a", "b", "float", "mark", "array", "reference", "function", "eq", "compare"} {
			few = append(few, treeOpNamed[n])
		}
		sequences("marks", few, x.Bound(11, 13))
		x.Each("operators", func(y func(string) bool) {
			for s, name := range operatorNames {
				words := strings.Fields(s)
				for _, gap := range []string{" ", "  ", "\t", "\n", "\r\n", " -- c\n", "//x\r\n ", " \n\t "} {
					for _, edge := range []string{"", " ", "\n", "\t ", " -- y\n", "\r\n"} {
						for _, v := range gen.Cases(strings.Join(words, gap)) {
							if !y("norm\x1e"+edge+v+"\x1e"+name) || !y("norm\x1e"+v+edge+"\x1e"+name) || !y("norm\x1e"+edge+v+edge+"\x1e"+name) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("numbers", func(y func(string) bool) {
			for _, s := range []string{"0", "1", "1.5", "-1.5", "0.1", "1e10", "1e21", "1E-7", "123456789.125", "9007199254740993", "1.7976931348623157e308", "5e-324", "0.30000000000000004", "100000000000000000000", "1e400", "x", "", "1.5.5", ".5", "5.", "-0", "3.14159265358979"} {
				if !y("float\x1e" + s) {
					return
				}
			}
			for e := -20; e <= 20; e++ {
				for d := 1; d < x.Bound(200, 2000); d++ {
					if !y(fmt.Sprintf("float\x1e%de%d", d, e)) {
						return
					}
				}
			}
			for i := 0; i < x.Bound(2000, 100000); i++ {
				if !y(fmt.Sprintf("int\x1e%d", i)) {
					return
				}
			}
			for _, s := range []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-1", "", "x", "1.5", "0x10", "99999999999999999999", "007", "1_000"} {
				if !y("int\x1e" + s) {
					return
				}
			}
			for _, s := range []string{"true", "false", "maybe", "", "null", "yes"} {
				if !y("bool\x1e" + s) {
					return
				}
			}
		})
		x.Each("functions that are none", func(y func(string) bool) {
			var os []string
			for _, o := range treeOps {
				os = append(os, o.name)
			}
			for n := 0; n <= 3; n++ {
				gen.Tuples(len(os), n, func(t []int) bool {
					var p []string
					for _, i := range t {
						p = append(p, os[i])
					}
					return y("none\x1e" + strings.Join(p, " "))
				})
			}
		})
		x.Each("functions with other names and lists", func(y func(string) bool) {
			few := []string{"a", "int", "mark", "array", "reference", "function", "not", "parentheses", "and", "logic", "string"}
			var rec func(m stackModel, names []string, left int) bool
			rec = func(m stackModel, names []string, left int) bool {
				if len(names) > 3 && !y("none\x1e"+strings.Join(names, " ")) {
					return false
				}
				for _, n := range few {
					next := stackModel{append([]stackItem{}, m.stack...), append([]int{}, m.marks...)}
					if left > 0 && treeOpNamed[n].eff(&next) && !rec(next, append(append([]string{}, names...), n), left-1) {
						return false
					}
				}
				return true
			}
			rec(stackModel{}, nil, x.Bound(6, 7))
		})
	}, Assumptions: []string{"an operation is used when its operands are on the stack, the right operand of and, or is not itself a chain without parentheses (as the grammar has it)"}})
}

func c35Case(w *run.W, c string) error {
	p := strings.Split(c, "\x1e")
	t := &miniquery.Tree{}
	switch p[0] {
	case "norm":
		if got := miniquery.NormalizeOperation(p[1]); got != p[2] {
			return fmt.Errorf("operator %q is %q, should be %q", p[1], got, p[2])
		}
		t.AddCompare(p[1])
		t.AddLogic(p[1])
		t.AddMatch(p[1])
		t.AddOperation(p[1])
		for _, n := range t.Stack {
			if shape(n) != "<"+p[2]+">" {
				return fmt.Errorf("operator %q gives %s, should be %q", p[1], shape(n), p[2])
			}
		}
		w.Distinct(p[1])
		if len(t.Stack) != 4 {
			return fmt.Errorf("%d nodes", len(t.Stack))
		}
		return nil
	case "float", "int", "bool":
		var want any
		var err error
		switch p[0] {
		case "float":
			t.AddFloat(p[1])
			want, err = strconv.ParseFloat(p[1], 64)
		case "int":
			t.AddInteger(p[1])
			want, err = strconv.Atoi(p[1])
		case "bool":
			t.AddBoolean(p[1])
			want = p[1] == "true"
			if p[1] != "true" && p[1] != "false" {
				err = fmt.Errorf("not a boolean")
			}
		}
		w.Distinct(c)
		if (err != nil) != (len(t.Errors) == 1) || len(t.Errors) > 1 {
			return fmt.Errorf("errors %v, should be %v", t.Errors, err)
		}
		if err != nil {
			return nil
		}
		n := t.Pop()
		if n == nil || n.Value() != want || !n.IsValue() || n.IsExpression() || len(t.Stack) != 0 {
			return fmt.Errorf("gives %v, should be %v", n, want)
		}
		if f, ok := want.(float64); ok {
			if got, err := strconv.ParseFloat(miniquery.Build(n), 64); err != nil || math.Float64bits(got) != math.Float64bits(f) {
				return fmt.Errorf("%v is printed as %q", f, miniquery.Build(n))
			}
		}
		return nil
	case "none":
		var m stackModel
		for _, name := range strings.Fields(p[1]) {
			o := treeOpNamed[name]
			if !o.eff(&m) {
				return nil
			}
			o.do(t)
		}
		if s := m.stack; len(s) >= 2 && s[len(s)-1].kind == 'a' && s[len(s)-2].kind == 'n' {
			return nil
		}
		w.Distinct(p[1])
		t.PopFunction()
		if len(t.Errors) != 1 {
			return fmt.Errorf("function without name and list: errors %v", t.Errors)
		}
		return nil
	}
	var m stackModel
	var popped []*miniquery.Node
	var texts []string
	for k, name := range strings.Fields(p[1]) {
		o := treeOpNamed[name]
		top := stackItem{}
		if n := len(m.stack); n > 0 {
			top = m.stack[n-1]
		}
		if !o.eff(&m) {
			return nil
		}
		w.Trans(1)
		if name == "pop" {
			popped, texts = append(popped, t.Pop()), append(texts, top.text)
		} else {
			o.do(t)
		}
		if len(t.Stack) != len(m.stack) {
			return fmt.Errorf("after %d operations: %d nodes, should be %d", k+1, len(t.Stack), len(m.stack))
		}
		for i, n := range t.Stack {
			if shape(n) != m.stack[i].text {
				return fmt.Errorf("after %d operations: node %d is %s, should be %s", k+1, i, shape(n), m.stack[i].text)
			}
			isValue := m.stack[i].kind == 'v' || m.stack[i].kind == 'a'
			isExpr := m.stack[i].kind == 'c' || m.stack[i].kind == 'l'
			if n.IsValue() != isValue || n.IsExpression() != isExpr {
				return fmt.Errorf("after %d operations: %s is a value: %v, an expression: %v", k+1, shape(n), n.IsValue(), n.IsExpression())
			}
		}
		for i, n := range popped {
			if shape(n) != texts[i] {
				return fmt.Errorf("after %d operations: popped %s, should be %s", k+1, shape(n), texts[i])
			}
		}
		if len(t.Errors) != 0 {
			return fmt.Errorf("after %d operations: errors %v", k+1, t.Errors)
		}
	}
	for len(m.stack) > 0 {
		want := m.stack[len(m.stack)-1].text
		m.stack = m.stack[:len(m.stack)-1]
		n := t.Pop()
		if shape(n) != want {
			return fmt.Errorf("the last node is %s, should be %s", shape(n), want)
		}
		w.Distinct(want)
	}
	if n := t.Pop(); n != nil {
		return fmt.Errorf("an empty tree gives %s", shape(n))
	}
	return nil
}
