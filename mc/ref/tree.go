// Package ref is the reference model of the query language. It is written from the
// grammar and the properties, and shares no code with the implementation.
package ref

import (
	"fmt"
	"strconv"
	"strings"
)

// Kinds of nodes.
const (
	Val   = "value"
	Ident = "identifier"
	Refr  = "reference"
	Pred  = "predicates"
	Cmp   = "compare"
	Logic = "logic"
	Paren = "parentheses"
	Not   = "not"
	Betw  = "between"
	Fn    = "function"
	Json  = "json" // only inside the reference parser, never part of an accepted tree
)

// Kinds of values.
const (
	Int  = "int"
	Bool = "bool"
	Str  = "string"
	Null = "null"
	Arr  = "array"
)

// N is a node of the reference tree.
type N struct {
	T     string
	VT    string
	I     int64
	B     bool
	S     string // string value, name
	Names []string
	Op    string
	L, R  *N // R for compare and logic; L also for predicates, between
	X     *N // parentheses, not
	Kids  []*N
}

func VInt(i int64) *N               { return &N{T: Val, VT: Int, I: i} }
func VStr(s string) *N              { return &N{T: Val, VT: Str, S: s} }
func VBool(b bool) *N               { return &N{T: Val, VT: Bool, B: b} }
func VNull() *N                     { return &N{T: Val, VT: Null} }
func VArr(k ...*N) *N               { return &N{T: Val, VT: Arr, Kids: k} }
func Id(s string) *N                { return &N{T: Ident, S: s} }
func CmpN(l *N, op string, r *N) *N { return &N{T: Cmp, L: l, Op: op, R: r} }
func LogN(l *N, op string, r *N) *N { return &N{T: Logic, L: l, Op: op, R: r} }
func NotN(x *N) *N                  { return &N{T: Not, X: x} }
func ParN(x *N) *N                  { return &N{T: Paren, X: x} }

// Value is the Go value of a literal.
func (n *N) Value() any {
	switch n.VT {
	case Int:
		return int(n.I)
	case Bool:
		return n.B
	case Str:
		return n.S
	case Null:
		return nil
	}
	out := []any{}
	for _, k := range n.Kids {
		out = append(out, k.Value())
	}
	return out
}

// Text renders the tree unambiguously, for messages and comparison.
func (n *N) Text() string {
	if n == nil {
		return "<nil>"
	}
	switch n.T {
	case Val:
		switch n.VT {
		case Int:
			return strconv.FormatInt(n.I, 10)
		case Bool:
			return fmt.Sprint(n.B)
		case Str:
			return strconv.Quote(n.S)
		case Null:
			return "null"
		}
		return "[" + texts(n.Kids) + "]"
	case Ident:
		return n.S
	case Refr:
		return strings.Join(n.Names, ".")
	case Pred:
		return "{" + n.L.Text() + " " + n.Op + "}"
	case Cmp, Logic:
		return "{" + n.L.Text() + " " + n.Op + " " + n.R.Text() + "}"
	case Paren:
		return "(" + n.X.Text() + ")"
	case Not:
		return "{not " + n.X.Text() + "}"
	case Betw:
		return "{" + n.L.Text() + " " + n.Op + " " + texts(n.Kids) + "}"
	case Fn:
		return n.S + "(" + texts(n.Kids) + ")"
	}
	return "?" + n.T
}

func texts(ks []*N) string {
	s := []string{}
	for _, k := range ks {
		s = append(s, k.Text())
	}
	return strings.Join(s, ",")
}

// Walk visits the tree, parents first.
func (n *N) Walk(f func(*N)) {
	if n == nil {
		return
	}
	f(n)
	n.X.Walk(f)
	n.L.Walk(f)
	n.R.Walk(f)
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// Any tells whether a node of the tree satisfies f.
func (n *N) Any(f func(*N) bool) bool {
	found := false
	n.Walk(func(m *N) { found = found || f(m) })
	return found
}

// Literals lists the literals in source order; lists are one literal.
func (n *N) Literals() []*N {
	if n == nil {
		return nil
	}
	if n.T == Val {
		return []*N{n}
	}
	var out []*N
	out = append(out, n.X.Literals()...)
	out = append(out, n.L.Literals()...)
	out = append(out, n.R.Literals()...)
	for _, k := range n.Kids {
		out = append(out, k.Literals()...)
	}
	return out
}
