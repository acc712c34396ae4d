package ref

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// V is a SQL value: NULL, an integer or a text. Aff is the column affinity that takes part in comparisons.
type V struct {
	K   byte // 'n', 'i', 's'
	I   int64
	S   string
	Aff byte // 'i' numeric column, 's' text column, 0 none
}

func NullV() V        { return V{K: 'n'} }
func IntV(i int64) V  { return V{K: 'i', I: i} }
func StrV(s string) V { return V{K: 's', S: s} }
func boolV(b bool) V {
	if b {
		return IntV(1)
	}
	return IntV(0)
}

// Unsupported is panicked by Eval for trees it has no meaning for.
type Unsupported string

// Env gives the value of a name; for references the names are joined by a dot.
type Env interface {
	Col(name string) (V, bool)
	// Call evaluates a function that is not built in.
	Call(n *N) (V, bool)
}

// MapEnv is an Env without functions.
type MapEnv map[string]V

func (m MapEnv) Col(s string) (V, bool) { v, ok := m[s]; return v, ok }
func (m MapEnv) Call(*N) (V, bool)      { return V{}, false }

// Eval evaluates in SQL three-valued logic, with the comparison rules of SQLite.
func Eval(n *N, e Env) V {
	switch n.T {
	case Val:
		switch n.VT {
		case Int:
			return IntV(n.I)
		case Bool:
			return boolV(n.B)
		case Str:
			return StrV(n.S)
		case Null:
			return NullV()
		}
		panic(Unsupported("list"))
	case Ident:
		return col(e, n.S)
	case Refr:
		return col(e, strings.Join(n.Names, "."))
	case Paren:
		return Eval(n.X, e)
	case Not:
		v := truth(Eval(n.X, e))
		if v == 2 {
			return NullV()
		}
		return boolV(v == 0)
	case Logic:
		return logicV(n.Op, Eval(n.L, e), Eval(n.R, e))
	case Pred:
		v := Eval(n.L, e)
		switch n.Op {
		case "is null":
			return boolV(v.K == 'n')
		case "is not null":
			return boolV(v.K != 'n')
		}
		t := truth(v)
		switch n.Op {
		case "is true":
			return boolV(t == 1)
		case "is false":
			return boolV(t == 0)
		case "is not true":
			return boolV(t != 1)
		case "is not false":
			return boolV(t != 0)
		}
	case Betw:
		l := Eval(n.L, e)
		v := logicV("and", compare("gte", l, Eval(n.Kids[0], e)), compare("lte", l, Eval(n.Kids[1], e)))
		if n.Op == "not between" {
			if t := truth(v); t != 2 {
				return boolV(t == 0)
			}
		}
		return v
	case Cmp:
		l := Eval(n.L, e)
		if n.Op == "in" || n.Op == "not in" {
			if n.R.T != Val || n.R.VT != Arr || len(n.R.Kids) == 0 {
				panic(Unsupported("empty list"))
			}
			v := boolV(false)
			for _, k := range n.R.Kids {
				v = logicV("or", v, compare("eq", l, Eval(k, e)))
			}
			if n.Op == "not in" {
				if t := truth(v); t != 2 {
					return boolV(t == 0)
				}
			}
			return v
		}
		r := Eval(n.R, e)
		if n.Op == "like" || n.Op == "not like" {
			if l.K == 'n' || r.K == 'n' {
				return NullV()
			}
			return boolV(like([]rune(text(l)), []rune(text(r))) == (n.Op == "like"))
		}
		return compare(n.Op, l, r)
	case Fn:
		if n.S == "date" && len(n.Kids) >= 1 {
			v := Eval(n.Kids[0], e)
			if v.K == 'i' {
				panic(Unsupported("date of an integer"))
			}
			if v.K == 'n' || !isDate(v.S) {
				return NullV()
			}
			day := v.S[:10]
			for _, k := range n.Kids[1:] {
				m := Eval(k, e)
				if m.K == 'n' {
					return NullV()
				}
				t, err := time.Parse("2006-01-02", day)
				var days int
				switch {
				case err != nil || m.K != 's':
					panic(Unsupported("modifier of a date"))
				case m.S == "start of month":
					t = t.AddDate(0, 0, 1-t.Day())
				case m.S == "start of year":
					t = t.AddDate(0, 0, 1-t.YearDay())
				default:
					if n, err := fmt.Sscanf(m.S, "%d days", &days); err != nil || n != 1 {
						panic(Unsupported("modifier of a date"))
					}
					t = t.AddDate(0, 0, days)
				}
				day = t.Format("2006-01-02")
			}
			return StrV(day)
		}
		if v, ok := e.Call(n); ok {
			return v
		}
	}
	panic(Unsupported(n.T + " " + n.Op + n.S))
}

// Rows evaluates the tree for each row; ok is false if the tree has no meaning here.
func Rows(n *N, rows []Env) (out []int8, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, un := r.(Unsupported); !un {
				panic(r)
			}
			out, ok = nil, false
		}
	}()
	for _, r := range rows {
		out = append(out, Truth(n, r))
	}
	return out, true
}

// Truth of a filter: 0 false, 1 true, 2 unknown.
func Truth(n *N, e Env) int8 { return truth(Eval(n, e)) }

func col(e Env, name string) V {
	v, ok := e.Col(name)
	if !ok {
		panic(Unsupported("name " + name))
	}
	return v
}

func truth(v V) int8 {
	switch v.K {
	case 'n':
		return 2
	case 'i':
		if v.I != 0 {
			return 1
		}
		return 0
	}
	f := numericPrefix(v.S)
	if f != 0 {
		return 1
	}
	return 0
}

func logicV(op string, a, b V) V {
	x, y := truth(a), truth(b)
	if op == "and" {
		if x == 0 || y == 0 {
			return boolV(false)
		}
		if x == 2 || y == 2 {
			return NullV()
		}
		return boolV(true)
	}
	if x == 1 || y == 1 {
		return boolV(true)
	}
	if x == 2 || y == 2 {
		return NullV()
	}
	return boolV(false)
}

func compare(op string, l, r V) V {
	if l.K == 'n' || r.K == 'n' {
		return NullV()
	}
	switch {
	case l.Aff == 'i' && r.Aff != 'i':
		r = toNumber(r)
	case r.Aff == 'i' && l.Aff != 'i':
		l = toNumber(l)
	case l.Aff == 's' && r.Aff == 0:
		r = StrV(text(r))
	case r.Aff == 's' && l.Aff == 0:
		l = StrV(text(l))
	}
	c := 0
	switch {
	case l.K == 'i' && r.K == 'i':
		c = cmpInt(l.I, r.I)
	case l.K == 's' && r.K == 's':
		c = strings.Compare(l.S, r.S)
	case l.K == 'i':
		c = -1
	default:
		c = 1
	}
	switch op {
	case "eq":
		return boolV(c == 0)
	case "neq":
		return boolV(c != 0)
	case "gt":
		return boolV(c > 0)
	case "gte":
		return boolV(c >= 0)
	case "lt":
		return boolV(c < 0)
	case "lte":
		return boolV(c <= 0)
	}
	panic(Unsupported(op))
}

func cmpInt(a, b int64) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// toNumber applies numeric affinity: a text that is an integer becomes one.
func toNumber(v V) V {
	if v.K != 's' {
		return v
	}
	s := strings.TrimSpace(v.S)
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return IntV(i)
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		panic(Unsupported("number " + s))
	}
	return v
}

func text(v V) string {
	if v.K == 'i' {
		return strconv.FormatInt(v.I, 10)
	}
	return v.S
}

func numericPrefix(s string) int64 {
	s = strings.TrimLeft(s, " \t\n\r")
	i := 0
	for i < len(s) && (s[i] >= '0' && s[i] <= '9') {
		i++
	}
	for _, c := range s[:i] {
		if c != '0' {
			return 1
		}
	}
	if i < len(s) && (s[i] == '.' || s[i] == '+' || s[i] == '-') {
		panic(Unsupported(fmt.Sprintf("truth of %q", s)))
	}
	return 0
}

// like matches with % and _, ASCII letters in any case.
func like(s, p []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0] == '%' {
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	}
	if len(s) == 0 {
		return false
	}
	lower := func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 'a' - 'A'
		}
		return r
	}
	return (p[0] == '_' || lower(p[0]) == lower(s[0])) && like(s[1:], p[1:])
}

func isDate(s string) bool {
	if len(s) < 10 {
		return false
	}
	for i, c := range s[:10] {
		if i == 4 || i == 7 {
			if c != '-' {
				return false
			}
		} else if c < '0' || c > '9' {
			return false
		}
	}
	if len(s) > 10 {
		rest := s[10:]
		if len(rest) != 6 && len(rest) != 9 || rest[0] != ' ' && rest[0] != 'T' || rest[3] != ':' {
			panic(Unsupported("date " + s))
		}
	}
	m, d := s[5:7], s[8:10]
	return m >= "01" && m <= "12" && d >= "01" && d <= "31"
}

// SQL renders the tree as SQLite SQL with every sub-expression in parentheses; name quotes a column.
func (n *N) SQL(name func(*N) string) string {
	ops := map[string]string{"eq": "=", "neq": "<>", "gt": ">", "gte": ">=", "lt": "<", "lte": "<="}
	switch n.T {
	case Val:
		switch n.VT {
		case Int:
			return strconv.FormatInt(n.I, 10)
		case Bool:
			if n.B {
				return "1"
			}
			return "0"
		case Str:
			return "'" + strings.ReplaceAll(n.S, "'", "''") + "'"
		case Null:
			return "NULL"
		}
		s := []string{}
		for _, k := range n.Kids {
			s = append(s, k.SQL(name))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case Ident, Refr:
		return name(n)
	case Paren:
		return n.X.SQL(name)
	case Not:
		return "(NOT (" + n.X.SQL(name) + "))"
	case Logic:
		return "((" + n.L.SQL(name) + ") " + n.Op + " (" + n.R.SQL(name) + "))"
	case Pred:
		return "(" + n.L.SQL(name) + " " + n.Op + ")"
	case Betw:
		return "(" + n.L.SQL(name) + " " + n.Op + " " + n.Kids[0].SQL(name) + " and " + n.Kids[1].SQL(name) + ")"
	case Cmp:
		op := n.Op
		if o, ok := ops[op]; ok {
			op = o
		}
		return "(" + n.L.SQL(name) + " " + op + " " + n.R.SQL(name) + ")"
	case Fn:
		s := []string{}
		for _, k := range n.Kids {
			s = append(s, k.SQL(name))
		}
		return n.S + "(" + strings.Join(s, ", ") + ")"
	}
	return "?"
}
