package gen

import (
	"strings"

	"verif/mc/ref"
)

// E is a derived expression: its text and the tree it has to have.
type E struct {
	Text string
	Tree *ref.N
}

// Skeletons yields every logic expression with exactly k operands, in order x0 x1 .., built from and, or,
// not and parentheses. Parentheses are put around every sub-expression that can have them (once), not
// before every operand that can have it. leaf gives the i-th operand.
func Skeletons(k int, leaf func(i int) E, yield func(E) bool) {
	s := &skel{leaf: leaf, memo: map[[2]int][]E{}}
	s.chains(0, k, yield)
}

// SkeletonList collects Skeletons.
func SkeletonList(k int, leaf func(i int) E) []E {
	var out []E
	Skeletons(k, leaf, func(e E) bool { out = append(out, e); return true })
	return out
}

type skel struct {
	leaf func(i int) E
	memo map[[2]int][]E
}

// operands of a chain over leaves [from,to): [not] leaf | [not] ( chain )
func (s *skel) operands(from, to int) []E {
	key := [2]int{from, to}
	if v, ok := s.memo[key]; ok {
		return v
	}
	var plain []E
	if to-from == 1 {
		plain = append(plain, s.leaf(from))
		l := s.leaf(from)
		plain = append(plain, E{"(" + l.Text + ")", ref.ParN(l.Tree)}, E{"(not " + l.Text + ")", ref.ParN(ref.NotN(l.Tree))})
	} else {
		s.chains(from, to, func(e E) bool {
			plain = append(plain, E{"(" + e.Text + ")", ref.ParN(e.Tree)})
			return true
		})
	}
	var out []E
	for _, p := range plain {
		out = append(out, p, E{"not " + p.Text, ref.NotN(p.Tree)})
	}
	s.memo[key] = out
	return out
}

// chains yields all chains over leaves [from,to) of at least two operands, or one operand if there is one leaf.
func (s *skel) chains(from, to int, yield func(E) bool) bool {
	if to-from == 1 {
		for _, o := range s.operands(from, to) {
			if !yield(o) {
				return false
			}
		}
		return true
	}
	var rec func(at int, nodes []*ref.N, ops []string, text string) bool
	rec = func(at int, nodes []*ref.N, ops []string, text string) bool {
		if at == to {
			if len(nodes) < 2 {
				return true
			}
			return yield(E{text, ref.Group(nodes, ops)})
		}
		for end := at + 1; end <= to; end++ {
			if at == from && end == to {
				continue
			}
			for _, o := range s.operands(at, end) {
				if len(nodes) == 0 {
					if !rec(end, []*ref.N{o.Tree}, nil, o.Text) {
						return false
					}
					continue
				}
				for _, op := range []string{"and", "or"} {
					n2 := append(append([]*ref.N{}, nodes...), o.Tree)
					o2 := append(append([]string{}, ops...), op)
					if !rec(end, n2, o2, text+" "+op+" "+o.Text) {
						return false
					}
				}
			}
		}
		return true
	}
	return rec(from, nil, nil, "")
}

// Spelling of an operator.
type Spelling struct{ Text, Op string }

// Compares are all spellings of all comparison operators, with the layout they need.
var Compares = []Spelling{
	{"=", "eq"}, {"==", "eq"}, {" eq ", "eq"}, {"!=", "neq"}, {"<>", "neq"}, {" neq ", "neq"}, {">", "gt"}, {" gt ", "gt"}, {">=", "gte"}, {" gte ", "gte"},
	{"<", "lt"}, {" lt ", "lt"}, {"<=", "lte"}, {" lte ", "lte"}, {" like ", "like"}, {" not like ", "not like"},
	{" EQ ", "eq"}, {" Gte ", "gte"}, {" LIKE ", "like"}, {" NOT  Like ", "not like"}, {" = ", "eq"}, {" <> ", "neq"},
}

// Predicates are all postfix predicates.
var Predicates = []Spelling{
	{" isnull", "is null"}, {" notnull", "is not null"}, {" is null", "is null"}, {" is not null", "is not null"}, {" is true", "is true"}, {" is false", "is false"},
	{" is not true", "is not true"}, {" is not false", "is not false"}, {"  is\tnot\nnull", "is not null"}, {" is  null ", "is null"},
}

// Ins are in and not in.
var Ins = []Spelling{{" in ", "in"}, {" not in ", "not in"}, {" IN", "in"}, {" Not  iN ", "not in"}}

// Betweens are between and not between.
var Betweens = []Spelling{{" between ", "between"}, {" not between ", "not between"}, {" NOT\tbetween ", "not between"}}

// Logics are all spellings of and and or.
var Logics = []Spelling{{" and ", "and"}, {" or ", "or"}, {"&&", "and"}, {"||", "or"}, {" AND ", "and"}, {" Or ", "or"}, {" && ", "and"}, {" || ", "or"}}

// Lists are list literals.
var Lists = []E{
	{"[]", ref.VArr()}, {"()", ref.VArr()}, {"[1]", ref.VArr(ref.VInt(1))}, {"(1)", ref.VArr(ref.VInt(1))}, {"(1,2)", ref.VArr(ref.VInt(1), ref.VInt(2))},
	{"['x', null ,true,]", ref.VArr(ref.VStr("x"), ref.VNull(), ref.VBool(true))},
}

// Primaries are operands of every kind.
var Primaries = []E{
	{"a", ref.Id("a")}, {"nota", ref.Id("nota")}, {"1", ref.VInt(1)}, {"0", ref.VInt(0)}, {"'s'", ref.VStr("s")}, {`"and 1"`, ref.VStr("and 1")}, {"true", ref.VBool(true)}, {"FALSE", ref.VBool(false)}, {"null", ref.VNull()},
	{"a.b", &ref.N{T: ref.Refr, Names: []string{"a", "b"}}}, {"a.b.c", &ref.N{T: ref.Refr, Names: []string{"a", "b", "c"}}},
	{"f()", &ref.N{T: ref.Fn, S: "f"}}, {"f(a,1)", &ref.N{T: ref.Fn, S: "f", Kids: []*ref.N{ref.Id("a"), ref.VInt(1)}}},
	{"f(a=1 or b, not c)", &ref.N{T: ref.Fn, S: "f", Kids: []*ref.N{ref.LogN(ref.CmpN(ref.Id("a"), "eq", ref.VInt(1)), "or", ref.Id("b")), ref.NotN(ref.Id("c"))}}},
	{"(a)", ref.ParN(ref.Id("a"))}, {"((a=1))", ref.ParN(ref.ParN(ref.CmpN(ref.Id("a"), "eq", ref.VInt(1))))}, {"(1)", ref.ParN(ref.VInt(1))}, {"[1,2]", ref.VArr(ref.VInt(1), ref.VInt(2))}, {"(1,'x')", ref.VArr(ref.VInt(1), ref.VStr("x"))}, {"()", ref.VArr()},
	{"(not a)", ref.ParN(ref.NotN(ref.Id("a")))}, {"(a or b)", ref.ParN(ref.LogN(ref.Id("a"), "or", ref.Id("b")))},
}

// PrimaryShort are a few operands, for products.
var PrimaryShort = []E{Primaries[0], Primaries[2], Primaries[4], Primaries[8], Primaries[9], Primaries[12], Primaries[14], Primaries[17]}

// Suffixed yields primary [between] [predicate] [in], with every combination of suffixes.
func Suffixed(prims []E, yield func(E) bool) {
	bounds := []E{{"1", ref.VInt(1)}, {"'x'", ref.VStr("x")}, {"null", ref.VNull()}, {"[1]", ref.VArr(ref.VInt(1))}}
	type step func(e E) []E
	betw := func(e E) []E {
		out := []E{e}
		for _, b := range Betweens {
			for i, lo := range bounds {
				hi := bounds[(i+1)%len(bounds)]
				n := &ref.N{T: ref.Betw, L: e.Tree, Op: b.Op, Kids: []*ref.N{lo.Tree, hi.Tree}}
				out = append(out, E{e.Text + b.Text + lo.Text + " and " + hi.Text, n}, E{e.Text + b.Text + "[" + lo.Text + "," + hi.Text + "]", n})
			}
		}
		return out
	}
	pred := func(e E) []E {
		out := []E{e}
		for _, p := range Predicates {
			out = append(out, E{e.Text + p.Text, &ref.N{T: ref.Pred, L: e.Tree, Op: p.Op}})
		}
		return out
	}
	in := func(e E) []E {
		out := []E{e}
		for _, p := range Ins {
			for _, l := range Lists {
				out = append(out, E{e.Text + p.Text + l.Text, ref.CmpN(e.Tree, p.Op, l.Tree)})
			}
		}
		return out
	}
	for _, p := range prims {
		for _, a := range betw(p) {
			for _, b := range pred(a) {
				for _, c := range in(b) {
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

// Join texts for messages.
func Join(s []string) string { return strings.Join(s, "\x1f") }

// Tuples gives all n-tuples of numbers below k.
func Tuples(k, n int, y func([]int) bool) bool {
	ix := make([]int, n)
	for {
		if !y(ix) {
			return false
		}
		i := n - 1
		for ; i >= 0; i-- {
			if ix[i]++; ix[i] < k {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}
