// Package gen enumerates inputs.
package gen

import (
	"hash/maphash"
	"sync"

	"verif/mc/ref"
	"verif/mc/run"
)

// Full is the full token alphabet.
var Full = []string{
	" ", "a", "not", "and", "or", "in", "like", "between", "is", "null", "isnull", "notnull", "true", "FALSE",
	"gt", "lte", "neq", "1", "0", "'", "\"", "(", ")", "[", "]", ",", ".", "=", "<", ">", "!", "&&", "|", "-", "/", "\n", "_", "é", ":",
}

// Theme is a sub-alphabet that is explored deeper.
type Theme struct {
	Name     string
	Start    string // every text starts with it
	Tokens   []string
	Quick    int
	Thorough int
}

// Themes cover one aspect of the grammar each.
var Themes = []Theme{
	{"logic", "", []string{"a", " and ", " or ", "not ", "(", ")", "&&", "||"}, 7, 8},
	{"logic-tight", "1", []string{"1", "and", "or", "not", " ", "(", ")", "&&", "||", "a"}, 6, 7},
	{"compare", "a", []string{"=", "<", ">", "!", " ", "1", "b", "gt", "lt", "e", "eq", "n"}, 5, 6},
	{"like", "a ", []string{"like", "not", " ", "'x'", "b", "LIKE", "=", "\n"}, 7, 8},
	{"list", "a", []string{" in ", " not in ", "(", ")", "[", "]", ",", "1", "'s'", " "}, 7, 8},
	{"list-only", "", []string{"(", ")", "[", "]", ",", "1", "null", " ", "a"}, 7, 8},
	{"between", "a", []string{" between ", " not between ", "between", "1", " and ", "[", "]", ",", "'x'", " ", "(", ")"}, 6, 7},
	{"between-arg", "a between ", []string{"1", " and ", "and", "[", "]", ",", " ", "(", ")", "b", "true"}, 7, 8},
	{"predicate", "a", []string{" ", "is", "not", "null", "isnull", "notnull", "true", "false", "NULL", " and "}, 6, 7},
	{"call", "f", []string{"(", ")", ",", "a", "1", " ", "=", ".", "()", "[", "]"}, 7, 8},
	{"call-cond", "f(", []string{"a", ",", "=1", " and ", " or ", "not ", "g(", ")", " ", "b", "'"}, 6, 7},
	{"reference", "a", []string{".", "b", "->", " ", "=", "1", "_", "(", ")"}, 7, 8},
	{"quote", "", []string{"'", "\"", "a", "\\", "=", " ", "é", "\n", "\x00"}, 6, 7},
	{"number", "", []string{"0", "1", "9", "a", ".", "-", "=", " ", "_", "e"}, 6, 7},
	{"comment", "a", []string{"--", "//", "-", "/", "\n", "\r", " ", "=", "1", "x"}, 6, 7},
	{"comment-in-op", "a ", []string{"not", "in", "like", "is", "null", "--x\n", "//\r", " ", "(1)", "'s'"}, 6, 7},
	{"keyword-chars", "a ", []string{"n", "o", "t", "i", "a", "d", "r", " ", "1", "_"}, 6, 7},
	{"keyword-name", "", []string{"not", "true", "false", "null", "and", "or", "in", "is", "_", "1", "=", " "}, 5, 6},
	{"case", "a ", []string{"NOT", "Not", "AND", "And", "Or", "IN", "LIKE", "Between", "BETWEEN", "IS", "NULL", "Null", "True", "TRUE", " ", "1", "(", ")", "b"}, 4, 5},
	{"ampersand", "a", []string{"&", "|", " ", "b", "and", "or", ",", ";"}, 7, 8},
}

// Completions are appended to dead prefixes.
var Completions = []string{
	" ", "a", "1", ")", "]", "'", "\"", "a)", "1)", "1]", " a", " 1", "=1", " = 1", " and a", " or 1", "\n", ",1)", ")=1", " (1)", "(a)", " null", ".b", "--\n",
	"' ", "a' = 'b", " in (1)", " between 1 and 2", " is null", "b", "b)", "()", "0",
}

type seen struct {
	mu sync.Mutex
	m  map[uint64]int8
}

// Set of texts with the largest remaining depth at which each was expanded.
type Set struct {
	seed   maphash.Seed
	shards [64]seen
}

// NewSet makes an empty set.
func NewSet() *Set {
	s := &Set{seed: maphash.MakeSeed()}
	for i := range s.shards {
		s.shards[i].m = map[uint64]int8{}
	}
	return s
}

// Add tells whether the text is new, and whether it has to be expanded to this depth.
func (s *Set) Add(text string, left int) (fresh, expand bool) {
	h := maphash.String(s.seed, text)
	sh := &s.shards[h&63]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	old, ok := sh.m[h]
	if ok && int(old) >= left {
		return false, false
	}
	sh.m[h] = int8(left)
	return !ok, true
}

// Prefixes explores all token sequences start+t1..tn with n<=depth. Prefixes that cannot be
// extended to an accepted text are not extended by tokens but by the completions.
func Prefixes(x *run.X, set *Set, th Theme, depth int, completions []string) {
	type item struct{ a, b int }
	var items []item
	n := len(th.Tokens)
	for i := 0; i < n; i++ {
		for j := -1; j < n; j++ {
			items = append(items, item{i, j})
		}
	}
	run.Tasks(x, items, func(w *run.W, it item) {
		w.Family(th.Name)
		visit := func(text string, left int) (dead bool, cont bool) {
			r := ref.Parse(text)
			fresh, expand := set.Add(text, left)
			if fresh {
				w.State(1)
				w.Run(text)
				if r.Dead {
					for _, c := range completions {
						w.Trans(1)
						w.Run(text + c)
					}
				}
			}
			return r.Dead, expand
		}
		var dfs func(text string, left int)
		dfs = func(text string, left int) {
			w.Trans(1)
			dead, cont := visit(text, left)
			if dead || !cont || left == 0 || w.Stop() {
				return
			}
			for _, t := range th.Tokens {
				dfs(text+t, left-1)
			}
		}
		first := th.Start + th.Tokens[it.a]
		if it.b < 0 {
			w.Trans(1)
			visit(first, -1) // expanded by the other items
			return
		}
		if depth < 2 || ref.Parse(first).Dead {
			return
		}
		dfs(first+th.Tokens[it.b], depth-2)
	})
}
