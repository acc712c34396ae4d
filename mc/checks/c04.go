package checks

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// A case is kind \x1e payload:
//
//	s  quote+content           string literal
//	i  digits                  integer literal
//	n  name                    identifier
//	r  name.name..             reference
//	l  open+close+elem\x1f..   list of literals (elements are literals in source form)
//	f  arg\x1f..               arguments
//
// Each is parsed in several positions and its value compared.
func init() {
	register(&run.Check{ID: "C04", Case: c04Case, Explore: c04Explore,
		Assumptions: []string{"string contents are valid UTF-8; a byte that is not is read as U+FFFD"}})
}

func c04Case(w *run.W, c string) error {
	kind, p, _ := strings.Cut(c, "\x1e")
	w.Distinct(c)
	switch kind {
	case "s":
		q, content := p[:1], p[1:]
		lit := q + content + q
		return inPositions(w, lit, ref.VStr(content))
	case "i":
		b, _ := new(big.Int).SetString(p, 10)
		if !b.IsInt64() {
			for _, t := range []string{p, "a=" + p, "a in (1," + p + ")", "f(" + p + ")", "a between " + p + " and 1", "a between 1 and " + p} {
				w.Trans(1)
				if n, err := miniquery.Parse(t); err == nil {
					return fmt.Errorf("%q does not fit into an integer, but gives %v", t, n)
				}
			}
			return nil
		}
		return inPositions(w, p, ref.VInt(b.Int64()))
	case "v":
		return inPositions(w, p, ref.Parse(p).Tree)
	case "w": // one word in every place
		return same(ref.Parse(p).Tree, p)
	case "n":
		for _, t := range []string{p, p + "=1", "1=" + p, "(" + p + ")", "f(" + p + ")", p + " is null", "not " + p, p + " and b"} {
			if err := sameTree(w, t, ref.Parse(t).Tree); err != nil {
				return err
			}
		}
		n, err := miniquery.Parse(p)
		if err != nil || n.Name != p {
			return fmt.Errorf("name %q: %v", p, err)
		}
		n, err = miniquery.Parse(p + "(1)")
		if err != nil || n.Name != p || len(n.Params) != 1 {
			return fmt.Errorf("function %q: %v", p, err)
		}
	case "r":
		names := strings.Split(p, ".")
		for _, t := range []string{p, p + "=1", "1=" + p, "f(" + p + ")"} {
			if err := sameTree(w, t, ref.Parse(t).Tree); err != nil {
				return err
			}
		}
		n, err := miniquery.Parse(p)
		if err != nil || strings.Join(n.Names, ".") != p || len(n.Names) != len(names) {
			return fmt.Errorf("reference %q: %v", p, err)
		}
	case "l":
		elems := split(p[2:])
		want := ref.VArr()
		for _, e := range elems {
			want.Kids = append(want.Kids, ref.Parse(e).Tree)
		}
		texts := []string{p[:1] + strings.Join(elems, ",") + p[1:2]}
		if len(elems) > 0 {
			texts = append(texts, p[:1]+" "+strings.Join(elems, " , ")+" , "+p[1:2])
		}
		for _, t := range texts {
			if err := sameTree(w, "a in "+t, ref.CmpN(ref.Id("a"), "in", want)); err != nil {
				return err
			}
			if err := sameTree(w, "a not in "+t+" and b", ref.LogN(ref.CmpN(ref.Id("a"), "not in", want), "and", ref.Id("b"))); err != nil {
				return err
			}
			if len(elems) != 1 || p[0] == '[' {
				if err := sameTree(w, t+"=1", ref.CmpN(want, "eq", ref.VInt(1))); err != nil {
					return err
				}
			}
			n, err := miniquery.Parse("a in " + t)
			if err != nil {
				return err
			}
			if err := sameValue(n.Right.Value(), want.Value()); err != nil {
				return err
			}
		}
	case "f":
		args := split(p)
		want := &ref.N{T: ref.Fn, S: "fn"}
		for _, e := range args {
			want.Kids = append(want.Kids, ref.Parse(e).Tree)
		}
		if err := sameTree(w, "fn("+strings.Join(args, ",")+")", want); err != nil {
			return err
		}
		if err := sameTree(w, "x = fn( "+strings.Join(args, " , ")+" )", ref.CmpN(ref.Id("x"), "eq", want)); err != nil {
			return err
		}
	default:
		return errors.New("bad case")
	}
	return nil
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, "\x1f")
}

func sameTree(w *run.W, q string, want *ref.N) error {
	w.Trans(1)
	if want == nil {
		return fmt.Errorf("no reference tree for %q: the check is wrong", q)
	}
	if err := same(want, q); err != nil {
		return fmt.Errorf("%.200q: %.400v", q, err)
	}
	return nil
}

func sameValue(got, want any) error {
	g, ok1 := got.([]any)
	v, ok2 := want.([]any)
	if ok1 || ok2 {
		if len(g) != len(v) {
			return fmt.Errorf("value has %d elements, should have %d", len(g), len(v))
		}
		for i := range g {
			if err := sameValue(g[i], v[i]); err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
		return nil
	}
	if got != want {
		return fmt.Errorf("value %#v, should be %#v", got, want)
	}
	return nil
}

// inPositions checks a scalar literal in every position a literal can stand in.
func inPositions(w *run.W, lit string, want *ref.N) error {
	n, err := miniquery.Parse(lit)
	if err != nil {
		return fmt.Errorf("%.200q rejected: %v", lit, err)
	}
	if err := sameValue(n.Value(), want.Value()); err != nil {
		return err
	}
	if !n.IsValue() || n.IsExpression() {
		return fmt.Errorf("%.200q is not a value", lit)
	}
	a, one := ref.Id("a"), ref.VInt(1)
	for _, t := range []struct {
		q    string
		tree *ref.N
	}{
		{"a=" + lit, ref.CmpN(a, "eq", want)},
		{lit + " = a", ref.CmpN(want, "eq", a)},
		{"a like " + lit + " or a", ref.LogN(ref.CmpN(a, "like", want), "or", a)},
		{"a in (1," + lit + ", 1)", ref.CmpN(a, "in", ref.VArr(one, want, one))},
		{"a in [" + lit + "]", ref.CmpN(a, "in", ref.VArr(want))},
		{"a between " + lit + " and 1", &ref.N{T: ref.Betw, L: a, Op: "between", Kids: []*ref.N{want, one}}},
		{"a not between [1, " + lit + "]", &ref.N{T: ref.Betw, L: a, Op: "not between", Kids: []*ref.N{one, want}}},
		{"f(" + lit + ",a)", &ref.N{T: ref.Fn, S: "f", Kids: []*ref.N{want, a}}},
	} {
		if err := sameTree(w, t.q, t.tree); err != nil {
			return err
		}
	}
	return nil
}

func c04Explore(x *run.X) {
	x.Each("integers from 0", func(y func(string) bool) {
		for i := 0; i <= x.Bound(30000, 1000000); i++ {
			if !y(fmt.Sprintf("i\x1e%d", i)) {
				return
			}
		}
	})
	x.Each("integers around powers", func(y func(string) bool) {
		for _, base := range []int64{2, 10, 3, 7, 16} {
			p := big.NewInt(1)
			for i := 0; i < 80; i++ {
				for d := int64(-40); d <= 40; d++ {
					v := new(big.Int).Add(p, big.NewInt(d))
					if v.Sign() >= 0 && !y("i\x1e"+v.String()) {
						return
					}
				}
				p = new(big.Int).Mul(p, big.NewInt(base))
			}
		}
		for n := 1; n <= 400; n++ {
			for d := '1'; d <= '9'; d++ {
				if !y("i\x1e" + strings.Repeat(string(d), n)) {
					return
				}
			}
		}
	})
	x.Each("every character", func(y func(string) bool) {
		for r := rune(0); r <= utf8.MaxRune; r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			if !x.Thorough && r > 0x3100 && r&0xff > 3 && r&0xff < 0xfe {
				// beyond the common scripts the quick tier takes the ends of each block here
				continue
			}
			c := string(r)
			for _, q := range []string{"'", `"`} {
				if c == q {
					continue
				}
				if !y("s\x1e"+q+c) || !y("s\x1e"+q+"x"+c+"y") || !y("s\x1e"+q+c+c) {
					return
				}
			}
		}
	})
	x.Each("every character, packed", func(y func(string) bool) {
		var sb strings.Builder
		n := 0
		for r := rune(0); r <= utf8.MaxRune; r++ {
			if !utf8.ValidRune(r) || r == '"' {
				continue
			}
			sb.WriteRune(r)
			n++
			if n == 97 {
				if !y("s\x1e\"" + sb.String()) {
					return
				}
				sb.Reset()
				n = 0
			}
		}
		y("s\x1e\"" + sb.String())
	})
	x.Each("pairs and triples of special characters", func(y func(string) bool) {
		for a := 1; a < 128; a++ {
			for b := 1; b < 128; b++ {
				if a != '\'' && b != '\'' && !y("s\x1e'"+string(rune(a))+string(rune(b))) {
					return
				}
			}
		}
		for _, a := range gen.Strange {
			for _, b := range gen.Strange {
				if !y("s\x1e'"+string(a)+string(b)) || !y("s\x1e\"x"+string(a)+"y"+string(b)) {
					return
				}
			}
			for c := rune(1); c < 128; c++ {
				if c != '"' && (!y("s\x1e\""+string(a)+string(c)) || !y("s\x1e\""+string(c)+string(a)) || !y("s\x1e\"x"+string(c)+string(a)+string(c))) {
					return
				}
			}
		}
		sp := []string{"'", `"`, `\`, "%", "_", "\n", "\r", "\t", " ", "--", "//", "?", "$1", "@", ",", "(", ")", "é", "́", "x", "0", "\x00", "and", "null", ":a"}
		for _, a := range sp {
			for _, b := range sp {
				for _, c := range sp {
					for _, q := range []string{"'", `"`} {
						if s := a + b + c; !strings.Contains(s, q) && !y("s\x1e"+q+s) {
							return
						}
					}
				}
			}
		}
	})
	x.Each("string lengths", func(y func(string) bool) {
		for _, n := range gen.Upto(x.Bound(1100, 4200), 1<<17+1) {
			for _, u := range []string{"x", "é", " ", "\\", "ab'"} {
				q := "\""
				s := strings.Repeat(u, n/len(u)+1)
				for len(s) > n || !utf8.ValidString(s) {
					s = s[:len(s)-1]
				}
				if !y("s\x1e" + q + s) {
					return
				}
			}
		}
	})
	x.Each("long strings", func(y func(string) bool) {
		gen.Far(x.Bound(600, 2000), 70000, func(l string) bool { return y("s\x1e" + l[:len(l)-1]) })
	})
	x.Each("constants", func(y func(string) bool) {
		for _, v := range []string{"true", "false", "TRUE", "FALSE", "null", "NULL"} {
			y("v\x1e" + v)
		}
	})
	x.Each("names", func(y func(string) bool) {
		for _, v := range gen.Vocabulary {
			if !y("n\x1e" + v) {
				return
			}
		}
		abc := []string{"a", "Z", "_", "0", "9", "z", "n", "T"}
		var rec func(s string, left int) bool
		rec = func(s string, left int) bool {
			if !y("n\x1e" + s) {
				return false
			}
			if left == 0 {
				return true
			}
			for _, c := range abc {
				if !rec(s+c, left-1) {
					return false
				}
			}
			return true
		}
		for _, f := range []string{"a", "Z", "q", "A"} {
			rec(f, x.Bound(3, 4))
		}
		for c := 'A'; c <= 'z'; c++ {
			if c > 'Z' && c < 'a' {
				continue
			}
			for d := '0'; d <= 'z'; d++ {
				if d > '9' && d < 'A' || d > 'Z' && d < 'a' && d != '_' {
					continue
				}
				if s := string(c) + string(d); !y("n\x1ex"+s) || !y("n\x1e"+s) {
					return
				}
			}
		}
		for _, n := range gen.Upto(x.Bound(600, 2000), 1<<17+1)[1:] {
			if !y("n\x1ea"+strings.Repeat("b", n-1)) || !y("n\x1eA"+strings.Repeat("_1", n/2)) {
				return
			}
		}
	})
	x.Each("references", func(y func(string) bool) {
		parts := []string{"a", "B_1", "x9", "null_", "notes"}
		var rec func(s []string, left int)
		rec = func(s []string, left int) {
			if len(s) > 1 {
				y("r\x1e" + strings.Join(s, "."))
			}
			if left > 0 {
				for _, p := range parts {
					rec(append(append([]string{}, s...), p), left-1)
				}
			}
		}
		rec(nil, x.Bound(4, 6))
		for _, n := range gen.Upto(x.Bound(200, 1000), 1<<16+1)[2:] {
			s := []string{}
			for i := 0; i < n; i++ {
				s = append(s, fmt.Sprintf("p%d", i))
			}
			if !y("r\x1e" + strings.Join(s, ".")) {
				return
			}
		}
	})
	x.Each("vocabulary", func(y func(string) bool) {
		for _, a := range gen.Vocabulary {
			for _, b := range gen.Vocabulary {
				if !y("r\x1e"+a+"."+b) || !y("r\x1ex."+a+"."+b) || !y("s\x1e'"+a+b) || !y("s\x1e'"+a+" "+b) || !y("s\x1e'"+a+"."+b) || !y("s\x1e\"("+a+") "+b) {
					return
				}
			}
		}
	})
	x.Each("short words", func(y func(string) bool) {
		gen.ShortWords(3, func(s string) bool {
			return y("w\x1e" + strings.ReplaceAll("@ = '@' and f(@.b, b.@, @.@.@, @(1)) and @ in ('@', \"@\") and (@) between '@' and \"@\" and b", "@", s))
		})
	})
	x.Each("contents", func(y func(string) bool) {
		for _, s := range gen.Contents {
			for _, q := range []string{"'", "\""} {
				if !strings.Contains(s, q) && (!y("s\x1e"+q+s) || !y("s\x1e"+q+" "+s) || !y("s\x1e"+q+s+" ") || !y("s\x1e"+q+"x"+s+"y") || !y("s\x1e"+q+s+s)) {
					return
				}
			}
		}
	})
	lits := []string{"0", "1", "''", "'x'", `"a,b"`, "true", "FALSE", "null", "9223372036854775807", "','"}
	x.Each("lists", func(y func(string) bool) {
		var rec func(s []string, left int) bool
		rec = func(s []string, left int) bool {
			if !y("l\x1e[]"+strings.Join(s, "\x1f")) || !y("l\x1e()"+strings.Join(s, "\x1f")) || !y("f\x1e"+strings.Join(s, "\x1f")) {
				return false
			}
			if left > 0 {
				for _, p := range lits {
					if !rec(append(append([]string{}, s...), p), left-1) {
						return false
					}
				}
			}
			return true
		}
		rec(nil, x.Bound(3, 4))
		all := lits
		lits = []string{"1", "'x'", "null", "true"} // longer lists of fewer kinds
		rec(nil, x.Bound(6, 7))
		lits = all
	})
	x.Each("list lengths", func(y func(string) bool) {
		for _, n := range gen.Upto(x.Bound(300, 1200), 1<<16+1) {
			s, t := []string{}, []string{}
			for i := 0; i < n; i++ {
				s = append(s, fmt.Sprint(i))
				t = append(t, fmt.Sprintf("'e%d'", i))
			}
			if !y("l\x1e[]"+strings.Join(s, "\x1f")) || !y("l\x1e()"+strings.Join(t, "\x1f")) || !y("f\x1e"+strings.Join(s, "\x1f")) {
				return
			}
			for at := 0; at < n && n <= x.Bound(20, 40); at++ { // another one among many, and two of them
				for _, one := range lits {
					for _, other := range [][]string{s, t} {
						for _, from := range []int{0, at} {
							l := append([]string{}, other...)
							l[from], l[at] = one, one
							if !y("l\x1e()"+strings.Join(l, "\x1f")) || !y("f\x1e"+strings.Join(l, "\x1f")) {
								return
							}
						}
					}
				}
			}
		}
	})
	x.Each("arguments", func(y func(string) bool) {
		args := []string{"a", "1", "'x'", "a=1", "not a", "g(a,b)", "a.b", "[1,2]", "(a)", "a or b"}
		for _, a := range args {
			for _, b := range args {
				for _, c := range args {
					if !y("f\x1e" + strings.Join([]string{a, b, c}, "\x1f")) {
						return
					}
				}
			}
			for n := 2; n <= x.Bound(60, 200); n++ { // calls in calls, with arguments before and behind
				in := func(p, s string) string { return strings.Repeat("g("+p, n) + a + strings.Repeat(s+")", n) }
				if !y("f\x1e"+in("", "")) || !y("f\x1e"+in("b,", "")) || !y("f\x1e"+in("", ",b")+"\x1fc") || !y("f\x1eb\x1f"+in("1,'x',", ",[2],null")+"\x1fc") {
					return
				}
			}
		}
	})
}
