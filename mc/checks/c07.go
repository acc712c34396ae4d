package checks

import (
	"fmt"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

var joinParts = []string{
	"a=1", "a=1 or b=1", "not c=1", "(a=1) or (b=1)", "a=1 and b=1 or c=1", "s = ') or (1=1'", "", "  ", "\n\t", "a in (1,2)", "b between 1 and 2", "c is null", "f(a or b)", "s='--' -- x\n", " a=1 or not b=2 ", "not (a=1 and b=2)",
	"a", "1", "a or b or c", "not a or b", "s = \"')\"", "//c\na=1", "(a=1 or b=1)", "a=1 and not b=1 or not c=1 and b=2",
}

// A case is the list of queries, separated by \x1f.
func init() {
	register(&run.Check{ID: "C07", Case: c07Case, Explore: func(x *run.X) {
		x.Each("none", func(y func(string) bool) { y("nil"); y("empty") })
		x.Each("lists", func(y func(string) bool) {
			var rec func(s []string, left int) bool
			rec = func(s []string, left int) bool {
				if len(s) > 0 && !y("l"+strings.Join(s, "\x1f")) {
					return false
				}
				if left == 0 {
					return true
				}
				for _, p := range joinParts {
					if !rec(append(append([]string{}, s...), p), left-1) {
						return false
					}
				}
				return true
			}
			rec(nil, x.Bound(3, 4))
		})
		x.Each("short lists deeper", func(y func(string) bool) {
			few := []string{"a=1", "b=1 or c=1", "", "not a=1", " "}
			var rec func(s []string, left int) bool
			rec = func(s []string, left int) bool {
				if len(s) > 0 && !y("l"+strings.Join(s, "\x1f")) {
					return false
				}
				if left == 0 {
					return true
				}
				for _, p := range few {
					if !rec(append(append([]string{}, s...), p), left-1) {
						return false
					}
				}
				return true
			}
			rec(nil, x.Bound(7, 8))
		})
		x.Each("long lists", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(300, 1200), x.Bound(2049, 8193))[1:] {
				s, t := []string{}, []string{}
				for i := 0; i < n; i++ {
					s = append(s, fmt.Sprintf("a%d=1 or b=%d", i, i))
					t = append(t, "")
				}
				t[n-1] = "a=1 or b=1"
				if !y("l"+strings.Join(s, "\x1f")) || !y("l"+strings.Join(t, "\x1f")) || !y("l"+strings.Join(append(t, s...), "\x1f")) {
					return
				}
			}
		})
		x.Each("layout around texts", func(y func(string) bool) {
			texts := append(append([]string{}, gen.Corpus...), joinParts...)
			texts = append(texts, "s='--'", "s='-- ' or a=1", "s='//'", `s="// x" or b=1`, "a=1 -- x\n or b=1", "a=1 // ')\n or b=1", "a=1 --(\n or b=1", "s='a -- b' -- c\n or s='//'")
			for _, v := range gen.Contents {
				texts = append(texts, "s='"+v+"'", "a=1 or s=\""+v+"\"")
			}
			around := []string{"", " ", "\n", "\r\n", "\t ", "-- x\n", "//y\r\n", "--\n", "-- ')\n", "//(\"\n ", " --a\n//b\n"}
			for _, t := range texts {
				for _, lead := range around {
					for _, trail := range around {
						v := lead + t + trail
						if strings.Contains(v, "\x1f") || strings.TrimSpace(v) != "" && ref.Parse(v).Tree == nil {
							continue
						}
						if !y("l"+v+"\x1fz=1 or y=1") || !y("lz=1 or y=1\x1f"+v) || !y("l"+v) || !y("l"+v+"\x1f"+v) {
							return
						}
					}
				}
			}
		})
		x.Each("derivations", func(y func(string) bool) {
			for k := 1; k <= x.Bound(4, 5); k++ {
				ok := true
				gen.Skeletons(k, func(i int) gen.E { return conds[i%len(conds)] }, func(e gen.E) bool {
					ok = y("l"+e.Text+"\x1fz=1 or y=1") && y("lz=1 or y=1\x1f"+e.Text)
					return ok
				})
				if !ok {
					return
				}
			}
		})
		x.Each("components of every size", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(400, 3000), 1<<17+1)[1:] {
				if !y("la='" + strings.Repeat("x", n) + "' or b=1\x1fc=1") {
					return
				}
			}
		})
	}})
}

// flat is the tree without parentheses, with and/or chains flattened.
func flat(n *ref.N) string {
	switch n.T {
	case ref.Paren:
		return flat(n.X)
	case ref.Logic:
		var parts []string
		var collect func(m *ref.N)
		collect = func(m *ref.N) {
			for m.T == ref.Paren {
				m = m.X
			}
			if m.T == ref.Logic && m.Op == n.Op {
				collect(m.L)
				collect(m.R)
				return
			}
			parts = append(parts, flat(m))
		}
		collect(n)
		return "{" + strings.Join(parts, " "+n.Op+" ") + "}"
	case ref.Not:
		return "{not " + flat(n.X) + "}"
	}
	return n.Text()
}

func c07Case(w *run.W, c string) error {
	w.Distinct(c)
	if c == "nil" || c == "empty" {
		var in []string
		if c == "empty" {
			in = []string{}
		}
		w.Trans(1)
		if s := miniquery.Join(in); s != "" {
			return fmt.Errorf("nothing joins to %q", s)
		}
		return nil
	}
	in := strings.Split(c[1:], "\x1f")
	keep := append([]string{}, in...)
	// spare capacity behind the slice must stay untouched
	buf := append(append(make([]string, 0, len(in)+1), in...), "sentinel")
	got := miniquery.Join(buf[:len(in)])
	for i := range in {
		if buf[i] != keep[i] {
			return fmt.Errorf("input changed to %q", buf)
		}
	}
	if buf[len(in)] != "sentinel" {
		return fmt.Errorf("writes behind the input")
	}
	w.Trans(len(in))
	if len(in) == 1 {
		if got != in[0] {
			return fmt.Errorf("one query joins to %q", got)
		}
		return nil
	}
	var want *ref.N
	for _, s := range in {
		if strings.TrimSpace(s) == "" {
			continue
		}
		r := ref.Parse(s)
		if r.Tree == nil {
			return fmt.Errorf("%q is not a query: the check is wrong", s)
		}
		if want == nil {
			want = r.Tree
		} else {
			want = ref.LogN(want, "and", r.Tree)
		}
	}
	if want == nil {
		if strings.TrimSpace(got) != "" {
			return fmt.Errorf("blank queries join to %q", got)
		}
		return nil
	}
	tree, _, rej, bad := parse(got)
	if rej != nil || bad != nil {
		return fmt.Errorf("joins to %q, which is not a query: %v %v", got, rej, bad)
	}
	if g, v := flat(tree), flat(want); g != v {
		return fmt.Errorf("joins to %.300q, which means %.300s, should be %.300s", got, g, v)
	}
	return nil
}
