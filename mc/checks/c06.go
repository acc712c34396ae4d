package checks

import (
	"fmt"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "C06", Case: c06Case, Explore: func(x *run.X) {
		set := gen.NewSet()
		for _, th := range gen.Themes {
			gen.Prefixes(x, set, th, x.Bound(th.Quick, th.Thorough), nil)
		}
		gen.Prefixes(x, set, gen.Theme{Name: "tokens", Tokens: gen.Full}, x.Bound(4, 5), nil)
		names := []string{"a", "b_1", "null_", "D"}
		for k := 1; k <= 4; k++ {
			x.Each(fmt.Sprintf("logic %d", k), func(y func(string) bool) {
				gen.Skeletons(k, func(i int) gen.E { return gen.E{Text: names[i], Tree: ref.Id(names[i])} }, func(e gen.E) bool { return y(e.Text) })
			})
		}
		x.Each("logic over conditions", func(y func(string) bool) {
			for shift := range conds {
				gen.Skeletons(3, func(i int) gen.E { return conds[(i+shift)%len(conds)] }, func(e gen.E) bool { return y(e.Text) })
			}
		})
		x.Each("comparisons", func(y func(string) bool) {
			for _, l := range gen.Primaries {
				for _, o := range gen.Compares {
					for _, r := range gen.Primaries {
						if !y(l.Text + o.Text + r.Text) {
							return
						}
					}
				}
			}
		})
		x.Each("suffixes", func(y func(string) bool) { gen.Suffixed(gen.Primaries, func(e gen.E) bool { return y(e.Text) }) })
		x.Each("compared suffixes", func(y func(string) bool) {
			for _, o := range []string{"=", " like ", " not like ", " gte "} {
				ok := true
				gen.Suffixed(gen.PrimaryShort, func(e gen.E) bool {
					ok = y("a"+o+e.Text) && y("not "+e.Text+o+"1")
					return ok
				})
				if !ok {
					return
				}
			}
		})
		x.Each("strings", func(y func(string) bool) {
			for r := rune(0); r < 0x3000; r++ {
				for _, q := range []string{"'", `"`} {
					if c := string(r); c != q && (!y("a="+q+c+q) || !y("a in ("+q+"x"+c+"y"+q+",1)")) {
						return
					}
				}
			}
			sp := []string{"'", `"`, `\`, "%", "\n", "\r", "\t", " ", "--", "?", ",", "(", ")", "é", "x", "0", "\x00", "and", "null", `\n`, `\"`, "`", " ", "\U0001F600"}
			for _, a := range sp {
				for _, b := range sp {
					for _, c := range sp {
						for _, q := range []string{"'", `"`} {
							if s := a + b + c; !strings.Contains(s, q) && (!y("a="+q+s+q) || !y("f("+q+s+q+",["+q+s+q+"])")) {
								return
							}
						}
					}
				}
			}
		})
		x.Each("long strings", func(y func(string) bool) {
			gen.Far(x.Bound(600, 2000), 70000, func(l string) bool { return y("a=" + l + " and f(a,[" + l + "])") })
		})
		x.Each("integers", func(y func(string) bool) {
			for i := 0; i <= x.Bound(20000, 200000); i++ {
				if !y(fmt.Sprintf("a=%d", i)) {
					return
				}
			}
			for i := 0; i < 63; i++ {
				for d := -2; d <= 2; d++ {
					if !y(fmt.Sprintf("a=%d", uint64(1<<i+2+d))) {
						return
					}
				}
			}
			y("a=9223372036854775807")
		})
		x.Each("sizes", func(y func(string) bool) { gen.Sizes(x.Bound(150, 500), 70000, x.Bound(1100, 5000), y) })
		x.Each("short words", func(y func(string) bool) {
			gen.ShortWords(3, func(s string) bool {
				return y(strings.ReplaceAll("@ = '@' and f(@.b, b.@, @.@.@, @(1)) and @ in ('@', \"@\") and (@) between '@' and \"@\" and b", "@", s))
			})
		})
		x.Each("vocabulary", gen.VocabularyTexts)
		x.Each("words as names", gen.KeywordNames)
		x.Each("edits", func(y func(string) bool) { gen.Edits(gen.Corpus, y) })
	}})
}

func c06Case(w *run.W, q string) error {
	tree, node, rej, bad := parse(q)
	if bad != nil {
		return bad
	}
	if rej != nil {
		return nil
	}
	w.Distinct("tree " + tree.Text())
	w.Trans(size(tree))
	text := miniquery.Build(node)
	again, node2, rej, bad := parse(text)
	if bad != nil {
		return bad
	}
	if rej != nil {
		return fmt.Errorf("prints as %q, which is rejected: %v", text, rej)
	}
	if again.Text() != tree.Text() {
		return fmt.Errorf("prints as %q, which is %s, should be %s", text, again.Text(), tree.Text())
	}
	if t := miniquery.Build(node2); t != text {
		return fmt.Errorf("prints as %q, then as %q", text, t)
	}
	if after, err := convert(node); err != nil || after.Text() != tree.Text() {
		return fmt.Errorf("printing changes the tree to %v", after.Text())
	}
	return nil
}
