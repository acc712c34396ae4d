package checks

import (
	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "C02", Case: c02Case, Explore: func(x *run.X) {
		set := gen.NewSet()
		for _, th := range gen.Themes {
			gen.Prefixes(x, set, th, x.Bound(th.Quick-1, th.Quick), gen.Completions)
		}
		gen.Prefixes(x, set, gen.Theme{Name: "tokens", Tokens: gen.Full}, x.Bound(4, 5), gen.Completions)
		gen.Prefixes(x, set, gen.Theme{Name: "significant bytes", Tokens: gen.SignificantBytes}, x.Bound(3, 4), gen.Completions)
		x.Each("words as names", gen.KeywordNames)
		x.Each("vocabulary", gen.VocabularyTexts)
		x.Each("characters", func(yield func(string) bool) { gen.Characters(x.Thorough, yield) })
		x.Each("other languages", gen.Foreign)
		x.Each("marks", func(yield func(string) bool) { gen.Marks(x.Bound(3, 4), yield) })
		x.Each("words as operators", func(yield func(string) bool) {
			gen.ShortWords(x.Bound(2, 3), func(o string) bool {
				return yield("a "+o+" 1") && yield("a=1 "+o+" b=1") && yield("a "+o) && yield(o+" a=1") && yield("a not "+o+" 'x'") && yield("a is "+o) && yield("a is not "+o) && yield("a between 1 "+o+" 2") && yield("a = "+o+" 'x'") && yield("a "+o+" (1)")
			})
		})
		x.Each("letter case", gen.LetterCase)
		x.Each("edits", func(yield func(string) bool) { gen.Edits(gen.Corpus, yield) })
		x.Each("too large", func(yield func(string) bool) { gen.Overflows(x.Bound(8, 12), yield) })
		x.Each("sizes", func(yield func(string) bool) { gen.Sizes(x.Bound(150, 600), 70000, x.Bound(1100, 5000), yield) })
	}, Assumptions: []string{"the published grammar (miniquery.peg) as transcribed in mc/ref defines the language"}})
}

func c02Case(w *run.W, q string) error {
	r := ref.Parse(q)
	if r.Tree != nil {
		w.Distinct(r.Tree.Text())
	}
	_, _, rej, bad := parse(q)
	if bad != nil {
		return bad
	}
	if (r.Tree != nil) == (rej == nil) {
		return nil
	}
	return same(r.Tree, q)
}
