package checks

import (
	"errors"
	"fmt"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/run"
)

// All lists the checks.
var All = []*run.Check{}

func register(c *run.Check) { All = append(All, c) }

func init() {
	register(&run.Check{ID: "C01", Case: c01Case, Explore: func(x *run.X) {
		set := gen.NewSet()
		gen.Prefixes(x, set, gen.Theme{Name: "tokens", Tokens: gen.Full}, x.Bound(4, 5), gen.Completions[:8])
		for _, th := range gen.Themes {
			gen.Prefixes(x, set, th, x.Bound(th.Quick-2, th.Thorough-1), nil)
		}
		gen.Bytes(x, "bytes", x.Bound(2, 3))
		gen.Prefixes(x, set, gen.Theme{Name: "significant bytes", Tokens: gen.SignificantBytes}, x.Bound(3, 4), gen.Completions)
		x.Each("too large", func(yield func(string) bool) { gen.Overflows(x.Bound(8, 12), yield) })
		x.Each("sizes", func(yield func(string) bool) { gen.Sizes(x.Bound(400, 2000), 70000, x.Bound(1100, 5000), yield) })
		x.Each("deep", deepCases(append([][3]string{{"f(", "a", ")"}, {"f(", "", ""}, {"f(a,", "a", ")"}, {"f(a=1 and ", "b", ")"}, {"a=", "1", ""}, {"", "a", "=1"}, {"[", "", ""}, {"not ", "a", ""}, {"a.", "b", ""}, {"a->", "b", ""}, {"", "a", " is null"}}, deepParts...), 5000, 49000, 99999, 100001, 1000000))
		x.Each("other languages", gen.Foreign)
		x.Each("marks", func(yield func(string) bool) { gen.Marks(x.Bound(3, 4), yield) })
		x.Each("edits", func(yield func(string) bool) { gen.Edits(gen.Corpus, yield) })
	}})
}

func c01Case(w *run.W, q string) error {
	if q, n, ok := deepText(q); ok {
		return deepParse(w, q, n)
	}
	node, err := miniquery.Parse(q)
	if err != nil {
		if node != nil {
			return errors.New("both a tree and an error")
		}
		if strings.TrimSpace(err.Error()) == "" {
			return errors.New("empty error text")
		}
		_ = fmt.Sprintf("%+v %v", err, err)
		node2, err2 := miniquery.Parse(q)
		if err2 == nil || node2 != nil || err2.Error() != err.Error() {
			return fmt.Errorf("second call: %v, first call: %v", err2, err)
		}
		return nil
	}
	if node == nil {
		return errors.New("neither tree nor error")
	}
	tree, err := convert(node)
	if err != nil {
		return err
	}
	if node.String() == "" || miniquery.Build(node) == "" {
		return errors.New("tree renders as nothing")
	}
	w.Distinct(tree.Text())
	again, _, rej, bad := parse(q)
	if bad != nil || rej != nil || again.Text() != tree.Text() {
		return fmt.Errorf("second call gives another answer: %v %v", rej, bad)
	}
	return nil
}
