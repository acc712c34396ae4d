package checks

import (
	"fmt"
	"strings"

	"verif/mc/ref"
	"verif/mc/run"
)

// A case is fixture \x1e query.
func init() {
	register(&run.Check{ID: "C11", Case: c11Case, Explore: func(x *run.X) {
		ft := feature{truth: true, date: true, mods: true, like: true, literals: true, nested: true, bare: true, columns: true}
		x.Each("empty", func(y func(string) bool) { y("wide\x1e") })
		all := []int{0, 1, 2, 3, 4, 5, 6, 7}
		allFilters(x, ft, all, all[:x.Bound(1, 8)], x.Bound(250, 900))
	}, Assumptions: []string{"SQLite decides the meaning of the SQL", "operands of comparisons are columns, literals, function calls or parenthesised expressions; lists are not empty"}})
}

func c11Case(w *run.W, c string) error {
	fix, q, _ := strings.Cut(c, "\x1e")
	f := getFixture(w, fix)
	var want []int64
	if q == "" {
		for i := range f.rows {
			want = append(want, int64(i+1))
		}
	} else {
		r := ref.Parse(q)
		if r.Tree == nil {
			return fmt.Errorf("not a query: the check is wrong")
		}
		var err error
		if want, err = f.expect(r.Tree, nil); err != nil {
			return fmt.Errorf("reference: %v", err)
		}
		w.Trans(size(r.Tree))
	}
	w.Distinct(fix + fmt.Sprint(want))
	got, err := f.gormIDs(apply(q))
	if err != nil {
		return fmt.Errorf("error %v", err)
	}
	if !sameIDs(got, want) {
		return fmt.Errorf("%s", f.diffIDs(got, want))
	}
	if fix == "logic4" {
		return nil
	}
	got, err = f.gormIDs(applyAll(q))
	if err != nil {
		return fmt.Errorf("as a list of one query: error %v", err)
	}
	if !sameIDs(got, want) {
		return fmt.Errorf("as a list of one query: %s", f.diffIDs(got, want))
	}
	return nil
}
