package checks

import (
	"slices"

	"fmt"
	"strings"

	"verif/mc/ref"
	"verif/mc/run"

	"verif/mc/gen"
)

// filters enumerates filters over Thing: a fixture and a query each.
// feature says which constructs the backend has.
type feature struct {
	truth    bool // is true, is false
	date     bool
	mods     bool // date with modifiers
	like     bool
	literals bool // comparison of literals
	nested   bool // comparison of conditions
	bare     bool // a column or literal as a condition
	columns  bool // comparison of columns
}

// leaves are conditions on one column that can be true, false and unknown over the logic fixtures.
var leafKinds = []func(col string) string{
	func(c string) string { return c + "=1" },
	func(c string) string { return c + " between 1 and 2" },
	func(c string) string { return c + " in (1,5)" },
	func(c string) string { return c + " is null" },
	func(c string) string { return c + " not in (0,7)" },
	func(c string) string { return "1 <= " + c },
	func(c string) string { return c + " neq 0" },
	func(c string) string { return c + " not between 1 and 4" },
}

func parsed(t string) gen.E {
	r := ref.Parse(t)
	if r.Tree == nil {
		panic("bad generator text " + t)
	}
	return gen.E{Text: t, Tree: r.Tree}
}

func logicFilters(k int, kinds []int, y func(string) bool) {
	cols := []string{"a", "b", "c", "d"}
	for _, shift := range kinds {
		ok := true
		gen.Skeletons(k, func(i int) gen.E { return parsed(leafKinds[(i+shift)%len(leafKinds)](cols[i])) }, func(e gen.E) bool {
			ok = y(fmt.Sprintf("logic%d\x1e%s", max(k, 3), e.Text))
			return ok
		})
		if !ok {
			return
		}
	}
}

// atoms are conditions without logic over the wide fixtures.
func atoms(ft feature, y func(string) bool) {
	ops := []string{"=", "!=", "<>", "<", "<=", ">", ">=", " eq ", " neq ", " gt ", " gte ", " lt ", " lte "}
	emit := func(fix, q string) bool { return y(fix + "\x1e" + q) }
	intOps := []string{"0", "1", "2", "9223372036854775807", "null", "true", "false", "(1)"}
	for _, c := range []string{"a", "b", "(a)"} {
		for _, o := range ops {
			for _, v := range intOps {
				if !emit("int", c+o+v) || !emit("int", v+o+c) || !emit("int", "not "+c+o+v) || !emit("int", "not ("+c+o+v+")") {
					return
				}
			}
		}
	}
	texts := []string{"''", "'x'", "'X'", `"xy"`, "'%'", `"'"`, `'"'`, `'\'`, "'é'", "'1'", "null", "'null'", "'2020-01-02'"}
	for _, o := range ops {
		for _, v := range texts {
			if !emit("text", "s"+o+v) || !emit("text", v+o+"s") {
				return
			}
		}
		if ft.columns {
			for _, p := range [][2]string{{"s", "t"}, {"t", "s"}, {"s", "s"}} {
				if !emit("text", p[0]+o+p[1]) {
					return
				}
			}
			if !emit("int", "a"+o+"b") || !emit("int", "b"+o+"a") || !emit("int", "a"+o+"a") || !emit("wide", "a"+o+"f") || !emit("wide", "a"+o+"s") {
				return
			}
		}
		for _, v := range []string{"true", "false", "null", "1", "0", "TRUE", "FALSE"} {
			if !emit("wide", "f"+o+v) || !emit("wide", v+o+"f") {
				return
			}
		}
		// a literal of another type than the column
		for _, v := range []string{"'1'", "'x'", "''", "'10'", "true"} {
			if !emit("wide", "a"+o+v) {
				return
			}
		}
		for _, v := range []string{"1", "0", "10", "true"} {
			if !emit("wide", "s"+o+v) {
				return
			}
		}
		if ft.literals {
			lits := []string{"0", "1", "'x'", "'1'", "true", "null", "''"}
			for _, l := range lits {
				for _, r := range lits {
					if !emit("logic3", l+o+r) {
						return
					}
				}
			}
		}
	}
	if ft.like {
		for _, o := range []string{" like ", " not like "} {
			for _, v := range []string{"''", "'x'", "'X'", "'%'", "'_'", "'x%'", "'%x%'", "'_y'", "'a%b'", "'é'", "null", "'%%'", "'__'", "t", "s"} {
				if (v == "t" || v == "s") && !ft.columns {
					continue
				}
				if !emit("text", "s"+o+v) || !emit("text", "not s"+o+v) {
					return
				}
			}
			if ft.literals && (!emit("text", "'x'"+o+"s") || !emit("text", "'axb'"+o+"'%X%'")) {
				return
			}
		}
	}
	lists := []string{"(1)", "[1]", "(1,2)", "[0,1,3]", "(null)", "(1,null)", "[null,2]", "(true,2)", "(9223372036854775807)", "(1,1)", "('1',2)"}
	cols := []string{"a", "b", "(a)"}
	if ft.literals {
		cols = append(cols, "1", "null")
	}
	for _, o := range []string{" in ", " not in "} {
		for _, l := range lists {
			for _, c := range cols {
				if !emit("int", c+o+l) || !emit("int", "not "+c+o+l) {
					return
				}
			}
			if !emit("wide", "f"+o+l) {
				return
			}
		}
		for _, l := range []string{"('x')", "('x','')", `["'",'"','\']`, "('x',null)", "(null)", "('é','xy','2')", "(1,'x')", "('X')"} {
			if !emit("text", "s"+o+l) || !emit("text", "not s"+o+l) {
				return
			}
		}
	}
	for n := 3; n <= 4; n++ { // every mixture
		ok := true
		gen.Tuples(4, n, func(ix []int) bool {
			var ints, texts []string
			for _, i := range ix {
				ints, texts = append(ints, []string{"0", "2", "null", "true"}[i]), append(texts, []string{"'x'", "''", "null", "'xy'"}[i])
			}
			for _, o := range []string{" in ", " not in "} {
				ok = ok && emit("int", "a"+o+"("+strings.Join(ints, ",")+")") && emit("text", "s"+o+"("+strings.Join(texts, ",")+")")
			}
			return ok
		})
		if !ok {
			return
		}
	}
	for n := 5; n <= 20; n++ { // one that differs among many
		for at := 0; at < n; at++ {
			for _, one := range []string{"null", "'x'", "true", "1"} {
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, fmt.Sprint(i+2))
				}
				l[at] = one
				if !emit("int", "a in ("+strings.Join(l, ",")+")") || !emit("int", "a not in ("+strings.Join(l, ",")+")") {
					return
				}
			}
		}
	}
	bounds := []string{"0", "1", "2", "null", "3", "9223372036854775807"}
	for _, o := range []string{" between ", " not between "} {
		for _, lo := range bounds {
			for _, hi := range bounds {
				for _, c := range cols {
					if !emit("int", c+o+lo+" and "+hi) || !emit("int", "not "+c+o+lo+" and "+hi) {
						return
					}
				}
				if !emit("int", "a"+o+"["+lo+","+hi+"]") {
					return
				}
			}
		}
		for _, lo := range []string{"''", "'X'", "'x'", "null", "'1'"} {
			for _, hi := range []string{"'X'", "'x'", "'xy'", "'z'", "null"} {
				if !emit("text", "s"+o+lo+" and "+hi) || !emit("text", "not (s"+o+lo+" and "+hi+")") {
					return
				}
			}
		}
	}
	preds := []string{" isnull", " notnull", " is null", " is not null"}
	if ft.truth {
		preds = append(preds, " is true", " is false", " is not true", " is not false")
	}
	for _, p := range preds {
		for _, c := range []string{"a", "b", "f", "(a)", "id"} {
			if !emit("wide", c+p) || !emit("wide", "not "+c+p) || !emit("wide", "not ("+c+p+")") {
				return
			}
		}
		if !emit("text", "s"+p) {
			return
		}
		if ft.literals {
			for _, c := range []string{"1", "0", "null", "true", "false"} {
				if !emit("logic3", c+p) || !emit("logic3", "not "+c+p) {
					return
				}
			}
		}
		if ft.nested {
			for _, c := range []string{"(a=1)", "(a=1 or b=1)", "(not a=1)", "(a in (1,2))", "(a is null)"} {
				if !emit("wide", c+p) || !emit("wide", "not "+c+p) {
					return
				}
			}
		}
	}
	if ft.date {
		for _, o := range ops {
			for _, v := range []string{"'2020-01-02'", "'2021-12-31'", "''", "null", "s", "w"} {
				if !emit("date", "date(w)"+o+v) || !emit("date", v+o+"date(w)") || !emit("date", "not date(w)"+o+v) {
					return
				}
			}
			if !emit("date", "date(w)"+o+"date('2020-01-02 10:00')") || !emit("date", "date('2020-01-02')"+o+"date(w)") || !emit("date", "date(w)"+o+"date(s)") || !emit("date", "date((w))"+o+"'2020-01-02'") {
				return
			}
		}
		for _, f := range []string{"date(w,s)", "date(w,'+1 days',s)", "date(w,s,'+1 days')", "date(w,w)", "date(w,a)", "date(s,w)", "date('2020-01-02',s)", "date('2020-01-02',w)", "date(w,(s))", "date(w,date(s))", "date(w,true)", "date(w,1)", "date(w,s,s)", "date(w,'',s)", "date(a)", "date(f)"} {
			for _, p := range []string{" is null", " is not null", " = '2020-01-02'", " <= date(w)", " between '2020-01-01' and '2021-01-01'"} {
				if ft.mods && !emit("date", f+p) {
					return
				}
			}
		}
		mods := []string{"'+1 days'", "'-40 days'", "'start of month'", "'start of year'", "'+0 days'", "null"}
		for n := 1; n <= 6 && ft.mods; n++ { // each modifier counts, and their order
			ok := true
			gen.Tuples(len(mods), min(n, 3), func(ix []int) bool {
				var l []string
				for i := 0; i < n-3; i++ {
					l = append(l, mods[i%2])
				}
				for _, i := range ix {
					l = append(l, mods[i])
				}
				c := "date(w," + strings.Join(l, ",") + ")"
				ok = emit("date", c+" > '2020-01-15'") && emit("date", c+" = '2020-01-01'") && emit("date", "date('2020-02-10',"+strings.Join(l, ", ")+") <= date(w)")
				return ok
			})
			if !ok {
				return
			}
		}
		bounds := []string{"'2020-01-01'", "'2020-01-02'", "'2020-01-02 10:00'", "'2020-12-31'", "''", "null", "'2021'"}
		for _, l := range []string{"date(w)", "(w)", "date((w))", "(date(w))", "w"} {
			for _, o := range []string{" between ", " not between "} {
				for _, lo := range bounds {
					for _, hi := range bounds {
						if !emit("date", l+o+lo+" and "+hi) || !emit("date", "not ("+l+o+lo+" and "+hi+")") || !emit("date", l+o+lo+" and "+hi+" and a=1") {
							return
						}
					}
				}
			}
			for _, p := range []string{" is null", " is not null", " isnull", " notnull", " like '2020%'", " not like '%-02'", " in ('2020-01-02','2021-12-31')", " not in ('2020-01-02')", " in (null,'2020-01-02')", " not in (null)"} {
				if !emit("date", l+p) || !emit("date", "not "+l+p) {
					return
				}
			}
		}
		for _, q := range []string{"date(w) is null", "date(w) in ('2020-01-02','x')", "date(w) not in ('2020-01-02')", "date(w) between '2020-01-01' and '2020-12-31'", "date(w) not between '2020-01-01' and '2020-12-31'",
			"date(w) like '2020%'", "date(w) = '2020-01-02' or a = 1", "not (date(w) = '2020-01-02' and a is null)", "date(w) is not null and a=1"} {
			if !emit("date", q) {
				return
			}
		}
	}
	if ft.bare {
		for _, q := range []string{"a", "f", "not a", "not f", "a and b", "a or b", "f and not a", "(a)", "not (a)", "a or not b and f", "true", "false", "null", "1", "0", "not true", "not null", "true or a=1", "false and a=1", "null or a=1", "null and a=1", "a=1 and 1", "a=1 or 0"} {
			if !emit("wide", q) {
				return
			}
		}
	}
	if ft.nested {
		for _, o := range ops {
			for _, l := range []string{"(a=1)", "(a=1 or b=1)", "(a is null)", "(not f)"} {
				for _, r := range []string{"(b=1)", "(a=1 and b=2)", "1", "0", "f", "true", "null"} {
					if !emit("wide", l+o+r) || !emit("wide", "not "+l+o+r) {
						return
					}
				}
			}
		}
	}
}

// pairs combines two conditions of every kind.
func pairs(list []string, y func(string) bool) {
	for _, l := range list {
		for _, r := range list {
			for _, op := range []string{" and ", " or ", "&&", "||"} {
				if !y("mixed\x1e"+l+op+r) || (op == " and " || op == " or ") && (!y("mixed\x1enot "+l+op+r) || !y("mixed\x1e"+l+op+"not "+r) || !y("mixed\x1enot ("+l+op+r+")") || !y("mixed\x1e("+l+")"+op+"not ("+r+")")) {
					return
				}
			}
		}
	}
}

var mixedAtoms = []string{"a=1", "a != 1", "a < 1", "b >= 1", "a in (0,2)", "b not in (1,2)", "a between 0 and 0", "b between 1 and 2", "s like 'x%'", "s not like '%y%'", "a is null", "s is not null", "f = true", "s = 'x'", "a = b", "b <> a", "s > 'a'", "1 = b"}

func triples(list []string, y func(string) bool) {
	for _, a := range list {
		for _, b := range list {
			for _, c := range list {
				for _, f := range []string{"%s and %s or %s", "%s or %s and %s", "%s or (%s and not %s)", "(%s or %s) and %s", "not (%s and %s) or %s", "%s and not (%s or %s)"} {
					if !y("mixed\x1e" + fmt.Sprintf(f, a, b, c)) {
						return
					}
				}
			}
		}
	}
}

// filterSizes are filters with n of each repeatable construct.
func filterSizes(n int, y func(string) bool) {
	for _, i := range gen.Upto(n, 1<<16+1)[1:] {
		if !y("text\x1es = '"+strings.Repeat("x", i)+"' or s = 'xy'") || !y("int\x1ea = "+fmt.Sprint(i-1)) || !y("int\x1ea < "+fmt.Sprint(uint64(1)<<(i%63))) {
			return
		}
		if i > max(n, 4097) {
			continue
		}
		list, slist := []string{}, []string{}
		or, and := []string{}, []string{}
		for j := 0; j < i; j++ {
			list = append(list, fmt.Sprint(j))
			slist = append(slist, fmt.Sprintf("'v%d'", j))
			or = append(or, fmt.Sprintf("a=%d", j))
			and = append(and, fmt.Sprintf("a!=%d", j))
		}
		all := []string{"a in (" + strings.Join(list, ",") + ")", "a not in [" + strings.Join(list, ",") + "]", "a is null or s in (" + strings.Join(slist, ",") + ")"}
		slices.Reverse(list) // those in the table are last
		all = append(all, "a in ("+strings.Join(list, ",")+")", "a not in ["+strings.Join(list, ",")+"]")
		all = append(all, "a in (0,"+strings.TrimSuffix(strings.Repeat("1,", i), ",")+")", "s not in ("+strings.Repeat("'v',", i)+"'v1','v1')")
		if i <= max(n, 520) { // SQLite's expressions are no higher than 1000
			mixed := []string{}
			for j := 0; j < i; j++ {
				mixed = append(mixed, []string{"a>%d", "%d<a", "a<=%d", "a between 3 and %d", "a in (%d,1)"}[j%5])
				mixed[j] = fmt.Sprintf(mixed[j], (j*7+i)%41)
			}
			all = append(all, strings.Join(mixed, " and "), strings.Join(mixed, " or "), mixed[0]+" and ("+strings.Join(mixed, " or ")+")")
			all = append(all, "("+strings.Join(or, ") or (")+")", "not ("+strings.Join(or, ") and not (")+")", "(a=3 or b=3) and ("+strings.Join(and, ") and (")+") or a=4")
			all = append(all, strings.Join(or, " or "), strings.Join(and, " and "), strings.Join(or, " or ")+" or a is null and b is not null")
		}
		if i <= 18 { // SQLite's own parser nests no deeper
			all = append(all, strings.Repeat("(", i)+"a=1"+strings.Repeat(")", i), strings.Repeat("not (", i)+"a=1"+strings.Repeat(")", i), strings.Repeat("(a=7 or ", i)+"a=1"+strings.Repeat(")", i),
				strings.Repeat("(a<20 and not ", i)+"a=1"+strings.Repeat(")", i), "a="+fmt.Sprint(i)+" or a="+fmt.Sprint(i+1))
		}
		for _, q := range all {
			if !y("many\x1e" + q) {
				return
			}
		}
	}
}

// deepFilters nest, too deep for SQLite.
func deepFilters(n, far int, y func(string) bool) {
	for _, i := range gen.Upto(n, far)[1:] {
		rep := func(s string) string { return strings.Repeat(s, i) }
		for _, q := range []string{rep("(") + "a=1" + rep(")"), rep("not (") + "a=1" + rep(")"), rep("(a=7 or ") + "a=1" + rep(")"), rep("(") + "a=7" + rep(" or s='x')"), rep("(a<20 and not ") + "a in (1,2)" + rep(")"), "date(" + rep("(") + "a" + rep(")") + ")=1", "a=1 or " + rep("(") + "b=1" + rep(")") + " and s='x'"} {
			if !y("many\x1e" + q) {
				return
			}
		}
	}
}

// longBad are invalid queries of every size: the bad part is at the end, or inside. There are as many as parts.
func longBad(n, far int, bad string, y func(string) bool) {
	for _, i := range gen.Upto(n, far)[1:] {
		rep := func(s string) string { return strings.Repeat(s, i) }
		all := []string{"a='" + rep("x") + "' and " + bad, bad + " or a='" + rep("x") + "'", "a in (1" + rep(",1") + ") and " + bad, rep(" ") + bad, bad + rep("\n"), "a=1 -- " + rep("x") + "\n and " + bad}
		if i <= max(n, 260) {
			all = append(all, rep("a=1 and ")+bad, rep("a=1 or ")+bad, bad+rep(" and a=1"), rep("(a=1) and ")+bad, rep("not (a=1) or ")+bad, rep("(")+bad+rep(")"), rep("not ")+bad, rep("not (")+bad+rep(")"), rep("(a=1 or ")+bad+rep(")"), rep("a between 1 and 2 and ")+bad)
		}
		for _, q := range all {
			if !y(q) {
				return
			}
		}
	}
}

// allFilters runs the enumeration on a check.
func allFilters(x *run.X, ft feature, kinds3, kinds4 []int, sizes int) {
	x.Each("atoms", func(y func(string) bool) { atoms(ft, y) })
	for k := 1; k <= 3; k++ {
		x.Each(fmt.Sprintf("logic %d", k), func(y func(string) bool) { logicFilters(k, kinds3, y) })
	}
	list := []string{}
	for _, a := range mixedAtoms {
		if !ft.literals && strings.HasPrefix(a, "1 ") || !ft.like && strings.Contains(a, "like") || !ft.columns && (a == "a = b" || a == "b <> a") {
			continue
		}
		list = append(list, a)
	}
	x.Each("pairs", func(y func(string) bool) { pairs(list, y) })
	x.Each("triples", func(y func(string) bool) { triples(list[:x.Bound(7, len(list))], y) })
	x.Each("sizes", func(y func(string) bool) { filterSizes(sizes, y) })
	x.Each("contents of rows", func(y func(string) bool) {
		for _, c := range fixtures["contents"]["s"] {
			c, ok := c.(string)
			if !ok {
				continue
			}
			for _, l := range quoted(c) {
				for _, f := range []string{"s = @", "s != @", "s < @", "s >= @", "s in (@)", "s in ('y',@)", "not s in (@,'x',2)", "s not in (@)", "s between @ and @", "not s between 'x' and @", "s like @", "s = @ or s = 'x'", "date(s) = @"} {
					if !ft.like && strings.Contains(f, "like") || !ft.date && strings.Contains(f, "date") || strings.Contains(c, "\x00") {
						continue
					}
					if !y("contents\x1e" + strings.ReplaceAll(f, "@", l)) {
						return
					}
				}
			}
		}
	})
	if len(kinds4) > 0 {
		x.Each("logic 4", func(y func(string) bool) { logicFilters(4, kinds4, y) })
	}
}
