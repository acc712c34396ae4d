package checks

import (
	"fmt"
	"strings"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// A case is the query and the expected tree, separated by \x1e.
func init() {
	register(&run.Check{ID: "C03", Case: func(w *run.W, c string) error {
		q, want, _ := strings.Cut(c, "\x1e")
		w.Distinct(want)
		got, _, rej, bad := parse(q)
		if bad != nil || rej != nil {
			return fmt.Errorf("rejected, should be %s: %v %v", want, rej, bad)
		}
		if got.Text() != want {
			return fmt.Errorf("tree %s, should be %s", got.Text(), want)
		}
		got.Walk(func(*ref.N) { w.Trans(1) })
		r := ref.Parse(q)
		if r.Tree == nil || r.Tree.Text() != want {
			return fmt.Errorf("the two reference trees of %q differ: the check is wrong", q)
		}
		return nil
	}, Explore: func(x *run.X) {
		each := func(name string, f func(yield func(gen.E) bool)) {
			x.Each(name, func(yield func(string) bool) {
				f(func(e gen.E) bool { return yield(e.Text + "\x1e" + e.Tree.Text()) })
			})
		}
		names := []string{"a", "b", "c", "d", "e", "g"}
		for k := 1; k <= x.Bound(4, 4); k++ {
			each(fmt.Sprintf("logic %d", k), func(y func(gen.E) bool) {
				gen.Skeletons(k, func(i int) gen.E { return gen.E{Text: names[i], Tree: ref.Id(names[i])} }, y)
			})
			if k <= x.Bound(3, 4) {
				// operands that contain and, not or in themselves
				each(fmt.Sprintf("logic over conditions %d", k), func(y func(gen.E) bool) {
					for shift := 0; shift < len(conds); shift++ {
						gen.Skeletons(k, func(i int) gen.E { return conds[(i+shift)%len(conds)] }, y)
					}
				})
			}
		}
		each("long chains", func(y func(gen.E) bool) { chains(x.Bound(10, 14), names, y) })
		each("logic spellings", func(y func(gen.E) bool) {
			for _, o1 := range gen.Logics {
				for _, o2 := range gen.Logics {
					for _, o3 := range gen.Logics {
						for n := 0; n < 16; n++ {
							nodes, text := []*ref.N{}, ""
							for i, o := range []string{"", o1.Text, o2.Text, o3.Text} {
								t, tree := conds[i].Text, conds[i].Tree
								if n>>i&1 == 1 {
									t, tree = "not "+t, ref.NotN(tree)
								}
								nodes = append(nodes, tree)
								text += o + t
							}
							if !y(gen.E{Text: text, Tree: ref.Group(nodes, []string{o1.Op, o2.Op, o3.Op})}) {
								return
							}
						}
					}
				}
			}
		})
		each("comparisons", func(y func(gen.E) bool) {
			for _, l := range gen.Primaries {
				for _, o := range gen.Compares {
					for _, r := range gen.Primaries {
						e := gen.E{Text: l.Text + o.Text + r.Text, Tree: ref.CmpN(l.Tree, o.Op, r.Tree)}
						if !y(e) || !y(gen.E{Text: "not " + e.Text, Tree: ref.NotN(e.Tree)}) || !y(gen.E{Text: "(" + e.Text + ")", Tree: ref.ParN(e.Tree)}) {
							return
						}
					}
				}
			}
		})
		each("comparison chains", func(y func(gen.E) bool) {
			for _, l := range gen.PrimaryShort {
				for _, o := range gen.Compares {
					for _, m := range gen.PrimaryShort {
						for _, o2 := range gen.Compares {
							for _, r := range gen.PrimaryShort[:x.Bound(3, 8)] {
								if !y(gen.E{Text: l.Text + o.Text + m.Text + o2.Text + r.Text, Tree: ref.CmpN(ref.CmpN(l.Tree, o.Op, m.Tree), o2.Op, r.Tree)}) {
									return
								}
							}
						}
					}
				}
			}
		})
		each("suffixes", func(y func(gen.E) bool) { gen.Suffixed(gen.Primaries, y) })
		each("compared suffixes", func(y func(gen.E) bool) {
			ops := []gen.Spelling{gen.Compares[0], gen.Compares[14], gen.Compares[15], gen.Compares[9]}
			for _, o := range ops {
				for _, m := range gen.PrimaryShort[:3] {
					ok := true
					gen.Suffixed(gen.PrimaryShort[:x.Bound(4, 8)], func(e gen.E) bool {
						ok = y(gen.E{Text: m.Text + o.Text + e.Text, Tree: ref.CmpN(m.Tree, o.Op, e.Tree)}) && y(gen.E{Text: "not " + e.Text + o.Text + m.Text, Tree: ref.NotN(ref.CmpN(e.Tree, o.Op, m.Tree))})
						return ok
					})
					if !ok {
						return
					}
				}
			}
		})
		each("suffixes in logic", func(y func(gen.E) bool) {
			for _, o := range gen.Logics[:4] {
				ok := true
				gen.Suffixed(gen.PrimaryShort[:x.Bound(2, 8)], func(e gen.E) bool {
					for _, c := range conds {
						ok = y(gen.E{Text: e.Text + o.Text + c.Text, Tree: ref.LogN(e.Tree, o.Op, c.Tree)}) && y(gen.E{Text: c.Text + o.Text + "not " + e.Text, Tree: ref.LogN(c.Tree, o.Op, ref.NotN(e.Tree))})
						if !ok {
							return false
						}
					}
					return ok
				})
				if !ok {
					return
				}
			}
		})
		each("equal and ordered values", func(y func(gen.E) bool) {
			vals := []gen.E{}
			for _, i := range []int64{0, 1, 2, 3, 10, 4294967296} {
				vals = append(vals, gen.E{Text: fmt.Sprint(i), Tree: ref.VInt(i)})
			}
			for _, s := range []string{"", "a", "b", "1", "10", "null", "%"} {
				vals = append(vals, gen.E{Text: "'" + s + "'", Tree: ref.VStr(s)})
			}
			for _, s := range []string{"true", "FALSE", "null"} {
				vals = append(vals, gen.E{Text: s, Tree: ref.Parse(s).Tree})
			}
			names := []gen.E{{Text: "a", Tree: ref.Id("a")}, {Text: "A", Tree: ref.Id("A")}, {Text: "b", Tree: ref.Id("b")}}
			all := append(append([]gen.E{}, vals...), names...)
			for _, u := range vals {
				for _, v := range vals {
					for _, w := range all {
						for _, op := range []string{"between", "not between"} {
							tree := &ref.N{T: ref.Betw, L: w.Tree, Op: op, Kids: []*ref.N{u.Tree, v.Tree}}
							if !y(gen.E{Text: w.Text + " " + op + " " + u.Text + " and " + v.Text, Tree: tree}) || !y(gen.E{Text: w.Text + " " + op + "[" + u.Text + "," + v.Text + "]", Tree: tree}) {
								return
							}
						}
					}
					for _, w := range vals {
						for _, op := range []string{"in", "not in"} {
							if !y(gen.E{Text: "a " + op + "(" + u.Text + "," + v.Text + "," + w.Text + ")", Tree: ref.CmpN(ref.Id("a"), op, ref.VArr(u.Tree, v.Tree, w.Tree))}) {
								return
							}
						}
					}
				}
			}
			for _, u := range all {
				for _, v := range all {
					for _, o := range gen.Compares {
						c := gen.E{Text: u.Text + o.Text + v.Text, Tree: ref.CmpN(u.Tree, o.Op, v.Tree)}
						if !y(c) || !y(gen.E{Text: "not " + c.Text, Tree: ref.NotN(c.Tree)}) || !y(gen.E{Text: c.Text + " and " + c.Text, Tree: ref.LogN(c.Tree, "and", c.Tree)}) {
							return
						}
					}
					for _, w := range all {
						if !y(gen.E{Text: "f(" + u.Text + "," + v.Text + "," + w.Text + ")", Tree: &ref.N{T: ref.Fn, S: "f", Kids: []*ref.N{u.Tree, v.Tree, w.Tree}}}) {
							return
						}
					}
				}
			}
			// chains with equal operands
			for k := 2; k <= 5; k++ {
				for m := 0; m < 1<<(k-1); m++ {
					total := 1
					for i := 0; i < k; i++ {
						total *= 4
					}
					for v := 0; v < total; v++ {
						nodes, ops, text := []*ref.N{}, []string{}, ""
						for i, u := 0, v; i < k; i, u = i+1, u/4 {
							e := []gen.E{names[0], names[2], {Text: "not a", Tree: ref.NotN(ref.Id("a"))}, {Text: "a=1", Tree: ref.CmpN(ref.Id("a"), "eq", ref.VInt(1))}}[u%4]
							if i > 0 {
								op := []string{"and", "or"}[m>>(i-1)&1]
								ops, text = append(ops, op), text+" "+op+" "
							}
							nodes, text = append(nodes, e.Tree), text+e.Text
						}
						if !y(gen.E{Text: text, Tree: ref.Group(nodes, ops)}) {
							return
						}
					}
				}
			}
		})
		each("arguments", func(y func(gen.E) bool) {
			args := append(append([]gen.E{}, gen.PrimaryShort...), conds...)
			args = append(args, gen.E{Text: "a or b and not c", Tree: ref.LogN(ref.Id("a"), "or", ref.LogN(ref.Id("b"), "and", ref.NotN(ref.Id("c"))))})
			for _, a := range args {
				for _, b := range args {
					for _, c := range args {
						f := func(k ...*ref.N) *ref.N { return &ref.N{T: ref.Fn, S: "f", Kids: k} }
						if !y(gen.E{Text: "f(" + a.Text + "," + b.Text + " , " + c.Text + ",)", Tree: f(a.Tree, b.Tree, c.Tree)}) ||
							!y(gen.E{Text: "f(f(" + a.Text + "), " + b.Text + ")=f( " + c.Text + " )", Tree: ref.CmpN(f(f(a.Tree), b.Tree), "eq", f(c.Tree))}) {
							return
						}
					}
				}
			}
		})
		each("deep", func(y func(gen.E) bool) {
			for n := 1; n <= x.Bound(120, 400); n++ {
				t, e := "a", ref.Id("a")
				t2, e2 := "a", ref.Id("a")
				t3, e3 := "a", ref.Id("a")
				for i := 0; i < n; i++ {
					t, e = "(b or "+t+")", ref.ParN(ref.LogN(ref.Id("b"), "or", e))
					t2, e2 = "not ("+t2+" and b)", ref.NotN(ref.ParN(ref.LogN(e2, "and", ref.Id("b"))))
					t3, e3 = "f("+t3+")", &ref.N{T: ref.Fn, S: "f", Kids: []*ref.N{e3}}
				}
				if !y(gen.E{Text: t, Tree: e}) || !y(gen.E{Text: t2, Tree: e2}) || !y(gen.E{Text: t3, Tree: e3}) {
					return
				}
			}
			for n := 2; n <= x.Bound(300, 1500); n++ {
				nodes, and, or, mix := []*ref.N{}, []string{}, []string{}, []string{}
				for i := 0; i < n; i++ {
					nodes = append(nodes, ref.Id(fmt.Sprintf("a%d", i)))
					if i > 0 {
						and, or, mix = append(and, "and"), append(or, "or"), append(mix, []string{"and", "or", "or"}[i%3])
					}
				}
				for _, ops := range [][]string{and, or, mix} {
					t := nodes[0].S
					for i, o := range ops {
						t += " " + o + " " + nodes[i+1].S
					}
					if !y(gen.E{Text: t, Tree: ref.Group(nodes, ops)}) {
						return
					}
				}
			}
		})
	}})
}

// conds are conditions of every kind.
var conds = []gen.E{
	{Text: "a=1", Tree: ref.CmpN(ref.Id("a"), "eq", ref.VInt(1))},
	{Text: "b between 1 and 2", Tree: &ref.N{T: ref.Betw, L: ref.Id("b"), Op: "between", Kids: []*ref.N{ref.VInt(1), ref.VInt(2)}}},
	{Text: "c not in (1,2)", Tree: ref.CmpN(ref.Id("c"), "not in", ref.VArr(ref.VInt(1), ref.VInt(2)))},
	{Text: "d is not null", Tree: &ref.N{T: ref.Pred, L: ref.Id("d"), Op: "is not null"}},
	{Text: "e not like 'x'", Tree: ref.CmpN(ref.Id("e"), "not like", ref.VStr("x"))},
	{Text: "f(a or b)", Tree: &ref.N{T: ref.Fn, S: "f", Kids: []*ref.N{ref.LogN(ref.Id("a"), "or", ref.Id("b"))}}},
	{Text: "g", Tree: ref.Id("g")},
}

// chains yields all and/or chains of up to n operands, without parentheses, with a not at each position or none.
func chains(n int, names []string, y func(gen.E) bool) {
	for k := 2; k <= n; k++ {
		for m := 0; m < 1<<(k-1); m++ {
			for not := -1; not < k; not++ {
				nodes, ops, text := []*ref.N{}, []string{}, ""
				for i := 0; i < k; i++ {
					nm := names[i%len(names)]
					t, tree := nm, ref.Id(nm)
					if i == not {
						t, tree = "not "+t, ref.NotN(tree)
					}
					if i > 0 {
						op := []string{"and", "or"}[m>>(i-1)&1]
						ops = append(ops, op)
						text += " " + op + " "
					}
					nodes = append(nodes, tree)
					text += t
				}
				if !y(gen.E{Text: text, Tree: ref.Group(nodes, ops)}) {
					return
				}
			}
		}
	}
}
