package checks

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strconv"
	"strings"
	"time"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// handler kinds in the order of the bits of a subset
var handlerKinds = []string{ref.Ident, ref.Refr, "operation", ref.Val, ref.Cmp, ref.Logic, ref.Betw, ref.Fn, ref.Pred, ref.Paren, ref.Not}

var visitTexts = []string{
	"a", "a.b", "1", "'x'", "[1,2,3]", "a=1", "a and b", "a or b and not c", "(a)", "not a=1", "a in (1,'x',null)", "a not in []", "a between 1 and 2", "a not between ['x',3]", "a is null", "a.b is not true", "f()", "f(a)", "f(a,1,b.c)",
	"f(g(a),a=1 or b,[1,2])", "a=1 and (b>2 or not c like 'x') and d is null", "((a))", "not (a in (1,2) and f(b))", "a = b = c", "[1] = [2,3]", "f(a) between 1 and 2 or a.b.c in (1)", "1 is null and f(not (a))", "a between [1] and [2,3]",
	"(a or (b and (c or not d)))", "f(f(f(a,b),c),d)", "a is null = b", "'x' like a and 2 <= b.c", "not f(a between 1 and 2, 'y')", "x in (1) and y in (2) and z in (3) or w in (4)",
}

// A case is text \x1e subset \x1e mode \x1e error position (-1: none).
// In mode 0 installed handlers of inner nodes return without descending, in mode 1 they visit the children themselves,
// in mode 2 they are put in place after Init and call the default that they replace.
func init() {
	register(&run.Check{ID: "C08", Case: c08Case, Explore: func(x *run.X) {
		full := 1<<len(handlerKinds) - 1
		leafOnly := 15
		texts := append([]string{}, visitTexts...)
		// every subset of handlers
		run.Tasks(x, texts, func(w *run.W, t string) {
			w.Family("handler subsets")
			for s := 0; s <= full; s++ {
				for mode := 0; mode < 3; mode++ {
					w.Run(fmt.Sprintf("%s\x1e%d\x1e%d\x1e-1", t, s, mode))
				}
			}
		})
		// every error position
		run.Tasks(x, texts, func(w *run.W, t string) {
			w.Family("error positions")
			subsets := []int{full, leafOnly, full &^ 8, 8, 1, 4, 1 << 4, 1<<7 | 1, full &^ leafOnly, 1<<5 | 4}
			if x.Thorough {
				subsets = subsets[:0]
				for s := 0; s <= full; s++ {
					subsets = append(subsets, s)
				}
			}
			for _, s := range subsets {
				for mode := 0; mode < 3; mode++ {
					n := len(expectVisit(ref.Parse(t).Tree, s, mode))
					for k := 0; k < n; k++ {
						w.Run(fmt.Sprintf("%s\x1e%d\x1e%d\x1e%d", t, s, mode, k))
					}
				}
			}
		})
		x.Each("derivations", func(y func(string) bool) {
			for shift := range conds {
				for k := 1; k <= 3; k++ {
					ok := true
					gen.Skeletons(k, func(i int) gen.E { return conds[(i+shift)%len(conds)] }, func(e gen.E) bool {
						ok = y(fmt.Sprintf("%s\x1e%d\x1e0\x1e-1", e.Text, leafOnly)) && y(fmt.Sprintf("%s\x1e%d\x1e1\x1e-1", e.Text, full))
						return ok
					})
					if !ok {
						return
					}
				}
			}
			gen.Suffixed(gen.Primaries[:x.Bound(12, len(gen.Primaries))], func(e gen.E) bool {
				return y(fmt.Sprintf("%s\x1e%d\x1e0\x1e-1", e.Text, leafOnly))
			})
			for _, l := range gen.Primaries {
				for _, r := range gen.Primaries {
					if !y(fmt.Sprintf("%s=%s\x1e%d\x1e0\x1e-1", l.Text, r.Text, leafOnly)) {
						return
					}
				}
			}
		})
		x.Each("short words", func(y func(string) bool) {
			gen.ShortWords(3, func(s string) bool {
				t := strings.ReplaceAll("@ = '@' and @(c, @.b, b.@, @(1)) and @ in ('@')", "@", s)
				return ref.Parse(t).Tree == nil || y(fmt.Sprintf("%s\x1e%d\x1e0\x1e-1", t, leafOnly))
			})
		})
		x.Each("vocabulary", func(y func(string) bool) {
			gen.VocabularyTexts(func(t string) bool {
				return ref.Parse(t).Tree == nil || y(fmt.Sprintf("%s\x1e%d\x1e0\x1e-1", t, leafOnly)) && y(fmt.Sprintf("%s\x1e%d\x1e0\x1e-1", t, full))
			})
		})
		x.Each("kinds in lists", func(y func(string) bool) {
			kinds := []string{"1", "'x'", "null", "true", "''", "0"}
			for n := 0; n <= x.Bound(4, 5); n++ {
				ok := true
				gen.Tuples(len(kinds), n, func(ix []int) bool {
					var l []string
					for _, i := range ix {
						l = append(l, kinds[i])
					}
					for _, f := range []string{"a in (%s)", "[%s]", "f(%s)"} {
						t := fmt.Sprintf(f, strings.Join(l, ","))
						ok = y(fmt.Sprintf("%s\x1e%d\x1e0\x1e-1", t, leafOnly)) && y(fmt.Sprintf("%s\x1e%d\x1e2\x1e-1", t, full))
						if !ok {
							return false
						}
					}
					return true
				})
				if !ok {
					return
				}
			}
		})
		x.Each("sizes", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(150, 600), x.Bound(1025, 4097))[1:] {
				list := strings.TrimSuffix(strings.Repeat("1,", n), ",")
				for _, t := range []string{"a in (" + list + ")", "f(" + list + ")", "a" + strings.Repeat(" and b", n), "a" + strings.Repeat(" or b", n), strings.Repeat("(", n) + "a" + strings.Repeat(")", n), strings.Repeat("f(", n) + "a" + strings.Repeat(")", n), "a" + strings.Repeat("=1", n)} {
					if !y(fmt.Sprintf("%s\x1e%d\x1e0\x1e-1", t, leafOnly)) || !y(fmt.Sprintf("%s\x1e%d\x1e0\x1e%d", t, leafOnly, n)) {
						return
					}
					for mode := 1; mode < 3; mode++ {
						if !y(fmt.Sprintf("%s\x1e%d\x1e%d\x1e-1", t, full, mode)) || !y(fmt.Sprintf("%s\x1e%d\x1e%d\x1e%d", t, full, mode, n)) {
							return
						}
					}
				}
			}
		})
	}})
}

type visited struct {
	kind string
	text string
}

// expectVisit gives the handler calls.
func expectVisit(root *ref.N, subset, mode int) []visited {
	var out []visited
	has := func(kind string) bool {
		for i, k := range handlerKinds {
			if k == kind {
				return subset>>i&1 == 1
			}
		}
		return false
	}
	var op func(o string)
	op = func(o string) {
		if has("operation") {
			out = append(out, visited{"operation", o})
		}
	}
	var rec func(n *ref.N)
	kids := func(n *ref.N) {
		switch n.T {
		case ref.Val:
			for _, k := range n.Kids {
				rec(k)
			}
		case ref.Cmp, ref.Logic:
			rec(n.L)
			op(n.Op)
			rec(n.R)
		case ref.Pred:
			rec(n.L)
			op(n.Op)
		case ref.Betw:
			rec(n.L)
			op(n.Op)
			for _, k := range n.Kids {
				rec(k)
			}
		case ref.Paren, ref.Not:
			rec(n.X)
		case ref.Fn:
			for _, k := range n.Kids {
				rec(k)
			}
		}
	}
	rec = func(n *ref.N) {
		if has(n.T) {
			out = append(out, visited{n.T, n.Text()})
			if mode != 0 {
				kids(n)
			}
			return
		}
		kids(n)
	}
	rec(root)
	return out
}

type ctxKey struct{}

func c08Case(w *run.W, c string) error {
	f := strings.Split(c, "\x1e")
	subset, _ := strconv.Atoi(f[1])
	mode, _ := strconv.Atoi(f[2])
	fail, _ := strconv.Atoi(f[3])
	tree, node, rej, bad := parse(f[0])
	if rej != nil || bad != nil {
		return fmt.Errorf("%v %v", rej, bad)
	}
	want := expectVisit(ref.Parse(f[0]).Tree, subset, mode)
	if fail >= len(want) {
		return nil
	}
	w.Distinct(c)
	w.Trans(len(want))
	errs := []error{errors.New("boom")}
	if fail >= 0 && len(want) <= 12 {
		errs = append(errs, visitErrors...)
	}
	for _, boom := range errs {
		if err := c08Visit(tree, node, want, subset, mode, fail, boom); err != nil {
			return fmt.Errorf("error %q: %w", boom, err)
		}
	}
	return nil
}

type visitError struct{}

func (*visitError) Error() string { return "" }

// visitErrors are errors that mean something elsewhere.
var visitErrors = []error{io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, fs.SkipDir, fs.SkipAll, fs.ErrNotExist, sql.ErrNoRows, driver.ErrSkip, (*visitError)(nil), fmt.Errorf("x: %w", io.EOF), errors.Join(io.EOF, context.Canceled), errors.New(""), errors.New("stop"), errors.New("invalid type \"\"")}

func c08Visit(tree *ref.N, node *miniquery.Node, want []visited, subset, mode, fail int, boom error) error {
	until := time.Now().Add(time.Hour)
	ctx, cancel := context.WithDeadline(context.WithValue(context.Background(), ctxKey{}, "mine"), until)
	defer cancel()
	var got []visited
	var v miniquery.Visitor
	wrongCtx := false
	note := func(kind string, inner func(ctx context.Context, n *miniquery.Node) error) miniquery.VisitFunc {
		return func(c context.Context, n *miniquery.Node) error {
			if d, ok := c.Deadline(); c.Value(ctxKey{}) != "mine" || !ok || !d.Equal(until) || c.Done() == nil {
				wrongCtx = true
			}
			text := ""
			if n.Type == miniquery.OperationNodeType {
				text = n.Operation
			} else if t, err := convert(n); err != nil {
				text = err.Error()
			} else {
				text = t.Text()
			}
			got = append(got, visited{kind, text})
			if len(got)-1 == fail {
				return boom
			}
			if mode != 0 && inner != nil {
				return inner(c, n)
			}
			return nil
		}
	}
	all := func(get func(n *miniquery.Node) []*miniquery.Node) func(ctx context.Context, n *miniquery.Node) error {
		return func(c context.Context, n *miniquery.Node) error {
			for _, k := range get(n) {
				if err := v.Visit(c, k); err != nil {
					return err
				}
			}
			return nil
		}
	}
	lor := all(func(n *miniquery.Node) []*miniquery.Node { return []*miniquery.Node{n.Left, n.Op, n.Right} })
	exp := all(func(n *miniquery.Node) []*miniquery.Node { return []*miniquery.Node{n.Expression} })
	if mode == 2 {
		v.Init()
	}
	set := func(i int, dst *miniquery.VisitFunc, inner func(ctx context.Context, n *miniquery.Node) error) {
		if subset>>i&1 == 1 {
			if mode == 2 {
				inner = *dst
			}
			*dst = note(handlerKinds[i], inner)
		}
	}
	set(0, &v.IdentifierNode, nil)
	set(1, &v.ReferenceNode, nil)
	set(2, &v.OperationNode, nil)
	set(3, &v.ValueNode, all(func(n *miniquery.Node) []*miniquery.Node { return n.Array }))
	set(4, &v.BinaryExpression, lor)
	set(5, &v.LogicExpression, lor)
	set(6, &v.BetweenExpression, all(func(n *miniquery.Node) []*miniquery.Node {
		return append([]*miniquery.Node{n.Left, n.Op}, n.Params...)
	}))
	set(7, &v.FunctionExpression, all(func(n *miniquery.Node) []*miniquery.Node { return n.Params }))
	set(8, &v.PredicatesExpression, all(func(n *miniquery.Node) []*miniquery.Node { return []*miniquery.Node{n.Left, n.Op} }))
	set(9, &v.ParenthesesExpression, exp)
	set(10, &v.NotExpression, exp)
	if mode != 2 {
		v.Init()
	}
	err := v.Visit(ctx, node)
	if fail >= 0 {
		want = want[:fail+1]
		if err != boom {
			return fmt.Errorf("returns %v, should return the error of the handler", err)
		}
	} else if err != nil {
		return fmt.Errorf("returns %v", err)
	}
	if wrongCtx {
		return errors.New("handler called with another context")
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("calls %.300v, should be %.300v", got, want)
	}
	if after, err := convert(node); err != nil || after.Text() != tree.Text() {
		return errors.New("visiting changes the tree")
	}
	return nil
}
