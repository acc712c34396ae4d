package checks

import (
	"fmt"
	"io"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

// parserOptions are the ways to start a parser.
var parserOptions = []struct {
	name string
	opts []func(*miniquery.MiniQueryPeg) error
}{
	{"plain", nil},
	{"pretty", []func(*miniquery.MiniQueryPeg) error{miniquery.Pretty(true)}},
	{"size 0", []func(*miniquery.MiniQueryPeg) error{miniquery.Size(0)}},
	{"size 1", []func(*miniquery.MiniQueryPeg) error{miniquery.Size(1)}},
	{"size 5, pretty", []func(*miniquery.MiniQueryPeg) error{miniquery.Size(5), miniquery.Pretty(true)}},
	{"size 4096", []func(*miniquery.MiniQueryPeg) error{miniquery.Size(4096)}},
}

// parserModes are the ways to give a text to a parser:
// x parse, execute, take the tree; p parse only; e execute again; s look at the syntax tree in between;
// i Init instead of Reset; r reset more than once; c parse, then reset and parse the same text again
const parserModes = "xpesirc"

var parserTexts = []string{
	"a=1", "b", "a=1 or b=2 and c=3", "", "a=", "(a=1", "'x", "a in (1,2,3)", "not (a is null)", "a between 1 and 2",
	"f(a, 'b', 1)", "x.y.z like '%q%'", "a=1 -- c", "a=1)", " ", "99999999999999999999", "a and b and c or d or e and f",
	"é", "a='é'", "a not in ()", "true", "((((a))))", "a=\"q\" and", "f()", "a = 'x' b", "a=1\n and b=2",
	"a is not null and b not between 1 and f(2) or not c", "a -> b", "date(a) = '2020-01-01'", "null",
}

func init() {
	register(&run.Check{ID: "C33", Case: c33Case, Explore: func(x *run.X) {
		single := func(q string, yield func(string) bool) bool {
			for i := range parserOptions {
				if !yield(fmt.Sprintf("%d\x1fx%s", i, q)) {
					return false
				}
			}
			return yield("0\x1fc" + q)
		}
		each := func(name string, g func(func(string) bool)) {
			x.Each(name, func(yield func(string) bool) {
				g(func(q string) bool { return single(q, yield) })
			})
		}
		each("tokens", func(y func(string) bool) {
			for n := 0; n <= x.Bound(2, 3); n++ {
				if !gen.Tuples(len(gen.Full), n, func(t []int) bool {
					var b strings.Builder
					for _, i := range t {
						b.WriteString(gen.Full[i])
					}
					return y(b.String()) && y("a=1 "+b.String())
				}) {
					return
				}
			}
		})
		each("other languages", gen.Foreign)
		each("marks", func(y func(string) bool) { gen.Marks(x.Bound(2, 3), y) })
		each("edits", func(y func(string) bool) { gen.Edits(gen.Corpus[:min(len(gen.Corpus), x.Bound(6, 1000))], y) })
		each("sizes", func(y func(string) bool) { gen.Sizes(x.Bound(60, 300), x.Bound(3000, 70000), x.Bound(300, 1100), y) })
		var steps []string
		for _, q := range parserTexts {
			for _, m := range parserModes {
				steps = append(steps, string(m)+q)
			}
		}
		histories := func(name string, steps []string, n int) {
			x.Each(name, func(yield func(string) bool) {
				gen.Tuples(len(steps), n, func(t []int) bool {
					h := []string{fmt.Sprint(t[0] % len(parserOptions))}
					for _, i := range t {
						h = append(h, steps[i])
					}
					return yield(gen.Join(h))
				})
			})
		}
		histories("two texts", steps, 2)
		histories("three texts", steps[:x.Bound(10, 18)*len(parserModes)], 3)
		var few []string
		for _, q := range parserTexts[:x.Bound(9, 12)] {
			few = append(few, "x"+q, "p"+q)
		}
		histories("four texts", few, 4)
		x.Each("long histories", func(yield func(string) bool) {
			for n := 5; n <= x.Bound(60, 400); n++ {
				for first := range parserTexts {
					for stride := 1; stride < 4; stride++ {
						h := []string{fmt.Sprint(n % len(parserOptions))}
						for i := 0; i < n; i++ {
							h = append(h, string(parserModes[(i+first)%len(parserModes)])+parserTexts[(first+i*stride)%len(parserTexts)])
						}
						if !yield(gen.Join(h)) {
							return
						}
					}
				}
			}
		})
	}, Assumptions: []string{
		"a parser is given the next text by setting Buffer and calling Reset, and a fresh Tree after a text whose tree was not taken",
		"limits that only miniquery.Parse adds (depth, json paths) are not asked of the parser used directly",
	}})
}

func c33Case(w *run.W, c string) error {
	h := strings.Split(c, "\x1f")
	var opt int
	fmt.Sscan(h[0], &opt)
	type kept struct {
		q    string
		node *miniquery.Node
		text string
	}
	type refused struct {
		q    string
		err  error
		text string
	}
	var trees []kept
	var errs []refused
	fresh := func(q string) (*miniquery.MiniQueryPeg, error) {
		n := &miniquery.MiniQueryPeg{Tree: &miniquery.Tree{}, Buffer: q}
		return n, n.Init(parserOptions[opt].opts...)
	}
	p := &miniquery.MiniQueryPeg{Tree: &miniquery.Tree{}}
	for i, s := range h[1:] {
		mode, q := s[0], s[1:]
		r := ref.Parse(q)
		w.Trans(1)
		p.Buffer = q
		if i == 0 || mode == 'i' {
			if err := p.Init(parserOptions[opt].opts...); err != nil {
				return fmt.Errorf("step %d: Init: %v", i, err)
			}
		} else {
			p.Reset()
		}
		if mode == 'r' {
			p.Reset()
			p.Reset()
		}
		err := p.Parse()
		if mode == 'c' {
			p.Reset()
			again := p.Parse()
			if (err == nil) != (again == nil) || err != nil && err.Error() != again.Error() {
				return fmt.Errorf("step %d: %q parsed twice: %v, then %v", i, q, err, again)
			}
		}
		if ok := r.Tree != nil || r.JSON || r.Overflow; ok != (err == nil) {
			return fmt.Errorf("step %d: %q: %v, should be accepted: %v", i, q, err, ok)
		}
		if err != nil {
			alone, bad := fresh(q)
			if bad != nil {
				return fmt.Errorf("step %d: Init: %v", i, bad)
			}
			want := alone.Parse()
			if want == nil || want.Error() == "" || want.Error() != err.Error() {
				return fmt.Errorf("step %d: %q: error %q, alone %v", i, q, err, want)
			}
			errs = append(errs, refused{q, err, err.Error()})
			continue
		}
		if mode == 's' {
			alone, bad := fresh(q)
			if bad == nil {
				bad = alone.Parse()
			}
			if bad != nil {
				return fmt.Errorf("step %d: %q alone: %v", i, q, bad)
			}
			want := alone.SprintSyntaxTree()
			for k := 0; k < 2; k++ {
				if got := p.SprintSyntaxTree(); got == "" || got != want {
					return fmt.Errorf("step %d: %q: syntax tree %q, alone %q", i, q, got, want)
				}
				p.WriteSyntaxTree(io.Discard)
				p.Tokens()
				p.AST()
			}
		}
		if mode == 'p' {
			continue
		}
		for n := 0; n < 1 || n < 2 && mode == 'e'; n++ {
			p.Execute()
			if r.Overflow != (len(p.Errors) > 0) && !r.JSON {
				return fmt.Errorf("step %d: %q: errors %v, number too large: %v", i, q, p.Errors, r.Overflow)
			}
			if r.Overflow || r.JSON {
				p.Tree = &miniquery.Tree{}
				continue
			}
			node := p.Pop()
			got, bad := convert(node)
			if bad != nil {
				return fmt.Errorf("step %d: %q: %v", i, q, bad)
			}
			if got.Text() != r.Tree.Text() {
				return fmt.Errorf("step %d: %q gives %s, should be %s", i, q, got.Text(), r.Tree.Text())
			}
			if len(p.Stack) != 0 {
				return fmt.Errorf("step %d: %q leaves %d nodes", i, q, len(p.Stack))
			}
			trees = append(trees, kept{q, node, got.Text()})
		}
	}
	for _, k := range trees {
		got, bad := convert(k.node)
		if bad != nil || got.Text() != k.text {
			return fmt.Errorf("tree of %q changed later, was %s", k.q, k.text)
		}
	}
	for _, k := range errs {
		if got := k.err.Error(); got != k.text {
			return fmt.Errorf("error of %q changed later to %q, was %q", k.q, got, k.text)
		}
	}
	if len(trees) > 0 {
		w.Distinct(h[0] + trees[len(trees)-1].text)
	}
	return nil
}
