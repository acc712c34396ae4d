package checks

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/miniquery"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

var placeText = regexp.MustCompile(`line (\d+) symbol (\d+) - line (\d+) symbol (\d+)`)

// lineLayouts are put between the parts of a text, so that places are in other lines.
var lineLayouts = []string{" ", "\n", "\r\n", " \n ", "", " -- x\n", "\r", "\n\n", " // y\r\n\n"}

var brokenParts = [][]string{
	{"a", "=", "1", ")"}, {"a", "=", "$"}, {"(", "a", "=", "1"}, {"a", "in", "(", "1", ",", ")"}, {"'x", "y"}, {"a", "=", "1", "and"}, {"a", "between", "1", "and"},
	{"f", "(", "a", ",", "]"}, {"a", "is", "not", "1"}, {"not"}, {"é", "=", "1"}, {"a", "=", "'é'", "é"}, {"a", "=", "'x\ny'", "b"}, {"#"}, {"x", ".", "y"}, {"a", "like", "'%'", "'", "b"},
}

func init() {
	register(&run.Check{ID: "C34", Case: c34Case, Explore: func(x *run.X) {
		set := gen.NewSet()
		for _, th := range gen.Themes {
			gen.Prefixes(x, set, th, x.Bound(th.Quick-2, th.Quick-1), gen.Completions)
		}
		gen.Prefixes(x, set, gen.Theme{Name: "tokens", Tokens: gen.Full}, x.Bound(3, 4), gen.Completions)
		gen.Prefixes(x, set, gen.Theme{Name: "significant bytes", Tokens: gen.SignificantBytes}, 3, gen.Completions)
		x.Each("edits", func(y func(string) bool) { gen.Edits(gen.Corpus, y) })
		x.Each("other languages", gen.Foreign)
		x.Each("marks", func(y func(string) bool) { gen.Marks(x.Bound(2, 3), y) })
		x.Each("characters", func(y func(string) bool) { gen.Characters(x.Thorough, y) })
		x.Each("lines", func(y func(string) bool) {
			for _, p := range brokenParts {
				if !gen.Tuples(x.Bound(6, len(lineLayouts)), len(p), func(t []int) bool {
					var b strings.Builder
					for i, s := range p {
						b.WriteString(s + lineLayouts[t[i]])
					}
					s := b.String()
					return y(s) && y(strings.TrimRight(s, " \r\n\t")) && y("\n"+s)
				}) {
					return
				}
			}
		})
		x.Each("far places", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(100, 400), x.Bound(1000, 3000)) {
				for _, unit := range []string{"a=1 and ", "a=1 and\n", "not ", "(", "\n", " ", "f(", "a or\r\n", "é", "-- x\n", "a='\n' or "} {
					for _, end := range []string{"", "$", "a", "a=1)", "a=", "'x", "a=1 b", "(a"} {
						if !y(strings.Repeat(unit, n) + end) {
							return
						}
					}
				}
			}
		})
		x.Each("long pieces", func(y func(string) bool) {
			for _, n := range gen.Upto(x.Bound(300, 1200), 4100) {
				for _, p := range []string{"a=1 b@", "a='@' c", "a=\"\n@é\" c", "a=1@ c", "@.b c", "a=1@", "f@(1,2", "a in (1@,", "@", "@ @", "a=1 -- @\n b", "a=1 -- @", "a = '@", "not b@ between 1", "b@ not c"} {
					fill := "bc"
					if strings.Contains(p, "1@") {
						fill = "12"
					}
					if !y(strings.ReplaceAll(p, "@", strings.Repeat(fill, n/2+1)[:n])) {
						return
					}
				}
			}
		})
	}, Assumptions: []string{
		"the published grammar (miniquery.peg) as transcribed in mc/ref defines the language",
		"lines are counted from 1 and end with a line feed, symbols are characters counted from 1",
	}})
}

// place is the piece of a text that an error tells.
type place struct {
	begin, end int
	piece      string
}

func placeOf(q []rune, text string) (p place, err error) {
	m := placeText.FindStringSubmatchIndex(text)
	if m == nil {
		return p, fmt.Errorf("error %q tells no place", text)
	}
	var n [4]int
	for i := range n {
		n[i], _ = strconv.Atoi(text[m[2*i+2]:m[2*i+3]])
	}
	rest := text[m[1]:]
	i := strings.IndexByte(rest, '"')
	if i < 0 {
		return p, fmt.Errorf("error %q tells no piece", text)
	}
	quoted, err := strconv.QuotedPrefix(rest[i:])
	if err == nil {
		p.piece, err = strconv.Unquote(quoted)
	}
	if err != nil {
		return p, fmt.Errorf("error %q tells no piece", text)
	}
	p.begin, p.end = -1, -1
	line, symbol := 1, 0
	for i := 0; i <= len(q); i++ {
		if i < len(q) && q[i] == '\n' {
			line, symbol = line+1, 0
		} else {
			symbol++
		}
		if line == n[0] && symbol == n[1] {
			p.begin = i
		}
		if line == n[2] && symbol == n[3] {
			p.end = i
		}
	}
	if p.begin < 0 || p.end < p.begin || string(q[p.begin:p.end]) != p.piece {
		return p, fmt.Errorf("error %q tells a piece that does not stand there", text)
	}
	return p, nil
}

func namePart(c rune) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func c34Case(w *run.W, text string) error {
	r := ref.Parse(text)
	if r.Tree != nil || r.JSON || r.Overflow {
		return nil
	}
	_, err := miniquery.Parse(text)
	if err == nil {
		return fmt.Errorf("accepted, should be rejected")
	}
	q := []rune(text)
	p, bad := placeOf(q, err.Error())
	if bad != nil {
		return bad
	}
	w.Distinct(fmt.Sprint(p.begin, p.end, p.piece))
	if ref.Parse(string(q[:p.end])).Dead {
		return fmt.Errorf("error %q, but nothing that starts with %q is a query", err, string(q[:p.end]))
	}
	for k := len(q) - 1; k > p.end; k-- {
		if namePart(q[k]) && namePart(q[k-1]) {
			continue // in the middle of a word
		}
		if ref.Parse(string(q[:k])).Tree != nil {
			return fmt.Errorf("error %q, but the longer %q is a query", err, string(q[:k]))
		}
	}
	tell := func(way string, got error) error {
		w.Trans(1)
		if got == nil {
			return fmt.Errorf("%s: no error", way)
		}
		o, bad := placeOf(q, got.Error())
		if bad != nil {
			return fmt.Errorf("%s: %v", way, bad)
		}
		if o != p {
			return fmt.Errorf("%s: tells %v, parsing tells %v", way, o, p)
		}
		return nil
	}
	if text == "" || len(text)%3 == 1 {
		return nil // no query at all, or left to the others
	}
	_, got := (&entmq.MiniQLToEntQLBuilder{Query: text}).Build()
	if err := tell("entql", got); err != nil {
		return err
	}
	_, got = entmq.BuildEntQL(text)
	if err := tell("entql function", got); err != nil {
		return err
	}
	_, _, got = entSQL(text, dialects[0], ways[0], nil, false)
	if err := tell("entsql", got); err != nil {
		return err
	}
	if len(text)%4 != 0 {
		return nil
	}
	f := getRelFixture(w)
	_, _, got = f.gormSQL(&Person{}, apply(text))
	if err := tell("gorm", got); err != nil {
		return err
	}
	if strings.TrimSpace(text) == "" {
		return nil
	}
	_, _, got = f.gormSQL(&Person{}, applyAll("a=1", text, "a=2"))
	return tell("gorm list", got)
}
