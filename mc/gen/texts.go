package gen

import (
	"slices"
	"strings"
	"unicode/utf8"

	"verif/mc/run"
)

// SignificantBytes are the bytes the grammar distinguishes, one per class.
var SignificantBytes = []string{
	" ", "\t", "\n", "\r", "a", "n", "o", "t", "i", "d", "r", "A", "Z", "z", "_", "0", "1", "9", "'", "\"", "(", ")", "[", "]", ",", ".", "=", "<", ">", "!", "&", "|", "-", "/",
	"\x00", "\x7f", "\\", "é", "\xff", " ", "\U0010ffff", ";", "*", "`", "?", "@", "$", ":", "%", "#", "{", "~", "^", "+",
}

// Bytes explores all byte strings up to a length.
func Bytes(x *run.X, name string, length int) {
	var items []int
	for i := 0; i < 256; i++ {
		items = append(items, i)
	}
	run.Tasks(x, items, func(w *run.W, first int) {
		w.Family(name)
		var rec func(b []byte)
		rec = func(b []byte) {
			w.State(1)
			w.Run(string(b))
			if len(b) == length || w.Stop() {
				return
			}
			for i := 0; i < 256; i++ {
				w.Trans(1)
				rec(append(b, byte(i)))
			}
		}
		rec([]byte{byte(first)})
	})
}

// Corpus is a set of accepted queries with every construct.
var Corpus = []string{
	`a=1`, `a == 'x' and b != "y"`, `a <> 1 or b >= 2 and c <= 3`, `not a > 1`, `not (a < 1 or b = 2)`, `a in (1,2,3)`, `a not in ['x' , "y",]`,
	`a like '%x%' && b not like "y"`, `a between 1 and 2 || b not between [1,2]`, `a is null and b is not null`, `a isnull or b notnull`, `a is true`, `a is not false`,
	`f()`, `f(a, 1, 'x', null)`, `date(a) = '2020-01-01'`, `a.b = 1 and a.b.c = 2`, `(a = 1) and ((b))`, `a gt 1 and b gte 2 and c lt 3 and d lte 4 and e eq 5 and g neq 6`,
	"a = 1 -- comment\n and b = 2 // other\r\n or c = 3", `true and FALSE or NULL`, `has_edge(pets, name = 'x' and has_edge(owner))`, `[] = ()`, `notes = 1 and nullable = 2 and trueish = 3`,
}

// Edits yields every text that differs from a corpus text by one deleted, duplicated, replaced or
// inserted character, or a truncation.
func Edits(corpus []string, yield func(string) bool) {
	repl := []string{" ", "a", "1", "'", "\"", "(", ")", "[", "]", ",", "=", ".", "-", "\n", "!", "&", "|", "<", "é", "\x00", "_"}
	for _, c := range corpus {
		for i := 0; i <= len(c); i++ {
			if !yield(c[:i]) || !yield(c[i:]) {
				return
			}
			for _, r := range repl {
				if !yield(c[:i] + r + c[i:]) {
					return
				}
				if i < len(c) && !yield(c[:i]+r+c[i+1:]) {
					return
				}
			}
			if i < len(c) && (!yield(c[:i]+c[i+1:]) || !yield(c[:i]+c[i:i+1]+c[i:])) {
				return
			}
		}
	}
}

// Words of the grammar.
var Words = []string{"and", "or", "not", "in", "like", "between", "is", "null", "isnull", "notnull", "true", "false", "gt", "gte", "lt", "lte", "eq", "neq", "TRUE", "FALSE", "NULL", "NOT", "AND", "OR", "IN"}

// KeywordNames yields words of the grammar, and names that begin or end with one, in every name position.
func KeywordNames(yield func(string) bool) {
	for _, k := range Words {
		for _, n := range []string{k, k + "x", k + "_", k + "1", k + "_1", "x" + k, "x_" + k, k + k, strings.ToUpper(k[:1]) + k[1:], strings.ToUpper(k) + "s", k + "X", k + "and", k + "é"} {
			for _, p := range []string{"@", "@=1", "1=@", "@ = @", "a and @", "@ and a", "not @", "(@)", "@()", "@(1)", "f(@)", "@.b", "a.@", "@.@", "a.b.@=1", "@ in (1)", "@ is null", "@ between 1 and 2", "@ not between 1 and 2", "@ like 'x'", "a = @", "a gt @", "a gt@", "1@1", "1@ 1", "a @ 1", "a @ b", "@isnull", "@ isnull", "a between @ and 1", "a between 1 and @", "a in (@)", "[@]", "@->b", "a @", "@ a", "a@b", "a in(@)or @", "a =@", "'x'@'y'"} {
				if !yield(strings.ReplaceAll(p, "@", n)) {
					return
				}
			}
		}
	}
}

// Vocabulary is names people use, in the ways they write them.
var Vocabulary = []string{"id", "ID", "Id", "uid", "uuid", "user_id", "userId", "userID", "UserID", "user_ids", "_id"[1:] + "_", "owner_id", "owner", "name", "Name", "first_name", "firstName", "FirstName", "type", "key", "value", "val", "count", "sum", "max", "date", "Date", "DATE", "date_", "dates", "datetime", "time", "now", "year", "lower", "upper", "length", "coalesce", "exists", "any", "all",
	"has_edge", "hasEdge", "HAS_EDGE", "has_edges", "has", "edge", "edges", "has_edge_with", "order", "group", "groups", "by", "limit", "offset", "select", "from", "where", "table", "index", "join", "union", "case", "when", "then", "else", "end", "desc", "asc", "as", "on", "to", "if", "isnot", "is_active", "in_stock", "not_before", "or_else", "and_more", "like_count", "between_at", "null_count", "true_name", "false_name", "eq_id", "gt_1",
	"status", "state", "active", "deleted", "deleted_at", "DeletedAt", "created_at", "createdAt", "CreatedAt", "updated_at", "email", "age", "price", "tags", "tag_1", "url", "URL", "HTTPServer", "x", "X", "a1", "a_1", "a__b", "a_", "A_B", "default", "column", "primary", "user", "users", "User", "pets", "parent", "children", "rowid", "version", "json", "text", "int", "bool", "string", "undefined", "none", "nil", "yes", "no", "t", "f", "T", "F", "e1", "x0", "inf", "nan", "this", "self", "root"}

// VocabularyTexts yields queries with one or two of the names in every place.
func VocabularyTexts(yield func(string) bool) {
	for _, a := range Vocabulary {
		for _, t := range []string{"@", "@=1", "1=@", "@ = '@'", "not @", "(@)", "@()", "@(1)", "@(1,2)", "@(b)", "@(b, c=1)", "@(b, not c, 'x', 4)", "f(@)", "f(@, 1)", "f(1, @)", "@(@)", "@(@, @=1)", "@.b", "b.@", "@.@ = 1", "b.@.c", "b.c.@", "@.b.c.d", "@ in (1,2)", "@ not in ['@']", "@ is null", "@ is not null", "@ between 1 and 2", "@ not between 'a' and 'b'", "@ like '@%'", "b = @", "b < @ or @ > c", "b in ('@')", "b='@'", "b=\"@\"", "b='@ '", "b='(@)'", "b='@()'", "@(@(@))", "@ and @", "@ or b and not @", "@ = true", "@ = null", "@=0", "@ = ''", "@(b)=1", "not @(b)", "@(b) and c", "@(b) in (1)", "@(b.c)", "@([1,2])", "@(null)", "@('')"} {
			if !yield(strings.ReplaceAll(t, "@", a)) {
				return
			}
		}
		for _, b := range Vocabulary {
			for _, t := range []string{"@(#)", "@.#=1", "@ = '#'", "@(#, 1)", "@(#, b=1)", "@=1 and #=2", "@=#"} {
				if !yield(strings.ReplaceAll(strings.ReplaceAll(t, "@", a), "#", b)) {
					return
				}
			}
		}
	}
}

// ShortWords yields all words of up to n small letters, and names made of them.
func ShortWords(n int, yield func(string) bool) {
	var rec func(s string, left int) bool
	rec = func(s string, left int) bool {
		if s != "" {
			for _, v := range []string{s, s + "_x", "x_" + s, strings.ToUpper(s), s + "1"} {
				if !yield(v) {
					return false
				}
			}
		}
		for c := 'a'; left > 0 && c <= 'z'; c++ {
			if !rec(s+string(c), left-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
}

// Contents are strings people search for, without quotes.
var Contents = append([]string{"2020-01-02", "2020-01-02 03:04:05", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05+08:00", "2020-13-45", "03:04", "now", "today", "now()", "current_timestamp", "CURRENT_DATE", "007", "0", "00", "-1", "+1", "1.0", "1e5", "0x10", "1_000", "1,000", "NaN", "Infinity", "9223372036854775808", "true", "TRUE", "True", "false", "t", "f", "yes", "no", "on", "off", "null", "NULL", "Null", "nil", "undefined", "none",
	"a@b.c", "@a", "me@example.com", "https://x.y/z?a=1&b=2#c", "//x", "--", "-- x", "a--b", "/* x */", "550e8400-e29b-41d4-a716-446655440000", "{\"a\":1}", "[1,2]", "{1,2}", "(1,2)", "<b>x</b>", "&amp;", "%x%", "x%", "%x", "a_c", "_", "%", "%%", "\\%", "a\\_b", " x", "x ", " ", "  ", "x  y", "\t", "\n", "x\ny", "x\r\ny", "\\", "\\n", "\\\\", "\\u0041", "\\x41", "$1", "$x", "${x}", "{{x}}", "%s", "%d", ":x", ":1", "?", "??", "#", "`x`", "a.b", "a,b", "a;b", "a=1", "a and b", "not x", "in (1)", "A", "Abc", "ABC", "ß", "É", "é", "日本", "مرحبا", "😀"}, Vocabulary...)

// Strange is characters that are spaces, marks, quotes or signs in some notion, and ends of encoded ranges.
var Strange = []rune{0, 1, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xb4, 0xff, 0x130, 0x131, 0x17f, 0x2bc, 0x300, 0x301, 0x37e, 0x3c3, 0x5d0, 0x660, 0x6d4, 0x7ff, 0x800, 0x1680, 0x180e, 0x2000, 0x2003, 0x200b, 0x200d, 0x200e, 0x2018, 0x2019, 0x201c, 0x2028, 0x2029, 0x202e, 0x202f, 0x205f, 0x2060, 0x212a, 0x2212, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xff07, 0xff10, 0xff1d, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}

// Characters yields queries with one character in every place of a query; with all, every character, else those before 0x3100 and the ends of the blocks beyond.
func Characters(all bool, yield func(string) bool) {
	for r := rune(0); r <= utf8.MaxRune; r++ {
		if !utf8.ValidRune(r) || !all && r > 0x3100 && r&0xff > 3 && r&0xff < 0xfe {
			continue
		}
		for _, t := range []string{"@", "@a=1", "a=1@", "a@=1", "a=@1", "a@b", "a @ b", "a=1@and b", "a=1 and@b", "(@a)", "(a@)", "f(@)", "f(a@,b)", "f(a,@b)", "a in@(1)", "a in (1@)", "a.@b", "a@.b", "a='@'", "a=\"@\"", "1@", "1@2", "a not@in (1)", "-- @", "a -- @\nand b", "a @= 1", "a =@ 1", "@@", "a@@1"} {
			if !yield(strings.ReplaceAll(t, "@", string(r))) {
				return
			}
		}
	}
	for _, r := range Strange {
		for _, s := range Strange {
			for _, t := range []string{"@#a=1", "a=1@#", "@a=1#", "a@#=1", "a='@#'", "a = @1#", "a@ and#b"} {
				if !yield(strings.ReplaceAll(strings.ReplaceAll(t, "@", string(r)), "#", string(s))) {
					return
				}
			}
		}
	}
}

// Cases yields all letter-case variants of a word.
func Cases(word string) []string {
	out := []string{""}
	for _, c := range word {
		var next []string
		for _, o := range out {
			l, u := strings.ToLower(string(c)), strings.ToUpper(string(c))
			next = append(next, o+l)
			if u != l {
				next = append(next, o+u)
			}
		}
		out = next
	}
	return out
}

// LetterCase yields every letter-case variant of every word in its contexts.
func LetterCase(yield func(string) bool) {
	ctx := map[string][]string{
		"and": {"a @ b", "a between 1 @ 2", "1@1", "a @ not b"}, "or": {"a @ b", "1@1"}, "not": {"@ a", "a @ in (1)", "a @ like 'x'", "a @ between 1 and 2", "a is @ null", "@", "@x = 1"},
		"in": {"a @ (1)", "a not @ [1]"}, "like": {"a @ 'x'", "a not @ 'x'"}, "between": {"a @ 1 and 2", "a not @ [1,2]"}, "is": {"a @ null", "a @ not true"},
		"null": {"@", "a is @", "a = @", "a is not @"}, "isnull": {"a @"}, "notnull": {"a @"}, "true": {"@", "a is @", "a = @"}, "false": {"@", "a is @", "a = @"},
		"gt": {"a @ 1"}, "gte": {"a @ 1"}, "lt": {"a @ 1"}, "lte": {"a @ 1"}, "eq": {"a @ 1"}, "neq": {"a @ 1"},
	}
	for _, w := range Words {
		for _, c := range ctx[w] {
			for _, v := range Cases(w) {
				if !yield(strings.ReplaceAll(c, "@", v)) {
					return
				}
			}
		}
	}
}

// Upto is every size up to n, and beyond it the sizes around the powers of two and ten up to far.
func Upto(n, far int) []int {
	var all []int
	for i := 0; i <= n; i++ {
		all = append(all, i)
	}
	for _, base := range []int{2, 10} {
		for v := base; v <= far; v *= base {
			for _, w := range []int{v - 1, v, v + 1} {
				if w > n && w <= far {
					all = append(all, w)
				}
			}
		}
	}
	slices.Sort(all)
	return slices.Compact(all)
}

// Sizes yields, for every size up to n and the notable ones up to far, texts with that many of each repeatable construct;
// trees are no higher than deep.
func Sizes(n, far, deep int, yield func(string) bool) {
	rep := strings.Repeat
	for _, i := range Upto(n, far) {
		list := strings.TrimSuffix(rep("1,", i), ",")
		all := []string{
			"a" + rep(".b", i), "a" + rep(" and", i),
			"a in (" + list + ")", "a in [" + list + ",]", "f(" + list + ")", "a between [" + list + "]",
			"a" + rep("x", i) + "=1", "a='" + rep("x", i) + "'", `a="` + rep("é", i) + `"`, "a=" + rep("1", i), "a=" + rep("9", i), "a=1" + rep("0", i), rep(" ", i) + "a" + rep("\n", i), "a=1" + rep("--x\n", i),
			"a=1 --" + rep("x", i) + "\n", "'" + rep("x", i), rep("--x\n", i), "a" + rep(" ", i) + "not" + rep("\t", i) + "in(1)", rep("not ", i) + "a", rep("é", i), "a->" + rep("b->", i) + "c",
		}
		if i <= max(n, deep) {
			all = append(all, rep("f(a,", i)+"c"+rep(",b)", i), rep("f(1,'x',", i)+"[1,2]"+rep(",null,[3])", i), rep("f(a=1,g(b),", i)+"c"+rep(" in (1,2),d)", i),
				rep("(", i)+"a"+rep(")", i), rep("(", i)+"a"+rep(")", i+1), rep("(", i+1)+"a"+rep(")", i),
				rep("f(", i)+"a"+rep(")", i), rep("not (", i)+"a"+rep(")", i), rep("(not ", i)+"a=1"+rep(")", i), rep("(", i), rep("[", i), rep("f(", i),
				"a"+rep("=1", i), rep("a=", i), "a"+rep(" and a", i), "a"+rep(" or a and b", i))
		}
		for _, s := range all {
			if !yield(s) {
				return
			}
		}
	}
}

// Far yields long literals with something special at their end, in their middle or at both, for every length up to n and
// the notable ones up to far.
func Far(n, far int, yield func(string) bool) {
	for _, i := range Upto(n, far) {
		x := strings.Repeat("x", i)
		for _, c := range []string{`"`, "'", "?", "%", `\`, "\n", "\r\n", "é", "$1", "--", ";", " ", "\x00", "(", " or ", "@a", ":a"} {
			q := "'"
			if c == q {
				q = `"`
			}
			if !yield(q+x+c+q) || !yield(q+x+c+x+q) || !yield(q+c+x+c+q) {
				return
			}
		}
	}
}

// Overflows yields texts with up to n integers that are too large, at every place among ones that are not.
func Overflows(n int, yield func(string) bool) {
	for k := 1; k <= n; k++ {
		for m := 0; m < 1<<k; m++ {
			v, c := make([]string, k), make([]string, k)
			for i := range v {
				v[i] = "1"
				if m>>i&1 == 1 {
					v[i] = "99999999999999999999"
				}
				c[i] = "a=" + v[i]
			}
			l := strings.Join(v, ",")
			for _, t := range []string{"a in (" + l + ")", "a not in [" + l + ",]", "f(" + l + ")", strings.Join(c, " and "), strings.Join(c, " or "), "not (" + strings.Join(c, ") and not (") + ")", strings.Repeat("f(1,", k) + l + strings.Repeat(")", k), "a between " + v[0] + " and " + v[k-1], strings.Join(v, "="), "a in (" + l + ") and b=1", "b=1 or a in (" + l + ")"} {
				if !yield(t) {
					return
				}
			}
		}
	}
}

// foreignOps are operators, ForeignForms operands of other query languages.
var foreignOps = strings.Fields("ilike rlike regexp glob match contains icontains startswith endswith starts_with ends_with has hasnot exists any all some xor nand nor implies unless then else when case mod div is isnt isnot equals eqs ne neq nin notin not_in notlike not_like nlike inn within outside overlaps similar soundex collate escape distinct unknown empty blank none nil undefined nan inf isempty isblank isnotnull notempty as asc desc limit offset order by group having where select from union join on using with before after since until at of to than above below over under same like% eq? " +
	"~ ~* !~ !~* =~ ~= ~~ !~~ === !== <=> =< => := =: :: : ** * / // % ^ & | && || ! !! # @ $ ? ?? ?: \\ , ; . .. ... -> ->> <- #> @> <@ <~ << >> <<< >>> <> >< != ^= -= += + - -- ++ & &&& ||| ≠ ≤ ≥ ∧ ∨ ¬ ∈ ∉ ＝ ＜ ＞ （ ） ， 。 ！ ＆＆ ｜｜ × ÷ ≈ ≡ ⊂ … · 且 或 非 等于")

// ForeignForms are operands and conditions of other query languages.
var ForeignForms = []string{
	"-1", "+1", "- 1", "1.5", ".5", "1.", "1e5", "1E5", "1e-5", "0x1F", "0X1f", "0b1", "0o7", "007", "00", "1_000", "1,000", "1'000", "1k", "10%", "$1", "¥1", "1d", "1h", "1L", "1u", "1f", "1n", "NaN", "Infinity", "-Infinity", "1/2", "1+1", "1-1", "2*3", "1|2", "1:2", "1..2", "[1..2]", "1-2", "٣", "１", "½", "²",
	"''", "''''", "'a''b'", `'a\'b'`, `"a\"b"`, `"a""b"`, "`a`", "[a]", "{a}", "{1,2}", "<a>", "«a»", "‘a’", "“a”", "'a", `"a`, "'a\"", "\"a'", "N'a'", "n'a'", "E'a'", "e'a'", "x'00'", "X'00'", "b'1'", "r'a'", "U&'a'", "$$a$$", "q'[a]'", "'a' 'b'", "'a'||'b'", "'a'+'b'", "'a' collate nocase",
	"?", "?1", ":a", "@a", "$a", "#a", "%a", "&a", "*", "a.*", "*.a", "a..b", ".a", "a.", "a .b", "a. b", "a . b", "a.1", "1.a", "a.'b'", "a.\"b\"", "'a'.b", "a.b()", "a().b", "a()()", "f (a)", "f\n(a)", "a[0]", "a['b']", "a->b", "a->>b", "a->'b'", "a::int", "a:b", "a::b", "a/b", "a\\b", "a|b", "a-b", "a+b", "a*b", "a%b", "a^b", "a b", "a$", "$a$", "a#b", "a@b", "a!", "!a", "!(a)", "~a", "-a", "+a", "a++", "_a", "__a", "1a", "a1", "a_", "é", "aé", "éa", "名", "a名", "π", "Ａ",
	"cast(a as int)", "convert(a, int)", "extract(year from a)", "count(*)", "count(distinct a)", "f(*)", "f(a;b)", "f(a b)", "f(,)", "f(a,,b)", "f(,a)", "f(a,)", "f(a=>1)", "f(a:=1)", "f(a: 1)", "f[a]", "f{a}", "f a", "f'a'", "case when a then b end", "exists (select 1)", "(select 1)", "select 1", "if(a,b,c)", "a ? b : c", "a if b else c", "x => x", "(a,b)", "(a,b) = (1,2)", "row(a,b)", "array[1,2]", "any(a)", "all(a)", "interval '1 day'", "date '2020-01-01'", "timestamp '2020'", "now()", "current_date", "default", "undefined", "nil", "None", "True", "False", "TRUE", "Null", "nUll", "NULL", "truE", "yes", "no", "on", "off",
	"/*c*/a", "a/*c*/", "/* a */", "#c\na", "a#c", "a;--", "a;", ";a", "a;b", "<!--a-->", "{#a#}", "{{a}}", "${a}", "#{a}", "%(a)s", "%s", "\\n", "\\", "\ufeffa", "a\u200b", "a\u00a0", "a\u3000b", "a\x00", "\x00a", "a\v", "\fa", "a\u0085", "a\u2028b",
}

// Foreign yields texts with operators, forms and marks of other query languages, which are no part of this one.
func Foreign(yield func(string) bool) {
	all := func(ts ...string) bool {
		for _, t := range ts {
			if !yield(t) {
				return false
			}
		}
		return true
	}
	for _, w := range foreignOps {
		for _, o := range []string{w, strings.ToUpper(w), "not " + w, "is " + w, "is not " + w, w + " not", "not_" + w, "!" + w, w + "=", w + " all"} {
			if !all("a "+o+" 1", "a "+o+" 'x'", "a "+o+" b", "a"+o+"1", "a"+o+"b", "a"+o+"'x'", "a "+o, o+" a", o+"(a)", o+" (a=1)", "a=1 "+o+" b=2", "a=1"+o+"b=2", "a "+o+" (1,2)", "a "+o+" [1,2]", "a "+o+" 1 and 2", "a "+o+" null", "(a) "+o+" (b)", "a=1 and "+o+" b=1", "a=1 "+o, "a in (1"+o+"2)", "f(a"+o+"b)", "f(a "+o+" b)", "a."+o+"=1", "a between 1 "+o+" 2", "a=1 and b "+o+" 1 or c=1") {
				return
			}
		}
	}
	for _, v := range ForeignForms {
		if !all(v, "a="+v, "a = "+v+" ", v+"=1", v+" = 1", "a in ("+v+")", "a in [1,"+v+"]", "a between "+v+" and 2", "a between 1 and "+v, "a like "+v, "f("+v+")", "f(a,"+v+")", "("+v+")", "not "+v, v+" and b=1", "b=1 and "+v, "b=1 or "+v+"=1", v+" is null", v+" in (1)", v+" between 1 and 2", "a."+v, v+".a", v+"(a)", "has_edge(p,"+v+")") {
			return
		}
	}
}

// Marks yields every sequence of up to n punctuation characters between, before and behind operands.
func Marks(n int, yield func(string) bool) {
	const marks = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ "
	var rec func(s string) bool
	rec = func(s string) bool {
		if s != "" && !(yield("a"+s+"1") && yield("a=1"+s+"b=1") && (len(s) > 2 || yield("a "+s+" 'x'") && yield(s+"a") && yield("a"+s) && yield("a=1 "+s+" b=1") && yield("a in (1"+s+"2)") && yield("f(a"+s+"b)") && yield("a=1"+s) && yield(s+"a=1") && yield("a between 1"+s+"2") && yield("a"+s+"b"+s+"c"))) {
			return false
		}
		for i := 0; i < len(marks) && len(s) < n; i++ {
			if !rec(s + marks[i:i+1]) {
				return false
			}
		}
		return true
	}
	rec("")
}
