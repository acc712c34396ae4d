// Package sqlx reads generated SQL as tokens, so that checks do not depend on its layout or letter case.
package sqlx

import (
	"fmt"
	"strconv"
	"strings"
)

// Kinds of tokens.
const (
	Word    = "word"  // upper case
	Ident   = "ident" // quoted name, unquoted
	Text    = "text"  // string literal
	Number  = "number"
	Hole    = "?" // placeholder; N is its number, or 0
	Sym     = "symbol"
	Remark  = "comment"
	Unknown = "unknown"
)

// Tok is a token.
type Tok struct {
	Kind, S string
	N       int
}

// Tokens splits SQL.
func Tokens(s string) []Tok {
	var out []Tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--") || strings.HasPrefix(s[i:], "/*") || strings.HasPrefix(s[i:], "//") || c == '#':
			out = append(out, Tok{Kind: Remark, S: s[i:]})
			return out
		case c == '`' || c == '"':
			j := i + 1
			var sb strings.Builder
			closed := false
			for j < len(s) {
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						sb.WriteByte(c)
						j += 2
						continue
					}
					closed = true
					break
				}
				sb.WriteByte(s[j])
				j++
			}
			if !closed {
				out = append(out, Tok{Kind: Unknown, S: s[i:]})
				return out
			}
			out = append(out, Tok{Kind: Ident, S: sb.String()})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(s) && (s[j] != '\'' || j+1 < len(s) && s[j+1] == '\'') {
				if s[j] == '\'' {
					j++
				}
				j++
			}
			if j >= len(s) {
				out = append(out, Tok{Kind: Unknown, S: s[i:]})
				return out
			}
			out = append(out, Tok{Kind: Text, S: s[i+1 : j]})
			i = j + 1
		case c == '?' || c == '$' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			n, _ := strconv.Atoi(s[i+1 : j])
			out = append(out, Tok{Kind: Hole, S: s[i : i+1], N: n})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			out = append(out, Tok{Kind: Number, S: s[i:j]})
			i = j
		case letter(c):
			j := i
			for j < len(s) && (letter(s[j]) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, Tok{Kind: Word, S: strings.ToUpper(s[i:j])})
			i = j
		default:
			sym := ""
			for _, t := range []string{"::", "<>", "!=", "<=", ">=", "==", "||", "&&", "->"} {
				if strings.HasPrefix(s[i:], t) {
					sym = t
				}
			}
			if sym == "" && strings.IndexByte("()[],.*=<>+-;", c) >= 0 {
				sym = string(c)
			}
			if sym == "" {
				out = append(out, Tok{Kind: Unknown, S: s[i:]})
				return out
			}
			out = append(out, Tok{Kind: Sym, S: sym})
			i += len(sym)
		}
	}
	return out
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }

// Skeleton renders tokens in a normal form.
func Skeleton(ts []Tok) string {
	var sb strings.Builder
	for _, t := range ts {
		switch t.Kind {
		case Ident:
			sb.WriteString(strconv.Quote(t.S))
		case Hole:
			sb.WriteString("?")
		case Word, Sym, Number:
			sb.WriteString(t.S)
		default:
			sb.WriteString(t.Kind + strconv.Quote(t.S))
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

// Lite turns SQL of another dialect into SQLite's: placeholders become ?n, casts are dropped.
func Lite(s string) (string, error) {
	ts := Tokens(s)
	var sb strings.Builder
	holes := 0
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		switch t.Kind {
		case Ident:
			sb.WriteString(`"` + strings.ReplaceAll(t.S, `"`, `""`) + `"`)
		case Text:
			sb.WriteString("'" + t.S + "'")
		case Hole:
			if holes++; t.N == 0 {
				t.N = holes
			}
			sb.WriteString("?" + strconv.Itoa(t.N))
		case Sym:
			if t.S == "::" {
				for i+1 < len(ts) && ts[i+1].Kind == Word && castWord[ts[i+1].S] {
					i++
				}
				continue
			}
			sb.WriteString(t.S)
		case Word, Number:
			sb.WriteString(t.S)
		default:
			return "", fmt.Errorf("%s in SQL: %q", t.Kind, s)
		}
		if i+1 < len(ts) && ts[i+1].S != "." && t.S != "." {
			sb.WriteByte(' ')
		}
	}
	return sb.String(), nil
}

var castWord = map[string]bool{"INT": true, "INTEGER": true, "BIGINT": true, "INT4": true, "INT8": true, "BOOL": true, "BOOLEAN": true, "TEXT": true, "VARCHAR": true, "DOUBLE": true, "PRECISION": true, "FLOAT8": true, "NUMERIC": true}
