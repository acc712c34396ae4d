package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"verif/mc/ref"
	"verif/mc/run"
)

// The program is built by run.sh from sources that count function calls and loop rounds.
var (
	tickBin  = os.Getenv("VERIF_TICK")
	tickNote = os.Getenv("VERIF_TICK_NOTE") // not empty: only memory and answers are measured
)

const (
	tickShort = "8 16 32 64"
	tickLong  = "32 64 512 1024"
	tickFar   = "500 1000 4000 8000"
)

var (
	tickTokens = []string{
		"a", "a.", " and ", " or ", "not ", "(", ")", "[", "]", ",", "1", "=", "'x'", "'", " in ", " between ", " like ", " is null", " is not ", "f(", "date(", "has_edge(e,", "has_edge(p,",
		" ", "\n", "--\n", "&&", "||", "<", "!", "-", ".", "é", "true", "null", "\"", "not(", "a=1",
	}
	tickClose = []string{"", ")", "]", "=1", " and a)", " between 1 and 2)", ",1)", " in (1))", " is null)", ","}
	tickMid   = []string{"a", "", "a=1", "1"}
	tickFrame = [][2]string{{"", ""}, {"a", ""}, {"a in (", ")"}, {"f(", ")"}, {"a=1", " "}, {"a between 1", "and 2"}, {"a='", "'"}}
	// what repeats in usual queries
	tickUsual = [][5]string{
		{"", "(", "a", ")", ""}, {"", "((", "a=1", "))", ""}, {"a=1", " and a=1", "", "", ""}, {"a=1", " or b='x'", "", "", ""}, {"a=1", " or b='x' and c=2", "", "", ""}, {"a=1", " and not b=1", "", "", ""},
		{"", "not (", "a=1", ")", ""}, {"", "not ", "a=1", "", ""}, {"", "(", "a", " between 1 and 2)", ""}, {"", "(", "a", " not between 1 and 2)", ""}, {"", "date(", "a", ") ", "='x'"}, {"", "date((", "a=1", ")) ", ""}, {"", "f(a,", "a", ")", ""}, {"", "f(", "a", ",1)", ""},
		{"a in [", "1,", "1", "", "]"}, {"a in (", "'x',", "1", "", ")"}, {"a not in (", "null,", "1", "", ")"}, {"[", "1,", "1", "", "]=[1]"}, {"f(", "a,", "a", "", ")"}, {"f(", "a=1,", "a", "", ")"},
		{"", "has_edge(e,", "a=1", ")", ""}, {"", "has_edge(e,", "has_edge(e)", " and a=1)", ""}, {"", "has_edge(e,(", "a=1", "))", ""}, {"has_edge(e)", " and has_edge(p)", "", "", ""}, {"", "has_edge(e) and (", "a=1", ")", ""},
		{"a='", "x", "", "", "'"}, {"a='", "é", "", "", "'"}, {"a=\"", "'", "", "", "\""}, {"a", "a", "", "", "=1"}, {"a", "_", "", "", "=1"}, {"a", "A", "", "", "=1"}, {"a", "A1", "", "", "=1"}, {"a", ".a", "", "", "=1"}, {"a=1", "1", "", "", ""}, {"a=1.", "1", "", "", ""}, {"a=", "0", "", "", ""},
		{"", " ", "a", " ", "=1"}, {"a", "\n", "=", "\r\n", "1"}, {"", "--x\n", "a=1", "//y\n", ""}, {"--", "x", "\na=1", "", ""}, {"a=1 --", "-", "", "-", "\n"}, {"a=1", " and (b=1 or c=1)", "", "", ""}, {"", "(a=1 and ", "b=1", ")", ""}, {"", "(b=1 or ", "b=1", ") and c=1", ""}, {"", "(", "a", ") = (", "a)"},
		{"", "(", "a", " in (1,2))", ""}, {"", "(", "a", " like 'x')", ""}, {"", "(", "a", " is null)", ""}, {"", "(", "a", " = 1)", ""}, {"", "(1 = ", "a", ")", ""}, {"", "(a is null and ", "a", ")", ""}, {"a is null", " and b is not null", "", "", ""}, {"a between 1 and 2", " and b between 'x' and 'y'", "", "", ""},
		{"a like 'x'", " or b not like 'y'", "", "", ""}, {"a in (1)", " and b in (1,2)", "", "", ""}, {"date(a)='x'", " and date(b)='y'", "", "", ""}, {"true", " and true", "", "", ""}, {"1", " or 1", "", "", ""},
	}
)

// A case is the four numbers of repetitions and the parts of the text; the second and the fourth are repeated. A list of
// queries to be joined starts with j.
func init() {
	register(&run.Check{ID: "C32", HangAfter: 5 * time.Minute, Case: c32Case, Explore: func(x *run.X) {
		if tickNote != "" {
			x.Partial("steps cannot be counted: " + tickNote)
		}
		add := func(y func(string) bool, sizes, pre, v, mid, c, post string) bool {
			return y(strings.Join([]string{sizes, pre, v, mid, c, post}, "\x1e"))
		}
		x.Each("usual queries", func(y func(string) bool) {
			for _, u := range tickUsual {
				for _, s := range []string{tickShort, tickLong, tickFar} {
					if s == tickFar && strings.HasPrefix(u[1], "has_edge(e,") {
						continue // ent copies the inner statement at each level
					}
					if !add(y, s, u[0], u[1], u[2], u[3], u[4]) {
						return
					}
				}
			}
		})
		x.Each("usual queries in each other", func(y func(string) bool) {
			for _, u := range tickUsual {
				for _, v := range tickUsual {
					// v once around u, u once around v
					if !add(y, tickShort, v[0]+v[1]+u[0], u[1], u[2], u[3], u[4]+v[3]+v[4]) || !add(y, tickShort, u[0], u[1]+v[0], u[2], v[4]+u[3], u[4]) || !add(y, tickShort, u[0]+v[0], u[1]+v[1], u[2], v[3]+u[3], v[4]+u[4]) {
						return
					}
				}
			}
		})
		x.Each("joined", func(y func(string) bool) {
			for _, q := range []string{"a=1", "", " ", "a=1 or b=1", "s='" + strings.Repeat("x", 50) + "'"} {
				for _, r := range []string{"", "a=1", "\n"} {
					for _, s := range []string{tickShort, tickLong, tickFar} {
						if !add(y, "j"+s, q, r, "", "", "") {
							return
						}
					}
				}
			}
		})
		x.Each("patterns", func(y func(string) bool) {
			vs := append([]string{}, tickTokens...)
			for _, a := range tickTokens {
				for _, b := range tickTokens {
					vs = append(vs, a+b)
				}
			}
			frames, mids := tickFrame[:x.Bound(3, len(tickFrame))], tickMid[:x.Bound(2, len(tickMid))]
			for _, v := range vs {
				for _, c := range tickClose {
					for _, m := range mids {
						for _, f := range frames {
							if !add(y, tickShort, f[0], v, m, c, f[1]) {
								return
							}
							if t := f[0] + strings.Repeat(v, 3) + m + strings.Repeat(c, 3) + f[1]; ref.Parse(t).Tree != nil && !add(y, tickLong, f[0], v, m, c, f[1]) {
								return
							}
						}
					}
				}
			}
		})
		if x.Thorough {
			x.Each("patterns of three tokens", func(y func(string) bool) {
				for _, a := range tickTokens {
					for _, b := range tickTokens {
						for _, c := range tickTokens {
							for _, e := range []string{"", ")"} {
								if !add(y, tickShort, "", a+b+c, "a", e, "") {
									return
								}
							}
						}
					}
				}
			})
		}
	}})
}

type ticker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

func c32Case(w *run.W, c string) error {
	w.Distinct(c)
	t, ok := w.Local["tick"].(*ticker)
	if !ok {
		t = &ticker{cmd: exec.Command(tickBin)}
		t.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=none")
		t.cmd.Stderr = &t.err
		var err error
		if t.in, err = t.cmd.StdinPipe(); err != nil {
			panic(err)
		}
		out, err := t.cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		t.out = bufio.NewReader(out)
		if err = t.cmd.Start(); err != nil {
			panic(err)
		}
		w.Local["tick"] = t
	}
	j, _ := json.Marshal(c)
	_, _ = t.in.Write(append(j, '\n'))
	l, err := t.out.ReadString('\n')
	if err != nil {
		delete(w.Local, "tick")
		_ = t.in.Close()
		err = t.cmd.Wait()
		if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 2 && strings.HasPrefix(t.err.String(), "check:") {
			panic(t.err.String())
		}
		return fmt.Errorf("does not come to an end: %v %.300s", err, t.err.String())
	}
	var a struct {
		Bad   string
		Steps int
		Ops   int
		Valid bool
	}
	if err := json.Unmarshal([]byte(l), &a); err != nil {
		panic(err)
	}
	w.Trans(a.Steps)
	w.Traces(a.Ops - 1)
	if a.Bad != "" {
		return fmt.Errorf("%s", a.Bad)
	}
	return nil
}
