package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/ops"
	"verif/mc/run"
)

// A case is a mode (m: results are changed after each call, k: results are kept and looked at again at the end)
// followed by call numbers; or db mode size order rotation, a history that contains all sequences of that length over the first calls.
func init() {
	register(&run.Check{ID: "C09", HangAfter: 20 * time.Minute, Case: c09Case, Explore: func(x *run.X) {
		seqs := func(size, length int, modes string) {
			x.Each(fmt.Sprintf("fresh processes, %d calls, length %d, modes %s", size, length, modes), func(y func(string) bool) {
				total := 1
				for i := 0; i < length; i++ {
					total *= size
				}
				for v := 0; v < total; v++ {
					s := ""
					for i, u := 0, v; i < length; i, u = i+1, u/size {
						s += " " + strconv.Itoa(u%size)
					}
					for _, m := range modes {
						if !y(string(m) + s) {
							return
						}
					}
				}
			})
		}
		seqs(len(ops.All), 1, "mk")
		seqs(len(ops.All), 2, "mk")
		seqs(ops.Core, 3, "m")
		x.Each("near texts", func(y func(string) bool) {
			for _, m := range []string{"m", "k"} {
				for g := range ops.Near {
					for k := range ops.Kinds {
						if !y(fmt.Sprintf("near %s %d %d", m, g, k)) {
							return
						}
					}
				}
			}
		})
		x.Each("one text, all kinds of calls", func(y func(string) bool) {
			for g := range ops.Near {
				for i := range ops.Near[g] {
					if !y(fmt.Sprintf("text m %d %d", g, i)) || !y(fmt.Sprintf("text k %d %d", g, i)) {
						return
					}
				}
			}
		})
		x.Each("repetitions", func(y func(string) bool) {
			for i := range ops.All {
				for _, n := range []int{3, 5, 9, 17, 33, 65, 130, 300} {
					if !y("m"+strings.Repeat(" "+strconv.Itoa(i), n)) || !y("k"+strings.Repeat(" "+strconv.Itoa(i), n)) {
						return
					}
				}
			}
		})
		x.Each("long histories", func(y func(string) bool) {
			sizes := [][2]int{{len(ops.All), 2}, {ops.Core, 3}, {6, 5}}
			if x.Thorough {
				sizes = append(sizes, [2]int{len(ops.All), 3}, [2]int{ops.Core, 4}, [2]int{4, 8})
			}
			for _, sz := range sizes {
				for rot := 0; rot < 4; rot++ {
					for _, m := range []string{"m", "k"} {
						if m == "k" && sz[1] > 2 && x.Thorough && sz[0] > 6 {
							continue // all results would be kept
						}
						if !y(fmt.Sprintf("db %s %d %d %d", m, sz[0], sz[1], rot)) {
							return
						}
					}
				}
			}
		})
		if x.Thorough {
			seqs(ops.Core, 3, "k")
			seqs(45, 3, "m")
		}
	}, Assumptions: []string{"gorm runs dry on a dummy dialect"}})
}

// deBruijn gives a cyclic sequence that contains each word of length n over k letters once.
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var out []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(out, out[:n-1]...)
}

// OpsMain performs the history on standard input.
func OpsMain() int {
	var in struct {
		Names []string
		Mut   bool
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		return 2
	}
	out, again := ops.Run(in.Names, in.Mut)
	if json.NewEncoder(os.Stdout).Encode([][]string{out, again}) != nil {
		return 2
	}
	return 0
}

// history runs calls in a fresh process.
func history(names []string, mut bool) (out, again []string, err error) {
	in, _ := json.Marshal(map[string]any{"Names": names, "Mut": mut})
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "ops", "-")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	if len(names) < 10 {
		cmd.Env = append(cmd.Env, "GOGC=off")
	}
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		e := se.String()
		if len(e) > 600 {
			e = e[:600]
		}
		return nil, nil, fmt.Errorf("the process ended with %v: %s", err, e)
	}
	var rs [][]string
	if err := json.Unmarshal(so.Bytes(), &rs); err != nil || len(rs) != 2 {
		return nil, nil, fmt.Errorf("the process wrote %q", so.String())
	}
	return rs[0], rs[1], nil
}

var (
	singleMu sync.Mutex
	singles  = map[string]string{}
)

// single is the result of a call in a process of its own.
func single(name string) (string, error) {
	singleMu.Lock()
	defer singleMu.Unlock()
	if s, ok := singles[name]; ok {
		return s, nil
	}
	var s string
	for i := 0; i < 3; i++ {
		out, _, err := history([]string{name}, false)
		if err != nil {
			return "", fmt.Errorf("%q alone: %v", name, err)
		}
		if i > 0 && out[0] != s {
			return "", fmt.Errorf("%q alone: gives %s and %s", name, s, out[0])
		}
		s = out[0]
	}
	singles[name] = s
	return s, nil
}

func c09Case(w *run.W, c string) error {
	fl := strings.Fields(c)
	var names []string
	mode := fl[0]
	num := func(i int) int { n, _ := strconv.Atoi(fl[i]); return n }
	switch mode {
	case "near":
		for _, q := range ops.Near[num(2)] {
			names = append(names, ops.NearOp(ops.Kinds[num(3)].Name, q))
		}
		return rotations(w, names, fl[1])
	case "text":
		for _, k := range ops.Kinds {
			names = append(names, ops.NearOp(k.Name, ops.Near[num(2)][num(3)]))
		}
		return rotations(w, names, fl[1])
	}
	if mode == "db" {
		mode = fl[1]
		seq := deBruijn(num(2), num(3))
		k := num(4) * len(seq) / 4
		for i := range seq {
			names = append(names, ops.All[seq[(i+k)%len(seq)]].Name)
		}
	} else {
		for i := 1; i < len(fl); i++ {
			names = append(names, ops.All[num(i)].Name)
		}
	}
	w.Trans(len(names))
	var want []string
	for _, n := range names {
		s, err := single(n)
		if err != nil {
			return err
		}
		want = append(want, s)
	}
	out, again, err := history(names, mode == "m")
	if err != nil {
		return fmt.Errorf("%q: %v", tail(names), err)
	}
	for i := range names {
		w.Distinct(names[i] + "\x00" + out[i])
		if out[i] != want[i] {
			return fmt.Errorf("call %d of the history, after %q: %q gives %s, alone it gives %s", i+1, tail(names[:i]), names[i], out[i], want[i])
		}
		if mode == "k" && again[i] != want[i] {
			return fmt.Errorf("result %d, %q, changed from %s to %s after the calls %q", i+1, names[i], want[i], again[i], tail(names[i+1:]))
		}
	}
	return nil
}

// rotations runs histories with each of the calls in front, in which each pair of calls follows one another.
// What a call gives as the first one is what it has to give everywhere.
func rotations(w *run.W, names []string, mode string) error {
	seq := deBruijn(len(names), 2)
	seq = seq[:len(seq)-1]
	alone := make([]string, len(names))
	type result struct {
		order      []int
		out, again []string
	}
	var rs []result
	for first := range names {
		at := 0
		for seq[at] != first {
			at++
		}
		var order []int
		var hist []string
		for i := 0; i <= len(seq); i++ {
			k := seq[(at+i)%len(seq)]
			order, hist = append(order, k), append(hist, names[k])
		}
		out, again, err := history(hist, mode == "m")
		if err != nil {
			return fmt.Errorf("%q: %v", tail(hist), err)
		}
		w.Trans(len(hist))
		alone[first] = out[0]
		w.Distinct(names[first] + "\x00" + out[0])
		rs = append(rs, result{order, out, again})
	}
	for _, r := range rs {
		for i, k := range r.order {
			if r.out[i] != alone[k] {
				return fmt.Errorf("call %d of the history that starts with %q: %q gives %s, as the first call it gives %s", i+1, names[r.order[0]], names[k], r.out[i], alone[k])
			}
			if mode == "k" && r.again[i] != alone[k] {
				return fmt.Errorf("result %d, %q, of the history that starts with %q, changed from %s to %s", i+1, names[k], names[r.order[0]], alone[k], r.again[i])
			}
		}
	}
	return nil
}

func tail(names []string) []string {
	if len(names) > 6 {
		return names[len(names)-6:]
	}
	return names
}
