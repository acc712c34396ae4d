//go:build sched

// sched explores the schedules of concurrent calls.
//
//	sched all GRAIN BOUND OP...     all schedules with at most BOUND preemptions; prints a report
//	sched one GRAIN FIRST PLAN OP... one schedule, PLAN is step:thread,step:thread
//	sched race FIRST                the call with every other call at the same time, free running
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/wenerme/go-miniquery/vsched"
	"verif/mc/ops"
)

// Report of an exploration.
type Report struct {
	Schedules int
	Points    int
	Steps     int
	Results   int
	Bad       string
	Plan      string
}

func run1(op ops.Op, s *ops.Shared, mut bool, ser *func() string) {
	defer func() {
		if r := recover(); r != nil {
			t := fmt.Sprint("panic ", r)
			*ser = func() string { return t }
		}
	}()
	r := op.Do(s)
	if mut {
		t := r.Ser()
		r.Mut()
		*ser = func() string { return t }
		return
	}
	*ser = r.Ser
}

func alone(op ops.Op) string {
	vsched.Reset()
	var ser func() string
	run1(op, ops.NewShared(), false, &ser)
	return ser()
}

type explorer struct {
	ops    []ops.Op
	want   []string
	coarse bool
	bound  int
	rep    Report
	seen   map[string]bool
}

func planText(first int, p []vsched.Switch) string {
	out := strconv.Itoa(first)
	for _, s := range p {
		out += fmt.Sprintf(",%d:%d", s.Step, s.Thread)
	}
	return out
}

func (e *explorer) exec(first int, plan []vsched.Switch) []vsched.Point {
	vsched.Reset()
	s := ops.NewShared()
	sers := make([]func() string, len(e.ops))
	var fs []func()
	for i := range e.ops {
		fs = append(fs, func() { run1(e.ops[i], s, i == 1, &sers[i]) })
	}
	points, dead := vsched.Run(fs, first, plan, e.coarse)
	e.rep.Schedules++
	e.rep.Steps += len(points)
	if len(points) > e.rep.Points {
		e.rep.Points = len(points)
	}
	if dead != "" {
		e.bad(first, plan, dead)
		return nil
	}
	for i := range e.ops {
		got := sers[i]()
		if !e.seen[got] {
			e.seen[got] = true
			e.rep.Results++
		}
		if got != e.want[i] {
			e.bad(first, plan, fmt.Sprintf("%q gives %s, alone it gives %s", e.ops[i].Name, got, e.want[i]))
		}
	}
	return points
}

func (e *explorer) bad(first int, plan []vsched.Switch, what string) {
	if e.rep.Bad == "" {
		e.rep.Bad, e.rep.Plan = what, planText(first, plan)
	}
}

// explore runs a plan and all plans that extend it.
func (e *explorer) explore(first int, plan []vsched.Switch, left int) {
	points := e.exec(first, plan)
	if e.rep.Bad != "" {
		return
	}
	from := 0
	if len(plan) > 0 {
		from = plan[len(plan)-1].Step + 1
	}
	for i := from; i < len(points); i++ {
		p := points[i]
		if !p.Forced && left == 0 {
			continue
		}
		for t := range e.ops {
			if t == int(p.Thread) || p.Enabled&(1<<t) == 0 {
				continue
			}
			l := left
			if !p.Forced {
				l--
			}
			e.explore(first, append(plan[:len(plan):len(plan)], vsched.Switch{Step: i, Thread: t}), l)
			if e.rep.Bad != "" {
				return
			}
		}
	}
}

func pick(args []string) (out []ops.Op) {
	for _, a := range args {
		n, err := strconv.Atoi(a)
		if err != nil || n < 0 || n >= len(ops.All) {
			os.Exit(2)
		}
		out = append(out, ops.All[n])
	}
	return
}

func main() {
	args := os.Args[1:]
	e := &explorer{seen: map[string]bool{}}
	switch args[0] {
	case "all", "one":
		e.coarse = args[1] == "coarse"
		e.ops = pick(args[3:])
		for _, o := range e.ops {
			e.want = append(e.want, alone(o))
		}
		if args[0] == "all" {
			e.bound, _ = strconv.Atoi(args[2])
			for first := range e.ops {
				e.explore(first, nil, e.bound)
				if e.rep.Bad != "" {
					break
				}
			}
		} else {
			fl := strings.Split(args[2], ",")
			first, _ := strconv.Atoi(fl[0])
			var plan []vsched.Switch
			for _, f := range fl[1:] {
				a, b, _ := strings.Cut(f, ":")
				x, _ := strconv.Atoi(a)
				y, _ := strconv.Atoi(b)
				plan = append(plan, vsched.Switch{Step: x, Thread: y})
			}
			e.exec(first, plan)
		}
		json.NewEncoder(os.Stdout).Encode(e.rep)
	case "race":
		free(args[1])
	default:
		os.Exit(2)
	}
}

func free(a string) {
	first := pick([]string{a})[0]
	want := map[string]string{}
	for _, o := range ops.All {
		want[o.Name] = alone(o)
	}
	for _, o := range ops.All {
		fmt.Printf("with %s\n", o.Name)
		for round := 0; round < 3; round++ {
			vsched.Reset()
			s := ops.NewShared()
			all := []ops.Op{first, o, first}
			sers := make([]func() string, len(all))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range all {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					run1(all[i], s, i == 1, &sers[i])
				}()
			}
			close(start)
			wg.Wait()
			for i := range all {
				if got := sers[i](); got != want[all[i].Name] {
					fmt.Printf("BAD %q at the same time as %q gives %s, alone it gives %s\n", all[i].Name, all[(i+1)%len(all)].Name, got, want[all[i].Name])
					os.Exit(1)
				}
			}
		}
	}
}
