package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"verif/mc/ops"
	"verif/mc/run"
)

// The programs are built by run.sh from sources that call the scheduler at each statement.
var (
	schedBin  = os.Getenv("VERIF_SCHED")      // empty: the scheduler cannot control the code
	raceBin   = os.Getenv("VERIF_SCHED_RACE") // the same with the race detector
	schedNote = os.Getenv("VERIF_SCHED_NOTE")
)

// A case is "all grain bound call call [call]", or "race call".
func init() {
	register(&run.Check{ID: "C10", HangAfter: 30 * time.Minute, Case: c10Case, Explore: func(x *run.X) {
		var items [][2]string
		add := func(family, format string, args ...any) {
			items = append(items, [2]string{family, fmt.Sprintf(format, args...)})
		}
		if raceBin == "" {
			x.Partial("no race detector: " + schedNote)
		} else {
			for i := range ops.All {
				add("free running under the race detector", "race %d", i)
			}
		}
		if schedBin == "" {
			x.Partial("the scheduler cannot control the code: " + schedNote)
		} else {
			for i := 0; i < ops.Core; i++ {
				add("one call three times, 1 preemption at a function entry", "all coarse 1 %d %d %d", i, i, i)
				for j := i; j < ops.Core; j++ {
					add("pairs, 1 preemption at a statement", "all fine 1 %d %d", i, j)
				}
			}
			for i := range ops.All {
				for j := i; j < len(ops.All); j++ {
					if j >= ops.Core {
						add("pairs, 1 preemption at a function entry", "all coarse 1 %d %d", i, j)
					}
				}
				if i >= ops.Core {
					add("pairs, 1 preemption at a statement", "all fine 1 %d %d", i, i)
				}
			}
			for _, i := range c10Short {
				for _, j := range c10Short {
					add("pairs, 2 preemptions at a function entry", "all coarse 2 %d %d", i, j)
				}
			}
			if x.Thorough {
				for i := 0; i < ops.Core; i++ {
					for j := i; j < ops.Core; j++ {
						add("pairs, 2 preemptions at a function entry", "all coarse 2 %d %d", i, j)
						add("triples, 1 preemption at a function entry", "all coarse 1 %d %d %d", i, j, (i+j)%ops.Core)
					}
				}
				for i := range ops.All {
					for j := i; j < len(ops.All); j++ {
						if j >= ops.Core {
							add("pairs, 1 preemption at a statement", "all fine 1 %d %d", i, j)
						}
					}
				}
				for _, i := range c10Short {
					add("one call twice, 2 preemptions at a statement", "all fine 2 %d %d", i, i)
				}
			}
		}
		run.Tasks(x, items, func(w *run.W, it [2]string) {
			w.Family(it[0])
			w.Run(it[1])
		})
	}, Assumptions: []string{"the generated parser is preempted only where it uses package variables", "gorm and ent are not preempted", "accesses within one statement are left to the race detector"}})
}

// calls with short schedules
var c10Short = []int{0, 2, 3, 5, 8, 16, 17}

func c10Case(w *run.W, c string) error {
	fl := strings.Fields(c)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	bin := schedBin
	if fl[0] == "race" {
		bin = raceBin
	}
	if bin == "" {
		return nil
	}
	// without the limit of address space, which the race detector exceeds
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -v unlimited; exec "$0" "$@"`, bin}, fl...)...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4", "GOGC=400")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	names := func() string {
		var out []string
		from := 1
		if fl[0] == "all" {
			from = 3
		}
		for _, f := range fl[from:] {
			var n int
			fmt.Sscan(f, &n)
			out = append(out, ops.All[n].Name)
		}
		return fmt.Sprintf("%q", out)
	}
	if ctx.Err() != nil {
		if fl[0] == "race" {
			return fmt.Errorf("%s: does not end (%s)", names(), lastLine(so.String()))
		}
		w.X.Partial("schedules of " + names() + " take too long")
		return nil
	}
	if fl[0] == "race" {
		w.Traces(strings.Count(so.String(), "with ") - 1)
		w.Trans(3 * strings.Count(so.String(), "with "))
		if err != nil {
			what := lastLine(so.String())
			if s := se.String(); strings.Contains(s, "DATA RACE") || s != "" {
				if len(s) > 1500 {
					s = s[:1500]
				}
				what += "\n" + s
			}
			return fmt.Errorf("%s %s", names(), what)
		}
		return nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		s := se.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		return fmt.Errorf("%s: ended with %v: %s", names(), err, s)
	}
	if err != nil {
		return err
	}
	var rep struct {
		Schedules, Points, Steps, Results int
		Bad, Plan                         string
	}
	if err := json.Unmarshal(so.Bytes(), &rep); err != nil {
		return fmt.Errorf("%s: %q", names(), so.String())
	}
	w.Traces(rep.Schedules - 1)
	w.Trans(rep.Steps)
	w.State(rep.Points)
	if rep.Bad != "" {
		return fmt.Errorf("%s under the schedule %s (first thread, step:thread): %s", names(), rep.Plan, rep.Bad)
	}
	return nil
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}
